package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome of running a function body abstractly.
type Outcome struct {
	kind string // "ret", "panic", "exit"
	vals []*Term
	st   *State
	pos  token.Pos
	fn   *ssa.Function
}

// Call is one call seen by the analysis.
type Call struct {
	Site  ssa.CallInstruction
	Fn    *ssa.Function // static callee, or nil
	Name  string
	Args  []*Term
	Pos   token.Pos
	Res   types.Type // result type (tuple or single)
	In    *ssa.Function
	FnT   *Term
	Defer bool
}

// Hooks let a property's client observe and steer the interpretation.
type Hooks struct {
	Opaque func(fn *ssa.Function) bool
	// Call may supply the outcomes of a call; ok=false falls through.
	Call func(e *Engine, st *State, c *Call) (outs []CallOut, ok bool)
	// After is told about every call that was modelled opaquely.
	Opq     func(e *Engine, st *State, c *Call, res *Term)
	Store   func(e *Engine, st *State, addr, val *Term, in ssa.Instruction)
	Load    func(e *Engine, st *State, addr, val *Term, in ssa.Instruction)
	Index   func(e *Engine, st *State, base, idx, length *Term, in ssa.Instruction)
	Slice   func(e *Engine, st *State, base, lo, hi *Term, in ssa.Instruction)
	ToArray func(e *Engine, st *State, x *Term, n int64, in ssa.Instruction)
	Append  func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction)
	Clear   func(e *Engine, st *State, x *Term, in ssa.Instruction)
	Copy    func(e *Engine, st *State, dst, src *Term, in ssa.Instruction)
	Deref   func(e *Engine, st *State, p *Term, in ssa.Instruction)      // a pointer is followed
	Div     func(e *Engine, st *State, y *Term, in ssa.Instruction)      // integers are divided by y
	Assert  func(e *Engine, st *State, x *Term, in ssa.Instruction)      // type assertion that panics
	MakeLen func(e *Engine, st *State, n, cap *Term, in ssa.Instruction) // make([]T, n, cap)
	Panic   func(e *Engine, st *State, v *Term, in ssa.Instruction)
	Assume  func(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction)
	Return  func(e *Engine, st *State, fn *ssa.Function, depth int, vals []*Term, pos token.Pos)
	MapUpd  func(e *Engine, st *State, m, k, v *Term, in ssa.Instruction)
	Go      func(e *Engine, st *State, c *Call)
	Back    func(e *Engine, st *State) // at the end of every iteration of a loop
	Enter   func(e *Engine, st *State, fn *ssa.Function, args []*Term)
	Ess     func(f *Term) bool // facts that keep states apart
	EssCell func(a *Term) bool // cells that keep states apart
	EssTag  func(t *Term) bool // tags that keep states apart
	// Literal is told about a slice literal.
	Literal func(e *Engine, st *State, arr, sl *Term)
	// MoveTag: a tag about the value a loop variable takes becomes one about
	// the variable.
	MoveTag func(t *Term) bool
	// Const gives the value of memory that never changes.
	Const func(addr *Term) *Term
	// Concat is told about the concatenation of two strings.
	Concat func(e *Engine, st *State, x, y, res *Term, in ssa.Instruction)
	// Arith sees integer results before they are wrapped to their type: res is
	// the mathematical value of an operation or conversion of type typ.
	Arith func(e *Engine, st *State, res *Term, typ types.Type, in ssa.Instruction)
}

// CallOut is one outcome a client model gives for a call.
type CallOut struct {
	St   *State
	Val  *Term
	Kind string // "" = returns
}

type Report struct {
	Rule  string
	Where string
	Text  string
	Path  []string
	Key   string
}

type frame struct {
	fi    *fnInfo
	fn    *ssa.Function
	ctx   int
	depth int
	outs  []Outcome
}

// Engine is the abstract interpreter.
type Engine struct {
	p       *Program
	h       Hooks
	infos   map[*ssa.Function]*fnInfo
	ctxs    map[string]int
	ctxName map[int]string
	stack   []*ssa.Function
	loops   []string
	W       map[string]map[*Term]types.Type // widened cells per loop instance
	reports []Report
	steps   int
	maxStep int
	inDefer int // > 0: a deferred call is being followed
	// loops known to run at most this many times are run iteration by iteration
	unrollMax int
	// loops that end within this many rounds, whatever their condition, are
	// run round by round
	unrollAny int
	sums      bool   // look for loop variables with a constant sum
	over      string // set when the analysis had to give up
	depth     int

	keepPanics bool
	// measured coverage
	fnSeen    map[*ssa.Function]bool
	siteSeen  map[ssa.Instruction]bool
	nStates   int
	nPaths    int
	optFields map[string]bool
	lossy     int
	debug     bool
	curFr     *frame
	mods      map[*ssa.Function]map[string]types.Type
	parts     map[*ssa.Function]bool
	fnNums    map[*ssa.Function]int
}

func NewEngine(p *Program, h Hooks) *Engine {
	return &Engine{p: p, h: h, infos: map[*ssa.Function]*fnInfo{}, ctxs: map[string]int{}, ctxName: map[int]string{},
		W: map[string]map[*Term]types.Type{}, maxStep: 3000000, fnSeen: map[*ssa.Function]bool{}, siteSeen: map[ssa.Instruction]bool{}}
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	fi := e.infos[fn]
	if fi == nil {
		fi = newFnInfo(fn)
		e.infos[fn] = fi
	}
	return fi
}

var nCtx int

// ctxID numbers a call (of fn, at a site, from a context).
func (e *Engine) ctxID(parent int, site int, fn *ssa.Function) int {
	k := strconv.Itoa(parent) + "/" + strconv.Itoa(site) + "/" + fn.String()
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	nCtx++ // numbered across engines: terms are shared between them
	e.ctxs[k] = nCtx
	return nCtx
}

// Report records a violation (dropped again if the loop round is not final).
func (e *Engine) Report(st *State, pos token.Pos, rule, key, format string, a ...any) {
	r := Report{Rule: rule, Where: e.p.Pos(pos), Text: fmt.Sprintf(format, a...), Key: rule + "|" + key}
	if st != nil {
		for s := st.path; s != nil && len(r.Path) < 24; s = s.prev {
			r.Path = append(r.Path, e.p.Pos(s.pos)+": "+s.what)
		}
		for i, j := 0, len(r.Path)-1; i < j; i, j = i+1, j-1 {
			r.Path[i], r.Path[j] = r.Path[j], r.Path[i]
		}
	}
	e.reports = append(e.reports, r)
}

// Run analyses a function from an unconstrained caller.
func (e *Engine) Run(fn *ssa.Function, prep func(st *State, args []*Term)) []Outcome {
	st := newState()
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, e.Param(fn, p))
	}
	for i, p := range fn.Params {
		_ = i
		if fn.Signature.Recv() != nil && i == 0 && isPtr(p.Type()) {
			st.facts[mkEq(args[0], mkNil())] = false
		}
	}
	if prep != nil {
		prep(st, args)
	}
	var binds []*Term
	for _, fv := range fn.FreeVars {
		binds = append(binds, mkSym(OSym, "free:"+fn.String()+":"+fv.Name(), fv.Type(), &SymInfo{Kind: "param", What: fv.Name()}))
	}
	outs := e.callFn(fn, args, binds, st, e.ctxID(0, len(e.ctxs), fn))
	e.nPaths += len(outs)
	return outs
}

func (e *Engine) Param(fn *ssa.Function, p *ssa.Parameter) *Term {
	return mkSym(OSym, "param:"+fn.String()+":"+p.Name(), p.Type(), &SymInfo{Kind: "param", What: p.Name()})
}

func (e *Engine) callFn(fn *ssa.Function, args, binds []*Term, st *State, ctx int) []Outcome {
	if e.over != "" {
		return nil
	}
	fi := e.info(fn)
	e.fnSeen[fn] = true
	fr := &frame{fi: fi, fn: fn, ctx: ctx, depth: len(e.stack)}
	saveEnv, saveDef, saveUp := st.env, st.defers, st.up
	// keep caller terms alive
	terms := map[*Term]bool{}
	add := func(t *Term) { leafSyms(t, func(x *Term) { terms[x] = true }) }
	for _, t := range saveEnv {
		add(t)
	}
	for _, d := range saveDef {
		add(d.fn)
		for _, a := range d.args {
			add(a)
		}
	}
	s := st.clone()
	s.up = &upLink{prev: saveUp, terms: terms}
	s.env = map[ssa.Value]*Term{}
	s.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			s.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			s.env[fv] = binds[i]
		}
	}
	if e.h.Enter != nil {
		e.h.Enter(e, s, fn, args)
	}
	e.stack = append(e.stack, fn)
	fl := e.region(fr, nil, nil, map[*ssa.BasicBlock][]*State{fn.Blocks[0]: {s}})
	_ = fl
	e.stack = e.stack[:len(e.stack)-1]
	var outs []Outcome
	for _, o := range fr.outs {
		if o.kind == "ret" && e.h.Return != nil {
			e.h.Return(e, o.st, fn, fr.depth, o.vals, o.pos)
		}
		env := make(map[ssa.Value]*Term, len(saveEnv)+4)
		for k, v := range saveEnv {
			env[k] = v
		}
		o.st.env = env
		o.st.defers = saveDef
		o.st.up = saveUp
		o.fn = fn
		outs = append(outs, o)
	}
	return e.mergeOutcomes(outs)
}

// mergeOutcomes joins outcomes that differ only in facts, more coarsely when
// there are many.
func (e *Engine) mergeOutcomes(outs []Outcome) []Outcome {
	res := outs
	for lv := 0; lv <= 2 && len(res) > mergeLimit[lv]+1; lv++ {
		res = e.mergeOuts(res, lv)
	}
	return res
}

func (e *Engine) mergeOuts(outs []Outcome, level int) []Outcome {
	idx := map[string]int{}
	var res []Outcome
	for _, o := range outs {
		o.st.gcWith(o.vals)
		k := o.kind + "|"
		for _, v := range o.vals {
			k += termKey(v) + ","
		}
		vs := map[*Term]bool{}
		for _, v := range o.vals {
			vs[v] = true
			if v.op == OTuple {
				for _, a := range v.args {
					vs[a] = true
				}
			}
		}
		var skip func(a *Term) bool
		if level >= 1 {
			skip = func(a *Term) bool { return !e.controlCell(a) }
		}
		k += o.st.coreKey(nil, skip)
		if level == 0 {
			k += o.st.contKey()
		}
		if level <= 1 {
			k += o.st.tagKey(func(f *Term) bool { return e.essential(f, vs) })
		} else {
			k += o.st.essFactKey(func(f *Term) bool { return e.essential(f, vs) })
			if e.h.EssTag != nil {
				k += e.essTagKey(o.st)
			}
		}
		if len(o.st.env) > 0 {
			k += e.envFactKey(o.st)
		}
		if i, ok := idx[k]; ok {
			if level >= 1 {
				res[i].st.dropDiff(o.st)
			}
			res[i].st.joinInto(o.st, level >= 2)
			continue
		}
		idx[k] = len(res)
		res = append(res, o)
	}
	return res
}

func (s *State) essFactKey(ess func(*Term) bool) string {
	m := map[*Term]bool{}
	for f, v := range s.facts {
		if ess(f) {
			m[f] = v
		}
	}
	var b strings.Builder
	setKey(&b, m)
	return b.String()
}

// gcWith drops garbage, keeping what the given values need.
func (s *State) gcWith(vals []*Term) {
	terms := map[*Term]bool{}
	for _, v := range vals {
		leafSyms(v, func(x *Term) { terms[x] = true })
	}
	up := s.up
	s.up = &upLink{prev: up, terms: terms}
	s.gc(nil)
	s.up = up
}

func (e *Engine) envFactKey(st *State) string {
	vs := map[*Term]bool{}
	for _, t := range st.env {
		vs[t] = true
	}
	m := map[*Term]bool{}
	for f, v := range st.facts {
		if e.essential(f, vs) {
			m[f] = v
		}
	}
	var b strings.Builder
	setKey(&b, m)
	return b.String()
}

// essential facts keep paths apart: they say something about a live boolean,
// error or pointer value.
func (e *Engine) essential(f *Term, vals map[*Term]bool) bool {
	if e.h.Ess != nil && e.h.Ess(f) {
		return true
	}
	if f.op == OEq {
		for i := 0; i < 2; i++ {
			a := f.args[i]
			if vals[a] && a.op != OConst && (isIface(a.typ) || isPtr(a.typ)) {
				return true
			}
		}
		return false
	}
	return vals[f] && isBool(f.typ)
}

func (e *Engine) mergeAt(fr *frame, b *ssa.BasicBlock, sts []*State) []*State {
	live := fr.fi.liveL[b]
	for _, s := range sts {
		s.gc(live)
	}
	if len(sts) < 2 {
		return sts
	}
	res := e.mergeStates(live, sts, 0)
	for lv := 1; lv <= 2 && len(res) > mergeLimit[lv]; lv++ {
		res = e.mergeStates(live, res, lv)
	}
	if len(res) > mergeLimit[3] {
		res = e.forceMerge(live, res)
	}
	return res
}

// how many states a program point may have before merging gets coarser
var mergeLimit = [4]int{0, 6, 24, 40}

// controlCell: cells that steer control flow stay distinct the longest.
func (e *Engine) controlCell(a *Term) bool {
	if e.h.EssCell != nil && e.h.EssCell(a) {
		return true
	}
	if a.op == OIndex {
		return false
	}
	t := pointee(a)
	return t == nil || isBool(t) || isIface(t)
}

// mergeStates joins states with the same key.  Level 0 keeps every cell, tag
// and essential fact apart; level 1 joins over data cells; level 2 over tags.
func (e *Engine) mergeStates(live []ssa.Value, sts []*State, level int) []*State {
	idx := map[string]int{}
	var res []*State
	if level >= 2 {
		e.lossy++
	}
	for _, s := range sts {
		var skip func(a *Term) bool
		if level >= 1 {
			skip = func(a *Term) bool { return !e.controlCell(a) }
		}
		k := s.coreKey(live, skip)
		if level == 0 {
			k += s.contKey()
		}
		if level <= 1 {
			k += s.tagKey(nil) + e.envFactKey(s)
		} else if e.h.EssTag != nil {
			k += e.essTagKey(s)
		}
		if i, ok := idx[k]; ok {
			if level >= 1 {
				res[i].dropDiff(s)
			}
			res[i].joinInto(s, level >= 2)
			continue
		}
		idx[k] = len(res)
		res = append(res, s)
	}
	return res
}

func (e *Engine) essTagKey(s *State) string {
	var b strings.Builder
	for _, set := range []map[*Term]bool{s.must, s.may} {
		m := map[*Term]bool{}
		for t := range set {
			if e.h.EssTag(t) {
				m[t] = true
			}
		}
		setKey(&b, m)
	}
	return b.String()
}

// forceMerge gives up on differing cells so that the number of states stays bounded.
func (e *Engine) forceMerge(live []ssa.Value, sts []*State) []*State {
	e.lossy++
	idx := map[string]int{}
	var res []*State
	for _, s := range sts {
		var b strings.Builder
		for _, v := range live {
			b.WriteString(termKey(s.env[v]))
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, "|%d", len(s.defers))
		k := b.String()
		if i, ok := idx[k]; ok {
			r := res[i]
			r.dropDiff(s)
			r.joinInto(s, true)
			continue
		}
		idx[k] = len(res)
		res = append(res, s)
	}
	return res
}

func (s *State) dropDiff(o *State) {
	for a, v := range s.heap {
		if o.heap[a] != v {
			delete(s.heap, a)
			s.dirty[a] = true
		}
	}
	for a := range o.heap {
		if _, ok := s.heap[a]; !ok {
			s.dirty[a] = true
		}
	}
}

type flow struct {
	back  []*State
	exits map[*ssa.BasicBlock][]*State
}

func (fl *flow) exit(b *ssa.BasicBlock, s ...*State) {
	if fl.exits == nil {
		fl.exits = map[*ssa.BasicBlock][]*State{}
	}
	fl.exits[b] = append(fl.exits[b], s...)
}

// region runs the blocks of a function (lp == nil) or of one loop iteration.
func (e *Engine) region(fr *frame, lp *loop, _ any, pending map[*ssa.BasicBlock][]*State) flow {
	var fl flow
	first := true
	route := func(target *ssa.BasicBlock, s []*State) {
		if len(s) == 0 {
			return
		}
		if lp != nil && target == lp.header {
			fl.back = append(fl.back, s...)
			return
		}
		if lp != nil && !lp.blocks[target] {
			fl.exit(target, s...)
			return
		}
		pending[target] = append(pending[target], s...)
	}
	for _, b := range fr.fi.rpo {
		if lp != nil && !lp.blocks[b] {
			continue
		}
		sts := pending[b]
		if len(sts) == 0 {
			continue
		}
		delete(pending, b)
		if e.over != "" {
			return fl
		}
		isHead := lp != nil && b == lp.header && first
		if isHead {
			first = false
		} else {
			sts = e.mergeAt(fr, b, sts)
		}
		if inner := fr.fi.loops[b]; inner != nil && !(lp != nil && b == lp.header) {
			r := e.loop(fr, inner, sts)
			var ts []*ssa.BasicBlock
			for t := range r.exits {
				ts = append(ts, t)
			}
			sort.Slice(ts, func(i, j int) bool { return ts[i].Index < ts[j].Index })
			for _, t := range ts {
				route(t, r.exits[t])
			}
			continue
		}
		for _, ed := range e.block(fr, b, sts) {
			route(ed.to, ed.sts)
		}
	}
	return fl
}

type edge struct {
	to  *ssa.BasicBlock
	sts []*State
}

func (e *Engine) block(fr *frame, b *ssa.BasicBlock, sts []*State) []edge {
	e.nStates += len(sts)
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		e.steps += len(sts)
		if e.steps > e.maxStep {
			if e.over == "" {
				e.over = "step limit reached in " + fr.fn.String()
			}
			return nil
		}
		switch in := in.(type) {
		case *ssa.If:
			var tr, fa []*State
			for _, s := range sts {
				c := e.val(s, in.Cond)
				t := s.truth(c)
				if t >= 0 {
					n := s
					if t == 0 {
						n = s.clone()
					}
					if n.assume(c, true) {
						n.step(condPos(in), "("+c.String()+") is true")
						if e.h.Assume != nil {
							e.h.Assume(e, n, c, true, in)
						}
						tr = append(tr, n)
					}
				}
				if t <= 0 {
					if s.assume(c, false) {
						s.step(condPos(in), "("+c.String()+") is false")
						if e.h.Assume != nil {
							e.h.Assume(e, s, c, false, in)
						}
						fa = append(fa, s)
					}
				}
			}
			return []edge{e.edge(fr, b, 0, tr), e.edge(fr, b, 1, fa)}
		case *ssa.Jump:
			return []edge{e.edge(fr, b, 0, sts)}
		case *ssa.Return:
			for _, s := range sts {
				var vals []*Term
				for _, r := range in.Results {
					vals = append(vals, e.val(s, r))
				}
				pos := in.Pos()
				fr.outs = append(fr.outs, Outcome{kind: "ret", vals: vals, st: s, pos: pos})
			}
			return nil
		case *ssa.Panic:
			for _, s := range sts {
				if e.h.Panic != nil {
					e.h.Panic(e, s, e.val(s, in.X), in)
				}
				e.unwind(fr, s, in.Pos(), "panic")
			}
			return nil
		default:
			var next []*State
			for _, s := range sts {
				next = append(next, e.instr(fr, s, in)...)
			}
			if len(next) > len(sts) && len(next) > 8 {
				next = e.mergeMid(next)
			}
			sts = next
			if len(sts) == 0 {
				return nil
			}
		}
	}
	return nil
}

func condPos(in *ssa.If) token.Pos {
	if in.Cond.Pos().IsValid() {
		return in.Cond.Pos()
	}
	if i, ok := in.Cond.(ssa.Instruction); ok {
		return i.Pos()
	}
	return token.NoPos
}

// mergeMid merges states in the middle of a block (all env values kept).
func (e *Engine) mergeMid(sts []*State) []*State {
	var live []ssa.Value
	for v := range sts[0].env {
		live = append(live, v)
	}
	sort.Slice(live, func(i, j int) bool { return live[i].Name() < live[j].Name() })
	res := e.mergeStates(live, sts, 0)
	for lv := 1; lv <= 2 && len(res) > mergeLimit[lv]; lv++ {
		res = e.mergeStates(live, res, lv)
	}
	return res
}

func (e *Engine) unwind(fr *frame, s *State, pos token.Pos, kind string) {
	if !e.keepPanics {
		return
	}
	sts := []*State{s}
	if kind == "panic" {
		sts = e.runDefers(fr, s)
	}
	for _, x := range sts {
		fr.outs = append(fr.outs, Outcome{kind: kind, st: x, pos: pos})
	}
}

func (e *Engine) runDefers(fr *frame, s *State) []*State {
	e.inDefer++
	defer func() { e.inDefer-- }()
	sts := []*State{s}
	for {
		var next []*State
		busy := false
		for _, x := range sts {
			if len(x.defers) == 0 {
				next = append(next, x)
				continue
			}
			busy = true
			d := x.defers[len(x.defers)-1]
			x.defers = x.defers[:len(x.defers)-1]
			for _, o := range e.invoke(fr, x, d.site, d.fn, d.args, true) {
				next = append(next, o.St)
			}
		}
		sts = next
		if !busy {
			return sts
		}
		if len(sts) > 24 {
			sts = e.mergeMid(sts)
		}
	}
}

func (e *Engine) edge(fr *frame, b *ssa.BasicBlock, i int, sts []*State) edge {
	to := b.Succs[i]
	// index of this edge among the preds (a block may be a predecessor twice)
	pi := -1
	cnt := 0
	for k, s := range b.Succs {
		if s == to {
			if k == i {
				break
			}
			cnt++
		}
	}
	for k, p := range to.Preds {
		if p == b {
			if cnt == 0 {
				pi = k
				break
			}
			cnt--
		}
	}
	for _, s := range sts {
		var phis []*ssa.Phi
		var vals []*Term
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			vals = append(vals, e.val(s, ph.Edges[pi]))
		}
		for k, ph := range phis {
			s.env[ph] = vals[k]
		}
		s.last = b
	}
	return edge{to, sts}
}

// val evaluates an SSA value.
func (e *Engine) val(s *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Basic:
				return zeroTerm(v.Type())
			}
			return mkNil()
		}
		if v.Value.Kind() == constant.Float && isInt(v.Type()) {
			return mkConst(constant.ToInt(v.Value), v.Type())
		}
		if v.Value.Kind() == constant.Int && isFloat(v.Type()) {
			return mkConst(constant.ToFloat(v.Value), v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Global:
		return mkGlobal(v)
	case *ssa.Function:
		return mkFunc(v)
	case *ssa.Builtin:
		return intern(OFunc, "builtin:"+v.Name(), nil)
	}
	if t, ok := s.env[v]; ok {
		return t
	}
	// a value the state lost (dead at a merge): treat as unknown
	return mkSym(OSym, "lost:"+v.Parent().String()+":"+v.Name(), v.Type(), &SymInfo{Kind: "lost", What: v.Name()})
}

// newSym makes the symbol for what an instruction yields in this context.
func (e *Engine) newSym(fr *frame, op Op, in ssa.Instruction, suffix string, typ types.Type, info *SymInfo, args ...*Term) *Term {
	name := strconv.Itoa(fr.ctx) + "." + strconv.Itoa(fr.fi.instrID[in]) + suffix
	info.Loops = append([]string(nil), e.loops...)
	info.Pos = in.Pos()
	t := intern(op, name, typ, args...)
	if t.obj == nil {
		t.obj = info
	}
	return t
}

func (e *Engine) load(fr *frame, s *State, addr *Term, typ types.Type, in ssa.Instruction, suf string) []*Term2 {
	if decomposable(typ) {
		st := typ.Underlying().(*types.Struct)
		cur := []*Term2{{s, nil, nil}}
		for i := 0; i < st.NumFields(); i++ {
			var next []*Term2
			for _, c := range cur {
				for _, r := range e.load(fr, c.st, mkField(addr, typ, i), st.Field(i).Type(), in, suf+"."+strconv.Itoa(i)) {
					next = append(next, &Term2{r.st, nil, append(append([]*Term(nil), c.fs...), r.t)})
				}
			}
			cur = next
		}
		for _, c := range cur {
			c.t = mkStruct(typ, c.fs)
		}
		return cur
	}
	if e.h.Const != nil {
		if v := e.h.Const(addr); v != nil {
			return []*Term2{{s, v, nil}}
		}
	}
	if v, ok := s.lookup(addr); ok && !s.partDirty(addr, typ) {
		return []*Term2{{s, v, nil}}
	}
	// reading an element of a sequence whose contents are known: one state per
	// possible element
	if ix := innerIndex(addr); ix != nil {
		if cands, ok := e.elements(s, ix); ok {
			var res []*Term2
			for k, c := range cands {
				n := s
				if k < len(cands)-1 {
					n = s.clone()
				}
				c = e.instantiate(fr, c, in)
				n.bind[ix] = c
				et := pointee(ix)
				e.setCells(n, ix, c, et)
				if et != nil && !decomposable(et) {
					res = append(res, &Term2{n, c, nil})
					continue
				}
				res = append(res, e.load(fr, n, addr, typ, in, suf)...)
			}
			return res
		}
	}
	r := rootOf(addr)
	if !s.isDirty(addr) && !s.partDirty(addr, typ) {
		if s.fresh(r) {
			return []*Term2{{s, zeroTerm(typ), nil}}
		}
		return []*Term2{{s, mkInit(addr, typ), nil}}
	}
	v := e.newSym(fr, OSym, in, "ld"+suf, typ, &SymInfo{Kind: "load", What: strings.TrimPrefix(addr.String(), "&") + "'"})
	if !hasAged(addr) {
		s.heap[addr] = v
	}
	return []*Term2{{s, v, nil}}
}

// Term2 pairs a value with the state it belongs to.
type Term2 struct {
	st *State
	t  *Term
	fs []*Term
}

// setCells gives element ix the (struct or plain) value c without treating it as a store.
func (e *Engine) setCells(s *State, ix, c *Term, et types.Type) {
	if et != nil && decomposable(et) {
		st := et.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			e.setCells(s, mkField(ix, et, i), mkFieldVal(c, et, i), st.Field(i).Type())
		}
		return
	}
	if _, ok := s.heap[ix]; !ok {
		s.heap[ix] = c
	}
}

// innerIndex finds the innermost OIndex address with a non-constant index.
func innerIndex(a *Term) *Term {
	for a.op == OField || a.op == OIndex {
		if a.op == OIndex {
			return a
		}
		a = a.args[0]
	}
	return nil
}

// elements lists the possible values of the element at ix, if they are known.
func (e *Engine) elements(s *State, ix *Term) ([]*Term, bool) {
	base, idx := ix.args[0], ix.args[1]
	if idx.op == OAll {
		return nil, false
	}
	et := pointee(ix)
	if base.op == OAlloc {
		n := arrayLen(base.typ)
		if n <= 0 || n > 64 {
			return nil, false
		}
		if _, ok := idx.intVal(); ok {
			return nil, false
		}
		var out []*Term
		for i := int64(0); i < n; i++ {
			a := mkIndex(base, mkInt(i), et)
			if decomposable(et) {
				st := et.Underlying().(*types.Struct)
				var fs []*Term
				for k := 0; k < st.NumFields(); k++ {
					v, ok := s.heap[mkField(a, et, k)]
					if !ok {
						v = zeroTerm(st.Field(k).Type())
					}
					fs = append(fs, v)
				}
				out = append(out, mkStruct(et, fs))
				continue
			}
			v, ok := s.heap[a]
			if !ok {
				return nil, false
			}
			out = append(out, v)
		}
		return uniq(out), true
	}
	c := s.cont[base]
	if c == nil || !c.closed && c.base == nil {
		return nil, false
	}
	out := append([]*Term(nil), c.elems...)
	if c.base != nil {
		if isZeroLen(s, c.base) {
			// nothing from the base
		} else {
			return nil, false
		}
	}
	if len(out) == 0 || len(out) > 24 {
		return nil, false
	}
	return uniq(out), true
}

func isZeroLen(s *State, t *Term) bool { return s.truth(mkEqInt(mkLen(t), mkInt(0))) == 1 }

func uniq(l []*Term) []*Term {
	var r []*Term
	for _, t := range l {
		if !containsTerm(r, t) {
			r = append(r, t)
		}
	}
	return r
}

// instantiate replaces "for all" indices of a chosen element by one arbitrary index.
func (e *Engine) instantiate(fr *frame, c *Term, in ssa.Instruction) *Term {
	all := mkAll("")
	if !c.has(all) {
		return c
	}
	sk := e.newSym(fr, OSym, in, "sk", tInt, &SymInfo{Kind: "skolem", What: "j"})
	return newSubst(map[*Term]*Term{all: sk}).apply(c)
}

func one(s *State) []*State { return []*State{s} }

// instr runs one ordinary instruction.
func (e *Engine) instr(fr *frame, s *State, in ssa.Instruction) []*State {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return one(s)
	case *ssa.Alloc:
		t := e.newSym(fr, OAlloc, in, "", in.Type(), &SymInfo{Kind: "alloc", What: allocName(in)})
		s.env[in] = t
		return one(s)
	case *ssa.BinOp:
		if e.h.Div != nil && isInt(in.Type()) && (in.Op == token.QUO || in.Op == token.REM) {
			e.h.Div(e, s, e.val(s, in.Y), in)
		}
		s.env[in] = e.binop(in.Op, e.val(s, in.X), e.val(s, in.Y), in.Type(), in.X.Type())
		if e.h.Concat != nil && in.Op == token.ADD && isString(in.Type()) {
			e.h.Concat(e, s, e.val(s, in.X), e.val(s, in.Y), s.env[in], in)
		}
		if e.h.Arith != nil && isInt(in.Type()) {
			switch in.Op {
			case token.ADD, token.SUB, token.MUL, token.SHL:
				e.h.Arith(e, s, s.env[in], in.Type(), in)
			}
		}
		return one(s)
	case *ssa.UnOp:
		x := e.val(s, in.X)
		switch in.Op {
		case token.MUL:
			e.deref(s, x, in)
			var out []*State
			for _, r := range e.load(fr, s, x, in.Type(), in, "") {
				r.st.env[in] = r.t
				if e.h.Load != nil {
					e.h.Load(e, r.st, x, r.t, in)
				}
				out = append(out, r.st)
			}
			return out
		case token.NOT:
			s.env[in] = mkNot(x)
		case token.SUB:
			if isInt(in.Type()) {
				s.env[in] = lin(x).scale(-1).term()
			} else {
				s.env[in] = intern(OUn, "-", in.Type(), x)
			}
		case token.ARROW:
			s.env[in] = e.symTuple(fr, in, in.Type(), "recv", nil)
		default:
			s.env[in] = intern(OUn, in.Op.String(), in.Type(), x)
		}
		return one(s)
	case *ssa.Call:
		var out []*State
		fnT, args := e.callee(s, &in.Call)
		for _, o := range e.invoke(fr, s, in, fnT, args, false) {
			if o.Val != nil {
				o.St.env[in] = o.Val
			}
			out = append(out, o.St)
		}
		return out
	case *ssa.Defer:
		fnT, args := e.callee(s, &in.Call)
		s.defers = append(append([]deferred(nil), s.defers...), deferred{in, fnT, args})
		return one(s)
	case *ssa.Go:
		fnT, args := e.callee(s, &in.Call)
		if e.h.Go != nil {
			c := e.mkCall(fr, in, fnT, args)
			e.h.Go(e, s, c)
		}
		return one(s)
	case *ssa.RunDefers:
		return e.runDefers(fr, s)
	case *ssa.Extract:
		t := e.val(s, in.Tuple)
		if t.op == OTuple && in.Index < len(t.args) {
			s.env[in] = t.args[in.Index]
		} else {
			s.env[in] = intern(OFieldVal, "#"+strconv.Itoa(in.Index), in.Type(), t)
		}
		return one(s)
	case *ssa.FieldAddr:
		b := e.val(s, in.X)
		e.deref(s, b, in)
		st := in.X.Type().Underlying().(*types.Pointer).Elem()
		s.env[in] = mkField(b, st, in.Field)
		return one(s)
	case *ssa.Field:
		s.env[in] = mkFieldVal(e.val(s, in.X), in.X.Type(), in.Field)
		return one(s)
	case *ssa.IndexAddr:
		b, i := e.val(s, in.X), e.val(s, in.Index)
		l := mkLen(b)
		if a := arrayLen(in.X.Type()); a >= 0 {
			l = mkInt(a)
		}
		if e.h.Index != nil {
			e.h.Index(e, s, b, i, l, in)
		}
		e.inBounds(s, i, l)
		s.env[in] = mkIndex(b, i, elemType(in.X.Type()))
		return one(s)
	case *ssa.Index:
		b, i := e.val(s, in.X), e.val(s, in.Index)
		l := mkLen(b)
		if a := arrayLen(in.X.Type()); a >= 0 {
			l = mkInt(a)
		}
		if e.h.Index != nil {
			e.h.Index(e, s, b, i, l, in)
		}
		e.inBounds(s, i, l)
		s.env[in] = intern(OCall, "index", in.Type(), b, i)
		return one(s)
	case *ssa.Lookup:
		b, i := e.val(s, in.X), e.val(s, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			if e.h.Index != nil {
				e.h.Index(e, s, b, i, mkLen(b), in)
			}
			e.inBounds(s, i, mkLen(b))
			s.env[in] = intern(OCall, "index", in.Type(), b, i)
			return one(s)
		}
		v := intern(OCall, "mapget", elemOfMap(in.X.Type()), b, i)
		if in.CommaOk {
			ok := intern(OCall, "maphas", tBool, b, i)
			s.env[in] = mkTuple([]*Term{v, ok})
		} else {
			s.env[in] = v
		}
		return one(s)
	case *ssa.MapUpdate:
		m := e.val(s, in.Map)
		if e.h.MapUpd != nil {
			e.h.MapUpd(e, s, m, e.val(s, in.Key), e.val(s, in.Value), in)
		}
		return one(s)
	case *ssa.Store:
		a, v := e.val(s, in.Addr), e.val(s, in.Val)
		e.deref(s, a, in)
		if e.h.Store != nil {
			e.h.Store(e, s, a, v, in)
		}
		s.store(a, v, in.Val.Type())
		return one(s)
	case *ssa.MakeSlice:
		if e.h.MakeLen != nil {
			e.h.MakeLen(e, s, e.val(s, in.Len), e.val(s, in.Cap), in)
		}
		s.env[in] = e.newSym(fr, OMake, in, "", in.Type(), &SymInfo{Kind: "make", What: "make(" + shortName(typeName(in.Type())) + ")"}, e.val(s, in.Len))
		return one(s)
	case *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		s.env[v] = e.newSym(fr, OMake, in, "", v.Type(), &SymInfo{Kind: "make", What: "make(" + shortName(typeName(v.Type())) + ")"})
		return one(s)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, e.val(s, b))
		}
		s.env[in] = mkClosure(in.Fn.(*ssa.Function), bs)
		return one(s)
	case *ssa.MakeInterface:
		x := e.val(s, in.X)
		s.env[in] = intern(OIface, typeName(in.X.Type()), in.Type(), x)
		if s.env[in].obj == nil {
			s.env[in].obj = in.X.Type()
		}
		return one(s)
	case *ssa.ChangeInterface:
		s.env[in] = e.val(s, in.X)
		return one(s)
	case *ssa.ChangeType:
		s.env[in] = e.val(s, in.X)
		return one(s)
	case *ssa.Convert:
		s.env[in] = e.convert(fr, s, in)
		if e.h.Arith != nil && isInt(in.Type()) && isInt(in.X.Type()) {
			e.h.Arith(e, s, s.env[in], in.Type(), in)
		}
		return one(s)
	case *ssa.MultiConvert:
		s.env[in] = intern(OConv, typeName(in.Type()), in.Type(), e.val(s, in.X))
		return one(s)
	case *ssa.SliceToArrayPointer:
		x := e.val(s, in.X)
		n := arrayLen(in.Type())
		if e.h.ToArray != nil {
			e.h.ToArray(e, s, x, n, in)
		}
		s.assume(mkLe(mkInt(n), mkLen(x)), true)
		s.env[in] = intern(OCall, "arrayptr", in.Type(), x)
		return one(s)
	case *ssa.Slice:
		b := e.val(s, in.X)
		lo, hi, mx := mkNil(), mkNil(), mkNil()
		if in.Low != nil {
			lo = e.val(s, in.Low)
		}
		if in.High != nil {
			hi = e.val(s, in.High)
		}
		if in.Max != nil {
			mx = e.val(s, in.Max)
		}
		if isPtr(in.X.Type()) {
			e.deref(s, b, in)
		}
		if e.h.Slice != nil && (in.Low != nil || in.High != nil) {
			e.h.Slice(e, s, b, lo, hi, in)
		}
		l := mkLen(b)
		if a := arrayLen(in.X.Type()); a >= 0 {
			l = mkInt(a)
		}
		if isSlice(in.X.Type()) || isString(in.X.Type()) || arrayLen(in.X.Type()) >= 0 {
			if !lo.isNil() {
				s.assume(mkLe(mkInt(0), lo), true)
				if hi.isNil() {
					s.assume(mkLe(lo, l), true)
				}
			}
			if !hi.isNil() && isString(in.X.Type()) {
				s.assume(mkLe(hi, l), true)
			}
			if !hi.isNil() {
				x := lo
				if x.isNil() {
					x = mkInt(0)
				}
				s.assume(mkLe(x, hi), true)
			}
		}
		if lo.isNil() && hi.isNil() && mx.isNil() && isSlice(in.X.Type()) {
			s.env[in] = b
			return one(s)
		}
		if isString(in.X.Type()) {
			s.env[in] = intern(OCall, "substr", in.Type(), b, lo, hi)
			return one(s)
		}
		t := intern(OSlice, "", in.Type(), b, lo, hi, mx)
		s.env[in] = t
		// full slice of a local array literal: its contents are the cells
		if b.op == OAlloc && lo.isNil() && hi.isNil() {
			e.literal(s, b, t)
		} else if b.op != OAlloc {
			if c := s.cont[b]; c != nil {
				s.cont[t] = c
			}
		}
		return one(s)
	case *ssa.Range:
		s.env[in] = intern(OCall, "range", in.Type(), e.val(s, in.X))
		return one(s)
	case *ssa.Next:
		tt := in.Type().(*types.Tuple)
		ok := e.newSym(fr, OSym, in, "ok", tBool, &SymInfo{Kind: "range", What: "more"})
		k := e.newSym(fr, OSym, in, "k", tt.At(1).Type(), &SymInfo{Kind: "range", What: "key"})
		v := e.newSym(fr, OSym, in, "v", tt.At(2).Type(), &SymInfo{Kind: "range", What: "value", Args: []*Term{e.val(s, in.Iter)}})
		s.env[in] = mkTuple([]*Term{ok, k, v})
		return one(s)
	case *ssa.TypeAssert:
		x := e.val(s, in.X)
		if e.h.Assert != nil && !in.CommaOk {
			e.h.Assert(e, s, x, in)
		}
		var v, ok *Term
		if x.op == OIface {
			if ct, isT := x.obj.(types.Type); isT && !types.IsInterface(in.AssertedType) {
				if types.Identical(ct, in.AssertedType) {
					v, ok = x.args[0], mkBool(true)
				} else {
					v, ok = zeroTerm(in.AssertedType), mkBool(false)
				}
			}
		}
		if v == nil {
			v = e.newSym(fr, OSym, in, "v", in.AssertedType, &SymInfo{Kind: "assert", What: x.String(), Args: []*Term{x}})
			ok = e.newSym(fr, OSym, in, "ok", tBool, &SymInfo{Kind: "assert", What: "ok"})
		}
		if in.CommaOk {
			s.env[in] = mkTuple([]*Term{v, ok})
		} else {
			s.env[in] = v
		}
		return one(s)
	case *ssa.Select:
		s.env[in] = e.symTuple(fr, in, in.Type(), "select", nil)
		return one(s)
	case *ssa.Send:
		return one(s)
	}
	if v, ok := in.(ssa.Value); ok {
		s.env[v] = e.symTuple(fr, in, v.Type(), "unknown", nil)
	}
	return one(s)
}

func elemOfMap(t types.Type) types.Type {
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return nil
}

func allocName(in *ssa.Alloc) string {
	if in.Comment != "" {
		return in.Comment
	}
	return in.Name()
}

// literal notes the contents of a slice made from a local array.
func (e *Engine) literal(s *State, arr, sl *Term) {
	n := arrayLen(arr.typ)
	if n < 0 || n > 64 {
		return
	}
	et := elemType(arr.typ)
	if !trackContents(et) {
		return
	}
	c := &Contents{closed: true}
	for i := int64(0); i < n; i++ {
		a := mkIndexRaw(arr, mkInt(i), types.NewPointer(et))
		v := e.peek(s, a, et)
		if v == nil {
			return
		}
		c.elems = append(c.elems, v)
		s.must[mkTag("has", sl, v)] = true
	}
	c.elems = uniq(c.elems)
	sortTerms(c.elems)
	s.cont[sl] = c
	if i := arr.info(); e.h.Literal != nil && i != nil && i.What == "slicelit" {
		e.h.Literal(e, s, arr, sl)
	}
}

// peek reads a cell without side effects; nil when unknown.
func (e *Engine) peek(s *State, a *Term, et types.Type) *Term {
	if decomposable(et) {
		st := et.Underlying().(*types.Struct)
		var fs []*Term
		for k := 0; k < st.NumFields(); k++ {
			v := e.peek(s, mkField(a, et, k), st.Field(k).Type())
			if v == nil {
				return nil
			}
			fs = append(fs, v)
		}
		return mkStruct(et, fs)
	}
	if s.partDirty(a, et) {
		return nil
	}
	if v, ok := s.lookup(a); ok {
		return v
	}
	if s.isDirty(a) {
		return nil
	}
	if s.fresh(rootOf(a)) {
		return zeroTerm(et)
	}
	return mkInit(a, et)
}

func (e *Engine) deref(s *State, p *Term, in ssa.Instruction) {
	if e.h.Deref != nil {
		e.h.Deref(e, s, p, in)
	}
	if p.nonNil() || p.isNil() {
		return
	}
	s.assume(mkEq(p, mkNil()), false)
}

func (e *Engine) inBounds(s *State, i, l *Term) {
	s.assume(mkLe(mkInt(0), i), true)
	s.assume(mkLt(i, l), true)
}

func (e *Engine) symTuple(fr *frame, in ssa.Instruction, typ types.Type, what string, args []*Term) *Term {
	kind := "call"
	if tt, ok := typ.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return mkTuple(nil)
		}
		var ts []*Term
		for i := 0; i < tt.Len(); i++ {
			ts = append(ts, e.newSym(fr, OSym, in, "r"+strconv.Itoa(i), tt.At(i).Type(), &SymInfo{Kind: kind, What: what, Idx: i, Args: args}))
		}
		return mkTuple(ts)
	}
	return e.newSym(fr, OSym, in, "r", typ, &SymInfo{Kind: kind, What: what, Args: args})
}

func (e *Engine) binop(op token.Token, x, y *Term, typ, opTyp types.Type) *Term {
	ints := isInt(opTyp)
	switch op {
	case token.ADD:
		if ints {
			return linAdd(x, y)
		}
	case token.SUB:
		if ints {
			return linSub(x, y)
		}
	case token.MUL:
		if ints {
			if v, ok := x.intVal(); ok {
				return lin(y).scale(v).term()
			}
			if v, ok := y.intVal(); ok {
				return lin(x).scale(v).term()
			}
		}
	case token.EQL:
		return mkEq(x, y)
	case token.NEQ:
		return mkNot(mkEq(x, y))
	case token.LSS:
		if ints {
			return mkLt(x, y)
		}
	case token.LEQ:
		if ints {
			return mkLe(x, y)
		}
	case token.GTR:
		if ints {
			return mkLt(y, x)
		}
		return e.binop(token.LSS, y, x, typ, opTyp)
	case token.GEQ:
		if ints {
			return mkLe(y, x)
		}
		return e.binop(token.LEQ, y, x, typ, opTyp)
	}
	if x.op == OConst && y.op == OConst && x.cv != nil && y.cv != nil {
		if r := foldConst(op, x, y, ints, typ); r != nil {
			return r
		}
	}
	return intern(OBin, op.String(), typ, x, y)
}

func foldConst(op token.Token, x, y *Term, ints bool, typ types.Type) (t *Term) {
	defer func() {
		if recover() != nil {
			t = nil
		}
	}()
	if op == token.QUO && ints {
		op = token.QUO_ASSIGN
	}
	if (op == token.REM || op == token.QUO_ASSIGN) && constant.Sign(y.cv) == 0 {
		return nil
	}
	switch op {
	case token.LSS, token.LEQ:
		return mkBool(constant.Compare(x.cv, op, y.cv))
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(y.cv)
		if !ok || n > 64 {
			return nil
		}
		return mkConst(constant.Shift(x.cv, op, uint(n)), typ)
	}
	return mkConst(constant.BinaryOp(x.cv, op, y.cv), typ)
}

func (e *Engine) convert(fr *frame, s *State, in *ssa.Convert) *Term {
	x := e.val(s, in.X)
	from, to := in.X.Type(), in.Type()
	switch {
	case isInt(from) && isInt(to):
		return x
	case isString(from) && isSlice(to):
		var l *Term
		et := elemType(to)
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			l = mkLen(x)
		} else {
			l = intern(OCall, "utf8.RuneCountInString", tInt, x)
			if c, ok := x.strVal(); ok {
				l = mkInt(int64(len([]rune(c))))
			}
		}
		t := e.newSym(fr, OMake, in, "", to, &SymInfo{Kind: "conv", What: "[]" + et.String() + "(" + x.String() + ")"}, l)
		s.tag(mkTag("conv", t, x))
		return t
	}
	return intern(OConv, typeName(to), to, x)
}
