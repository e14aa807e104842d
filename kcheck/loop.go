package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// allRef describes the "already visited" index of a counting loop.
type allRef struct {
	phi  *Term
	k    int64
	step int64
}

type loopRun struct {
	e     *Engine
	fr    *frame
	lp    *loop
	lid   string
	live  []ssa.Value
	phis  []*ssa.Phi
	wide  map[*ssa.Phi]*Term // widened phis
	v0    map[*Term]*Term    // phi symbol -> entry value
	entry *State

	heads   []*State
	keys    map[string]int
	exits   []map[*ssa.BasicBlock][]*State
	reports [][]Report
	backs   [][]*State      // raw back-edge states (phis not yet assigned), per head
	pi      map[*Term]*Term // generalised cells assumed for visited indices
	piTags  map[*Term]*Term // tag for visited indices -> the same for the current one
}

const maxHeads = 14

// loop abstracts a natural loop: every state that enters it gets its own
// fixpoint.
func (e *Engine) loop(fr *frame, lp *loop, sts []*State) flow {
	var fl flow
	for _, s := range sts {
		if r, ok := e.unroll(fr, lp, s); ok {
			for t, xs := range r.exits {
				fl.exit(t, xs...)
			}
			continue
		}
		if r, ok := e.unrollFree(fr, lp, s); ok {
			for t, xs := range r.exits {
				fl.exit(t, xs...)
			}
			continue
		}
		r := e.loopOne(fr, lp, s)
		for t, xs := range r.exits {
			fl.exit(t, xs...)
		}
	}
	return fl
}

// unrollFree runs a loop round by round when no path goes round it more than
// unrollAny times.
func (e *Engine) unrollFree(fr *frame, lp *loop, s *State) (flow, bool) {
	var fl flow
	if e.unrollAny == 0 {
		return fl, false
	}
	ctx, outs := fr.ctx, len(fr.outs)
	pre := append([]Report(nil), e.reports...)
	defer func() { fr.ctx = ctx }()
	cur := []*State{s.clone()}
	for it := 0; len(cur) > 0 && e.over == ""; it++ {
		if it > e.unrollAny {
			e.reports, fr.outs = pre, fr.outs[:outs]
			return flow{}, false
		}
		if it > 0 {
			fr.ctx = e.ctxID(ctx, 1<<20+lp.header.Index<<8+it, fr.fn)
		}
		n := e.region(fr, lp, nil, map[*ssa.BasicBlock][]*State{lp.header: cur})
		for t, xs := range n.exits {
			fl.exit(t, xs...)
		}
		cur = n.back
		if len(cur) > 1 {
			cur = e.mergeAt(fr, lp.header, cur)
		}
	}
	return fl, true
}

// unroll runs a loop whose number of iterations is known (at most unrollMax)
// iteration by iteration.
func (e *Engine) unroll(fr *frame, lp *loop, s *State) (flow, bool) {
	var fl flow
	iff, _ := lastInstr(lp.header).(*ssa.If)
	if e.unrollMax == 0 || iff == nil || lp.blocks[iff.Block().Succs[0]] == lp.blocks[iff.Block().Succs[1]] {
		return fl, false
	}
	in := 0
	if !lp.blocks[iff.Block().Succs[0]] {
		in = 1
	}
	r := &loopRun{e: e, fr: fr, lp: lp}
	stays := func(s *State) (bool, bool) {
		c := r.headerCond(s, iff)
		if c == nil {
			return false, false
		}
		t := s.truth(c)
		return (t == 1) == (in == 0), t != 0
	}
	// the bound must be known now: try the counter's next values
	var ctr *ssa.Phi
	for _, i := range lp.header.Instrs {
		if ph, ok := i.(*ssa.Phi); ok && isInt(ph.Type()) && s.env[ph] != nil && s.env[ph].op == OConst {
			if ctr != nil {
				return fl, false
			}
			ctr = ph
		}
	}
	if ctr == nil {
		return fl, false
	}
	for j, t := 0, s.clone(); ; j++ {
		in, known := stays(t)
		if !known || j > e.unrollMax {
			return fl, false
		}
		if !in {
			break
		}
		t.env[ctr] = e.binop(token.ADD, t.env[ctr], mkInt(1), ctr.Type(), ctr.Type())
	}
	ctx := fr.ctx
	pre := append([]Report(nil), e.reports...)
	defer func() { fr.ctx = ctx }()
	cur := []*State{s.clone()}
	for it := 0; len(cur) > 0 && e.over == ""; it++ {
		for _, c := range cur {
			in, known := stays(c)
			if !known || it > e.unrollMax && in {
				e.reports = pre
				return flow{}, false
			}
		}
		if it > 0 {
			fr.ctx = e.ctxID(ctx, 1<<20+lp.header.Index<<8+it, fr.fn)
		}
		n := e.region(fr, lp, nil, map[*ssa.BasicBlock][]*State{lp.header: cur})
		for t, xs := range n.exits {
			fl.exit(t, xs...)
		}
		cur = n.back
		if len(cur) > 1 {
			cur = e.mergeAt(fr, lp.header, cur)
		}
	}
	return fl, true
}

func widenable(t types.Type) bool {
	return isInt(t) || isString(t) || isSlice(t) || isFloat(t)
}

func (e *Engine) loopOne(fr *frame, lp *loop, s *State) flow {
	lid := "L" + strconv.Itoa(fr.ctx) + "." + strconv.Itoa(lp.header.Index)
	e.loops = append(e.loops, lid)
	defer func() { e.loops = e.loops[:len(e.loops)-1] }()
	mark := len(e.reports)
	pre := append([]Report(nil), e.reports...)
	var piCells map[*Term]*Term
	var piTags map[*Term]*Term
	for round := 0; ; round++ {
		if e.over != "" {
			return flow{}
		}
		r := &loopRun{e: e, fr: fr, lp: lp, lid: lid, live: fr.fi.liveL[lp.header], entry: s,
			wide: map[*ssa.Phi]*Term{}, v0: map[*Term]*Term{}, keys: map[string]int{}, pi: piCells, piTags: piTags}
		e.reports = append(e.reports[:0:0], pre...)
		if !r.fix(s) {
			// a cell was added to the widened set
			piCells, piTags = nil, nil
			if round > 60 {
				e.over = "loop does not stabilise in " + fr.fn.String()
			}
			continue
		}
		// generalise what every iteration establishes
		nc, nt := r.established()
		if piCells == nil && piTags == nil {
			if len(nc) == 0 && len(nt) == 0 {
				return r.finish(pre, mark)
			}
			piCells, piTags = nc, nt
			continue
		}
		stable := true
		keepC := map[*Term]*Term{}
		for a, v := range piCells {
			if nc[a] == v && r.kept(a, v) {
				keepC[a] = v
			} else {
				stable = false
			}
		}
		if stable {
			return r.finish(pre, mark)
		}
		piCells = keepC
		if round > 80 {
			e.over = "loop does not stabilise in " + fr.fn.String()
		}
	}
}

// kept: the assumed cell for visited indices survives one more iteration.
func (r *loopRun) kept(a, v *Term) bool {
	for _, bs := range r.backs {
		for _, b := range bs {
			if b.heap[a] != v {
				return false
			}
		}
	}
	return true
}

func (r *loopRun) phiSym(ph *ssa.Phi) *Term {
	what := ph.Comment
	if what == "" {
		what = ph.Name()
	}
	t := mkSym(OSym, r.lid+":"+ph.Name(), ph.Type(), &SymInfo{Kind: "phi", What: what, Pos: ph.Pos(), Loops: append([]string(nil), r.e.loops...)})
	return t
}

func (r *loopRun) isPhi(t *Term) bool { _, ok := r.v0[t]; return ok }

func (r *loopRun) mentionsPhi(t *Term) bool {
	if !t.syms {
		return false
	}
	return t.contains(r.isPhi)
}

// fix runs the loop to a fixpoint; false means a cell had to be widened.
func (r *loopRun) fix(s *State) bool {
	e := r.e
	h := s.clone()
	for _, in := range r.lp.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r.phis = append(r.phis, ph)
		if !widenable(ph.Type()) {
			continue
		}
		v0 := h.env[ph]
		if v0 == nil {
			continue
		}
		t := r.phiSym(ph)
		r.wide[ph] = t
		r.v0[t] = v0
		h.env[ph] = t
	}
	// widened cells
	var was []*Term
	for a := range e.W[r.lid] {
		was = append(was, a)
	}
	sortTerms(was)
	for _, a := range was {
		typ := e.W[r.lid][a]
		t := mkSym(OSym, r.lid+":cell"+strconv.Itoa(a.id), typ, &SymInfo{Kind: "phi", What: strings.TrimPrefix(a.String(), "&"), Loops: append([]string(nil), e.loops...)})
		v0 := e.peek(h, a, typ)
		if v0 == nil {
			v0 = mkSym(OSym, r.lid+":cell0"+strconv.Itoa(a.id), typ, &SymInfo{Kind: "load", What: a.String()})
		}
		r.v0[t] = v0
		h.kill(a, nil)
		h.heap[a] = t
		h.dirty[a] = true
	}
	var fs []*Term
	for t := range r.v0 {
		fs = append(fs, t)
	}
	sortTerms(fs)
	if e.h.MoveTag != nil {
		for _, t := range fs {
			v := r.v0[t]
			for tg := range s.may {
				if tg.op == OTag && len(tg.args) > 0 && tg.args[0] == v && v.op != OConst && e.h.MoveTag(tg) {
					g := mkTag(tg.name, append([]*Term{t}, tg.args[1:]...)...)
					delete(h.may, tg)
					h.may[g] = true
					if h.must[tg] {
						delete(h.must, tg)
						h.must[g] = true
					}
				}
			}
		}
	}
	// invariants to try
	cand := func(t *Term) {
		// must hold on entry
		m := map[*Term]*Term{}
		for k, v := range r.v0 {
			m[k] = v
		}
		g := newSubst(m).apply(t)
		if v := s.truth(g); v != 0 {
			if v == -1 && t.op == OLe0 {
				t, v = mkNot(t), 1
			}
			h.facts[t] = v == 1
		}
	}
	for _, t := range fs {
		v := r.v0[t]
		if isInt(t.typ) {
			cand(mkLe(v, t))
			cand(mkLe(t, v))
			cand(mkLe(mkInt(0), t))
		}
		if isSlice(t.typ) || isString(t.typ) {
			cand(mkLe(mkLen(v), mkLen(t)))
			cand(mkLe(mkLen(t), mkLen(v)))
			if isSlice(t.typ) {
				cand(mkEq(t, mkNil()))
				if !trackContents(elemType(t.typ)) {
				} else if c := s.cont[v]; c != nil {
					h.cont[t] = c
				} else if isZeroLen(s, v) {
					h.cont[t] = &Contents{closed: true}
				} else {
					h.cont[t] = &Contents{closed: true, base: v}
				}
				for tg := range s.must {
					if tg.has(v) && v.op != OConst {
						h.must[newSubst(map[*Term]*Term{v: t}).apply(tg)] = true
					}
				}
			}
		}
		if isBool(t.typ) {
			cand(t)
		}
		for f, b := range s.facts {
			if v.op != OConst && f.has(v) {
				g := newSubst(map[*Term]*Term{v: t}).apply(f)
				if g.op != OConst {
					h.facts[g] = b
				}
			}
		}
		for _, u := range fs {
			if u == t {
				continue
			}
			size := func(x *Term) *Term {
				if isInt(x.typ) {
					return x
				}
				if isSlice(x.typ) || isString(x.typ) {
					return mkLen(x)
				}
				return nil
			}
			a, b := size(t), size(u)
			if a != nil && b != nil && t.id < u.id {
				a0, b0 := size(t), size(u)
				m := newSubst(r.v0)
				d := lin(linSub(m.apply(a0), m.apply(b0)))
				if len(d.atoms) == 0 {
					h.facts[mkEqInt(linSub(a, b), mkInt(d.c))] = true
				}
				cand(mkLe(a, b))
				cand(mkLe(b, a))
				if e.sums {
					cand(mkEqInt(linAdd(a, b), linAdd(m.apply(a0), m.apply(b0))))
				}
			}
		}
	}
	// the loop condition, relaxed by one step
	if iff, ok := lastInstr(r.lp.header).(*ssa.If); ok {
		c := r.headerCond(h, iff)
		if c != nil {
			for _, x := range []*Term{c, mkNot(c)} {
				if x.op == OLe0 {
					l := lin(x.args[0])
					l.c--
					cand(mkLe0(l.term()))
				}
			}
		}
	}
	// bounds stated in entry facts for lengths the phis are compared with
	for a, v := range r.pi {
		h.heap[a] = v
	}
	for t := range r.piTags {
		h.must[t] = true
		h.may[t] = true
	}
	h.gc(r.live)
	for a, v := range r.pi {
		h.heap[a] = v
	}
	h.bind = map[*Term]*Term{}
	r.addHead(h)
	dirtyQ := []int{0}
	n := 0
	for len(dirtyQ) > 0 {
		n++
		if n > 120 {
			if e.debug {
				for hi, h := range r.heads {
					println("HEAD", hi)
					for _, v := range r.live {
						println("   env", v.Name(), h.env[v].String())
					}
					for a, v := range h.heap {
						println("   cell", a.String(), "=", v.String())
					}
					for f, v := range h.facts {
						println("   fact", f.String(), v)
					}
					for t, c := range h.cont {
						println("   cont", t.String(), len(c.elems), c.base.String())
					}
					println("   dirty", len(h.dirty), "may", len(h.may))
					for a := range h.dirty {
						println("   dirty", a.String())
					}
				}
			}
			e.over = "loop fixpoint too long in " + r.fr.fn.String()
			return true
		}
		i := dirtyQ[0]
		dirtyQ = dirtyQ[1:]
		mark := len(e.reports)
		fl := e.region(r.fr, r.lp, nil, map[*ssa.BasicBlock][]*State{r.lp.header: {r.heads[i].clone()}})
		if e.over != "" {
			return true
		}
		r.reports[i] = append([]Report(nil), e.reports[mark:]...)
		e.reports = e.reports[:mark]
		r.exits[i] = fl.exits
		r.backs[i] = nil
		widened := false
		for _, b := range fl.back {
			if e.h.Back != nil {
				e.h.Back(e, b)
			}
			r.backs[i] = append(r.backs[i], b.clone())
			if r.detectWiden(r.heads[i], b) {
				widened = true
				continue
			}
		}
		if widened {
			return false
		}
		for _, b := range fl.back {
			m := r.mapBack(b)
			k := m.coreKey(r.live, r.inW)
			if j, ok := r.keys[k]; ok {
				if r.heads[j].joinInto(m, true) {
					in := false
					for _, q := range dirtyQ {
						if q == j {
							in = true
						}
					}
					if !in {
						dirtyQ = append(dirtyQ, j)
					}
				}
				continue
			}
			if len(r.heads) >= maxHeads {
				if r.widenAll(m) {
					return false
				}
				// join into the first state, forgetting what differs
				h0 := r.heads[0]
				ch := false
				for a, v := range h0.heap {
					if m.heap[a] != v {
						delete(h0.heap, a)
						h0.dirty[a] = true
						ch = true
					}
				}
				for _, v := range r.live {
					if h0.env[v] != m.env[v] {
						t := mkSym(OSym, r.lid+":top:"+v.Name(), v.Type(), &SymInfo{Kind: "phi", What: v.Name(), Loops: append([]string(nil), e.loops...)})
						if h0.env[v] != t {
							h0.env[v] = t
							ch = true
						}
					}
				}
				e.lossy++
				if h0.joinInto(m, true) || ch {
					dirtyQ = append(dirtyQ, 0)
				}
				continue
			}
			j := r.addHead(m)
			dirtyQ = append(dirtyQ, j)
		}
	}
	return true
}

func (r *loopRun) inW(a *Term) bool { _, ok := r.e.W[r.lid][a]; return ok }

func (r *loopRun) addHead(h *State) int {
	r.heads = append(r.heads, h)
	r.exits = append(r.exits, nil)
	r.reports = append(r.reports, nil)
	r.backs = append(r.backs, nil)
	r.keys[h.coreKey(r.live, r.inW)] = len(r.heads) - 1
	return len(r.heads) - 1
}

func lastInstr(b *ssa.BasicBlock) ssa.Instruction {
	if len(b.Instrs) == 0 {
		return nil
	}
	return b.Instrs[len(b.Instrs)-1]
}

// headerCond evaluates the loop condition when the header is straight-line
// arithmetic over known values.
func (r *loopRun) headerCond(h *State, iff *ssa.If) *Term {
	env := map[ssa.Value]*Term{}
	var ev func(v ssa.Value, d int) *Term
	ev = func(v ssa.Value, d int) *Term {
		if t, ok := env[v]; ok {
			return t
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() == r.lp.header {
			if _, isPhi := v.(*ssa.Phi); !isPhi && d > 0 {
				switch x := v.(type) {
				case *ssa.BinOp:
					a, b := ev(x.X, d-1), ev(x.Y, d-1)
					if a == nil || b == nil {
						return nil
					}
					return r.e.binop(x.Op, a, b, x.Type(), x.X.Type())
				case *ssa.UnOp:
					if x.Op.String() == "*" {
						a := ev(x.X, d-1)
						if a == nil {
							return nil
						}
						return r.e.peek(h, a, x.Type())
					}
				case *ssa.FieldAddr:
					a := ev(x.X, d-1)
					if a == nil {
						return nil
					}
					return mkField(a, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						a := ev(x.Call.Args[0], d-1)
						if a == nil {
							return nil
						}
						return mkLen(a)
					}
				}
				return nil
			}
		}
		return r.e.val(h, v)
	}
	return ev(iff.Cond, 6)
}

// detectWiden finds cells whose value changes from one iteration to the next.
func (r *loopRun) detectWiden(h, b *State) bool {
	e := r.e
	found := false
	add := func(a *Term, typ types.Type) {
		if e.W[r.lid] == nil {
			e.W[r.lid] = map[*Term]types.Type{}
		}
		if _, ok := e.W[r.lid][a]; !ok {
			e.W[r.lid][a] = typ
			found = true
		}
	}
	for a, v := range b.heap {
		if r.inW(a) {
			continue
		}
		typ := pointee(a)
		if typ == nil || !widenable(typ) || r.loopTerm(a) || hasAged(a) {
			continue
		}
		if a.contains(func(t *Term) bool { return t.op == OAll }) {
			continue
		}
		if rootDies(r, a) {
			continue
		}
		hv := h.heap[a]
		if hv == nil {
			hv = e.peek(h, a, typ)
		}
		if hv != v {
			if hv == nil && !r.loopTerm(v) {
				continue // becomes known; finite
			}
			if hv != nil && hv.op == OConst && v.op == OConst && isString(typ) {
				continue
			}
			add(a, typ)
		}
	}
	return found
}

func rootDies(r *loopRun, a *Term) bool { return false }

// widenAll gives up the disjunction over cells that differ between header states.
func (r *loopRun) widenAll(m *State) bool {
	e := r.e
	ch := false
	for _, h := range append([]*State{m}, r.heads[1:]...) {
		for a, v := range h.heap {
			if r.inW(a) || r.loopTerm(a) || hasAged(a) || a.contains(func(t *Term) bool { return t.op == OAll }) {
				continue
			}
			hv := r.heads[0].heap[a]
			if hv != v {
				if e.W[r.lid] == nil {
					e.W[r.lid] = map[*Term]types.Type{}
				}
				if pointee(a) != nil {
					e.W[r.lid][a] = pointee(a)
					ch = true
				}
			}
		}
	}
	return ch
}

// loopTerm: t mentions a symbol created inside this loop.
func (r *loopRun) loopTerm(t *Term) bool {
	if !t.syms {
		return false
	}
	return t.contains(func(x *Term) bool { return r.loopSym(x) })
}

func (r *loopRun) loopSym(x *Term) bool {
	if x.op != OSym && x.op != OAlloc && x.op != OMake {
		return false
	}
	i := x.info()
	if i == nil {
		return false
	}
	for _, l := range i.Loops {
		if l == r.lid {
			return true
		}
	}
	return false
}

func (r *loopRun) isAgedHere(x *Term) bool {
	i := strings.IndexByte(x.name, '^')
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(x.name[i+1:], "^") {
		if l == r.lid {
			return true
		}
	}
	return false
}

func ageTerm(x *Term, lid string, sub *subst) *Term {
	args := make([]*Term, len(x.args))
	for i, a := range x.args {
		args[i] = sub.apply(a)
	}
	n := intern(x.op, x.name+"^"+lid, x.typ, args...)
	if n.obj == nil {
		if i := x.info(); i != nil {
			c := *i
			n.obj = &c
		}
	}
	return n
}

// mapBack turns a back-edge state into a header state: phis take their new
// values, and everything made in this iteration becomes "from an earlier one".
func (r *loopRun) mapBack(b *State) *State {
	// values the phis and widened cells get
	nv := map[*Term]*Term{}
	for ph, t := range r.wide {
		nv[t] = b.env[ph]
	}
	for t := range r.v0 {
		if _, ok := nv[t]; ok {
			continue
		}
	}
	var was []*Term
	for a := range r.e.W[r.lid] {
		was = append(was, a)
	}
	sortTerms(was)
	cellSym := map[*Term]*Term{}
	for _, a := range was {
		t := mkSym(OSym, r.lid+":cell"+strconv.Itoa(a.id), r.e.W[r.lid][a], nil)
		v := r.e.peek(b, a, r.e.W[r.lid][a])
		if v == nil {
			v = mkSym(OSym, r.lid+":cellx"+strconv.Itoa(a.id), r.e.W[r.lid][a], &SymInfo{Kind: "load", What: a.String(), Loops: append([]string(nil), r.e.loops...)})
		}
		nv[t] = v
		cellSym[a] = t
	}
	sg := newSubst(nv)
	keep := map[*Term]bool{}
	keepTags := map[*Term]bool{}
	for _, h := range r.heads {
		for f, v := range h.facts {
			if !r.mentionsPhi(f) {
				continue
			}
			g := sg.apply(f)
			t := b.truth(g)
			if t == 1 && v || t == -1 && !v {
				keep[f] = v
			}
		}
		for t := range h.must {
			if r.mentionsPhi(t) {
				if b.must[sg.apply(t)] {
					keepTags[t] = true
				}
			}
		}
	}
	// contents of slice phis
	newCont := map[*Term]*Contents{}
	for t, v := range nv {
		if t == v {
			if c := b.cont[t]; c != nil {
				newCont[t] = c
			}
			continue
		}
		if isSlice(t.typ) && trackContents(elemType(t.typ)) {
			if c := b.cont[v]; c != nil {
				newCont[t] = c
			} else if isZeroLen(b, v) {
				newCont[t] = &Contents{closed: true}
			} else {
				newCont[t] = &Contents{closed: true, base: v}
			}
		}
	}
	s := b.clone()
	// assign
	for ph, t := range r.wide {
		s.env[ph] = t
	}
	for a, t := range cellSym {
		for c := range s.heap {
			if c != a && under(c, a) {
				delete(s.heap, c)
			}
		}
		s.heap[a] = t
		s.dirty[a] = true
	}
	// rename
	present := map[*Term]bool{}
	note := func(t *Term) {
		if t != nil {
			leafSyms(t, func(x *Term) { present[x] = true })
		}
	}
	for _, v := range r.live {
		if t, ok := s.env[v]; ok {
			if ph, isPhi := v.(*ssa.Phi); isPhi && r.wide[ph] == t {
				continue
			}
			note(t)
		}
	}
	for a, v := range s.heap {
		note(a)
		if cellSym[a] != v || v == nil {
			note(v)
		}
	}
	for t, c := range s.cont {
		note(t)
		for _, x := range c.elems {
			note(x)
		}
		note(c.base)
	}
	for _, c := range newCont {
		for _, x := range c.elems {
			note(x)
		}
		note(c.base)
	}
	for _, d := range s.defers {
		note(d.fn)
		for _, a := range d.args {
			note(a)
		}
	}
	for t := range s.may {
		note(t)
	}
	for t := range s.dirty {
		note(t)
	}
	for t := range s.facts {
		note(t)
	}
	var syms []*Term
	for x := range present {
		if r.loopSym(x) && !r.isAgedHere(x) {
			syms = append(syms, x)
		}
	}
	sortTerms(syms)
	m := map[*Term]*Term{}
	sub := newSubst(m)
	for _, x := range syms { // ids grow with dependency
		m[x] = ageTerm(x, r.lid, sub)
	}
	sub = newSubst(m)
	inv := map[*Term]*Term{}
	collide := map[*Term]bool{} // aged symbols that already stood for something
	for x, y := range m {
		inv[y] = x
		if present[y] {
			collide[y] = true
		}
	}
	invS := newSubst(inv)
	touches := func(t *Term, set map[*Term]bool) bool {
		if len(set) == 0 {
			return false
		}
		return t.contains(func(x *Term) bool { return set[x] })
	}
	// phi symbols written back keep their own name
	phiVal := func(t *Term) bool { return r.isPhi(t) }
	ren := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return sub.apply(t)
	}
	n := &State{up: s.up, path: s.path, env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, dirty: map[*Term]bool{},
		facts: map[*Term]bool{}, must: map[*Term]bool{}, may: map[*Term]bool{}, cont: map[*Term]*Contents{}, esc: map[*Term]bool{}, bind: map[*Term]*Term{}}
	for v, t := range s.env {
		if ph, ok := v.(*ssa.Phi); ok && r.wide[ph] != nil && r.wide[ph] == t {
			n.env[v] = t
			continue
		}
		n.env[v] = ren(t)
	}
	for a, v := range s.heap {
		if cellSym[a] != nil && v == cellSym[a] {
			n.heap[a] = v
			continue
		}
		a2, v2 := ren(a), ren(v)
		if touches(a2, collide) {
			// the address already stood for an object of an earlier iteration
			if a2 == a {
				// old cell: this iteration's object must agree
				x := invS.apply(a)
				nvv, ok := s.heap[x]
				if !ok {
					nvv = r.e.peek(s, x, pointee(a))
				}
				if nvv == nil || ren(nvv) != v2 {
					n.dirty[a2] = true
					continue
				}
			} else {
				ov, ok := s.heap[a2]
				if !ok {
					ov = r.e.peek(s, a2, pointee(a2))
				}
				if ov == nil || ren(ov) != v2 {
					n.dirty[a2] = true
					continue
				}
			}
		}
		if o, ok := n.heap[a2]; ok && o != v2 {
			delete(n.heap, a2)
			n.dirty[a2] = true
			continue
		}
		n.heap[a2] = v2
	}
	for d := range s.dirty {
		n.dirty[ren(d)] = true
	}
	for d := range s.esc {
		n.esc[ren(d)] = true
	}
	for f, v := range s.facts {
		if f.contains(phiVal) && r.mentionsPhi(f) {
			if f.op == OLe0 || f.op == OEq0 {
				continue
			}
		}
		f2 := ren(f)
		if touches(f2, collide) {
			if f2 == f {
				if g, ok := s.facts[invS.apply(f)]; !ok || g != v {
					continue
				}
			} else if g, ok := s.facts[f2]; !ok || g != v {
				continue
			}
		}
		if f2.op == OConst {
			continue
		}
		n.facts[f2] = v
	}
	for t := range s.must {
		t2 := ren(t)
		if touches(t2, collide) {
			if t2 == t {
				if !s.must[invS.apply(t)] {
					continue
				}
			} else if !s.must[t2] {
				continue
			}
		}
		n.must[t2] = true
	}
	for t := range s.may {
		if r.e.h.MoveTag != nil && t.op == OTag && len(t.args) > 0 && r.e.h.MoveTag(t) {
			moved := false
			for ph, v := range nv {
				if v == t.args[0] {
					a := append([]*Term{ph}, t.args[1:]...)
					for i := range a[1:] {
						a[i+1] = ren(a[i+1])
					}
					n.may[mkTag(t.name, a...)] = true
					moved = true
				}
			}
			if moved {
				continue
			}
		}
		n.may[ren(t)] = true
	}
	renC := func(c *Contents) *Contents {
		x := &Contents{closed: c.closed, base: ren(c.base)}
		for _, el := range c.elems {
			x.elems = append(x.elems, ren(el))
		}
		x.elems = uniq(x.elems)
		sortTerms(x.elems)
		return x
	}
	for t, c := range s.cont {
		t2, c2 := ren(t), renC(c)
		if o := n.cont[t2]; o != nil {
			c2 = unionCont(o, c2)
		}
		n.cont[t2] = c2
	}
	for t, c := range newCont {
		c2 := renC(c)
		// the phi itself as a base adds nothing
		ph := ren(t)
		for c2.base == ph || c2.base == t {
			if pc := n.cont[ph]; pc != nil && pc.base != ph {
				c2 = unionCont(&Contents{elems: c2.elems, closed: c2.closed, base: pc.base}, &Contents{elems: pc.elems, closed: pc.closed})
			} else {
				c2 = &Contents{elems: c2.elems, closed: c2.closed}
			}
		}
		n.cont[t] = c2
	}
	for _, d := range s.defers {
		x := deferred{site: d.site, fn: ren(d.fn)}
		for _, a := range d.args {
			x.args = append(x.args, ren(a))
		}
		n.defers = append(n.defers, x)
	}
	for f, v := range keep {
		n.facts[f] = v
	}
	for t := range keepTags {
		n.must[t] = true
		n.may[t] = true
	}
	// assumed cells for visited indices are checked separately
	for a, v := range r.pi {
		n.heap[a] = v
	}
	// tags for visited indices: they must hold for this one and the former ones
	for t, now := range r.piTags {
		if b.must[t] && b.must[now] {
			n.must[t] = true
		} else {
			delete(n.must, t)
		}
		n.may[t] = true
	}
	n.gc(r.live)
	for a, v := range r.pi {
		n.heap[a] = v
	}
	return n
}

func unionCont(a, b *Contents) *Contents {
	x := &Contents{closed: a.closed && b.closed, base: a.base}
	if x.base == nil {
		x.base = b.base
	}
	x.elems = uniq(append(append([]*Term(nil), a.elems...), b.elems...))
	sortTerms(x.elems)
	return x
}

type indexUse struct {
	phi  *Term
	k    int64
	step int64
}

// counters lists the phis that step by one.
func (r *loopRun) counters() []indexUse {
	var res []indexUse
	for ph, t := range r.wide {
		if !isInt(t.typ) {
			continue
		}
		step := int64(0)
		ok := true
		for _, bs := range r.backs {
			for _, b := range bs {
				v := b.env[ph]
				if v == nil {
					ok = false
					continue
				}
				d := lin(linSub(v, t))
				if len(d.atoms) != 0 || d.c != 1 && d.c != -1 || step != 0 && step != d.c {
					ok = false
					continue
				}
				step = d.c
			}
		}
		if ok && step != 0 {
			res = append(res, indexUse{t, 0, step})
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].phi.id < res[j].phi.id })
	return res
}

func (r *loopRun) all(u indexUse) *Term {
	t := mkAll(r.lid + "/" + strconv.Itoa(u.phi.id) + "/" + strconv.FormatInt(u.k, 10))
	if t.obj == nil {
		t.obj = &allRef{u.phi, u.k, u.step}
	}
	return t
}

// established: cells and must-tags that every iteration leaves behind for the
// element it visited, with the index generalised.
// established: the cells every iteration, and the tags some iteration, leaves
// for the current index.
func (r *loopRun) established() (map[*Term]*Term, map[*Term]*Term) {
	cells, tags := map[*Term]*Term{}, map[*Term]*Term{}
	var backs []*State
	for _, bs := range r.backs {
		backs = append(backs, bs...)
	}
	if len(backs) == 0 {
		return cells, tags
	}
	for _, c := range r.counters() {
		ks := map[int64]bool{}
		for a := range backs[0].heap {
			collectK(a, c.phi, ks)
		}
		for t := range backs[0].must {
			collectK(t, c.phi, ks)
		}
		for k := range ks {
			u := indexUse{c.phi, k, c.step}
			pi := r.all(u)
			// phi = pi - k
			sub := newSubst(map[*Term]*Term{c.phi: linSub(pi, mkInt(k))})
			first := true
			var cs map[*Term]*Term
			ts := map[*Term]*Term{}
			for _, b := range backs {
				bc := map[*Term]*Term{}
				for a, v := range b.heap {
					if !usesIndex(a, c.phi, k) {
						continue
					}
					a2, v2 := sub.apply(a), sub.apply(v)
					if r.loopTerm(a2) || r.loopTerm(v2) || hasAged(a2) || hasAged(v2) {
						continue
					}
					bc[a2] = v2
				}
				for t := range b.must {
					if !usesIndex(t, c.phi, k) {
						continue
					}
					t2 := sub.apply(t)
					if r.loopTerm(t2) || hasAged(t2) {
						continue
					}
					ts[t2] = t
				}
				if first {
					cs, first = bc, false
					continue
				}
				for a, v := range cs {
					if bc[a] != v {
						delete(cs, a)
					}
				}
			}
			for a, v := range cs {
				cells[a] = v
			}
			for t, now := range ts {
				tags[t] = now
			}
		}
	}
	return cells, tags
}

func collectK(t, phi *Term, ks map[int64]bool) {
	if !t.syms {
		return
	}
	t.walk(func(x *Term) {
		if x.op == OIndex {
			d := lin(linSub(x.args[1], phi))
			if len(d.atoms) == 0 {
				ks[d.c] = true
			}
		}
	})
}

func usesIndex(t, phi *Term, k int64) bool {
	if !t.syms {
		return false
	}
	return t.contains(func(x *Term) bool {
		if x.op != OIndex {
			return false
		}
		d := lin(linSub(x.args[1], phi))
		return len(d.atoms) == 0 && d.c == k
	})
}

// finish collects the exits of the stable run.
func (r *loopRun) finish(pre []Report, mark int) flow {
	e := r.e
	e.reports = append(e.reports[:0:0], pre...)
	for _, rs := range r.reports {
		e.reports = append(e.reports, rs...)
	}
	var fl flow
	for i := range r.heads {
		var ts []*ssa.BasicBlock
		for t := range r.exits[i] {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(a, b int) bool { return ts[a].Index < ts[b].Index })
		for _, t := range ts {
			for _, s := range r.exits[i][t] {
				r.atExit(s)
				fl.exit(t, s)
			}
		}
	}
	return fl
}

func (r *loopRun) atExit(s *State) {
	full := s.last == r.lp.header
	mine := func(x *Term) bool { return x.op == OAll && strings.HasPrefix(x.name, r.lid+"/") }
	covered := func(t *Term) bool {
		ok := full
		t.walk(func(x *Term) {
			if x.op == OIndex && mine(x.args[1]) {
				if !r.covers(s, x.args[0], x.args[1].obj.(*allRef)) {
					ok = false
				}
			}
		})
		return ok
	}
	gen := func(t *Term) *Term {
		m := map[*Term]*Term{}
		t.walk(func(x *Term) {
			if mine(x) {
				m[x] = mkAll("")
			}
		})
		if len(m) == 0 {
			return t
		}
		return newSubst(m).apply(t)
	}
	for a, v := range s.heap {
		if !a.contains(mine) {
			continue
		}
		delete(s.heap, a)
		if covered(a) && covered(v) {
			s.heap[gen(a)] = gen(v)
		}
	}
	for t := range s.must {
		if !t.contains(mine) {
			continue
		}
		delete(s.must, t)
		if covered(t) {
			s.must[gen(t)] = true
			s.may[gen(t)] = true
		}
	}
	for t := range s.may {
		if t.contains(mine) {
			delete(s.may, t)
			s.may[gen(t)] = true
		}
	}
	for f := range s.facts {
		if f.contains(mine) {
			delete(s.facts, f)
		}
	}
	for d := range s.dirty {
		if d.contains(mine) {
			delete(s.dirty, d)
			s.dirty[gen(d)] = true
		}
	}
	if full {
		r.groupTags(s)
	}
	s.bind = map[*Term]*Term{}
}

// covers: the loop has visited every index of base when it leaves by its
// condition.
func (r *loopRun) covers(s *State, base *Term, a *allRef) bool {
	if isPtr(base.typ) {
		// an index that was recorded with the address of the list
		if _, ok := pointee(base).Underlying().(*types.Slice); ok {
			v := s.heap[base]
			if v == nil {
				return false
			}
			base = v
		}
	}
	n := mkLen(base)
	v0 := r.v0[a.phi]
	if v0 == nil {
		return false
	}
	start := linAdd(v0, mkInt(a.k))
	end := linAdd(a.phi, mkInt(a.k))
	if a.step == 1 {
		return r.entry.truth(mkEqInt(start, mkInt(0))) == 1 && s.truth(mkLe(n, end)) == 1
	}
	return r.entry.truth(mkLe(linSub(n, mkInt(1)), start)) == 1 && s.truth(mkLe(end, mkInt(-1))) == 1
}

// groupTags: when a full pass over a sequence with known must-contents has
// treated every element that is content c in the same way, that treatment
// holds for c itself.
func (r *loopRun) groupTags(s *State) {
	type group struct {
		tags  map[*Term]bool
		cells map[*Term]*Term
	}
	groups := map[*Term]*group{} // content -> common results
	bases := map[*Term]*Term{}
	for _, bs := range r.backs {
		for _, b := range bs {
			looked := map[*Term]*Term{} // element -> content
			for ix, c := range b.bind {
				looked[ix] = c
			}
			for a, v := range b.heap {
				if a.op == OIndex && v.op != OConst && r.entry.must[mkTag("has", a.args[0], v)] {
					looked[a] = v
				}
			}
			for ix, c := range looked {
				if !r.mentionsPhi(ix.args[1]) {
					continue
				}
				var ref *allRef
				for _, u := range r.counters() {
					d := lin(linSub(ix.args[1], u.phi))
					if len(d.atoms) == 0 {
						ref = &allRef{u.phi, d.c, u.step}
					}
				}
				if ref == nil || !r.covers(s, ix.args[0], ref) {
					continue
				}
				g := groups[c]
				bases[c] = ix.args[0]
				if g == nil {
					g = &group{map[*Term]bool{}, map[*Term]*Term{}}
					for t := range b.must {
						if !r.loopTerm(t) && !r.entry.must[t] {
							g.tags[t] = true
						}
					}
					for a, v := range b.heap {
						if !r.loopTerm(a) && !r.loopTerm(v) {
							g.cells[a] = v
						}
					}
					groups[c] = g
					continue
				}
				for t := range g.tags {
					if !b.must[t] {
						delete(g.tags, t)
					}
				}
				for a, v := range g.cells {
					if b.heap[a] != v {
						delete(g.cells, a)
					}
				}
			}
		}
	}
	// sequences whose elements some iteration does not look at
	partial := map[*Term]bool{}
	for _, bs := range r.backs {
		for _, b := range bs {
			for _, base := range bases {
				ok := false
				for ix := range b.bind {
					ok = ok || ix.args[0] == base && r.mentionsPhi(ix.args[1])
				}
				for a, v := range b.heap {
					ok = ok || a.op == OIndex && a.args[0] == base && r.mentionsPhi(a.args[1]) && v.op != OConst
				}
				if !ok {
					partial[base] = true
				}
			}
		}
	}
	for c, g := range groups {
		if partial[bases[c]] || !r.entry.must[mkTag("has", bases[c], c)] {
			continue
		}
		for t := range g.tags {
			// only events about that content
			related := false
			c.walk(func(x *Term) {
				if (x.op == OSym || x.op == OAlloc || x.op == OInit || x.op == OField) && t.has(x) {
					related = true
				}
			})
			if related {
				s.tag(t)
			}
		}
	}
}
