package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contents describes what is known about the elements of a slice that the
// analysed code built itself.
type Contents struct {
	elems  []*Term // possible elements (complete when base == nil)
	base   *Term   // slice whose elements are also in here (append base), or nil
	closed bool
}

type deferred struct {
	site ssa.CallInstruction
	fn   *Term
	args []*Term
}

type pathStep struct {
	prev *pathStep
	pos  token.Pos
	what string
	n    int
}

// upLink keeps the terms of the calling frames alive while a callee runs.
type upLink struct {
	prev  *upLink
	terms map[*Term]bool
}

// State is one abstract state: an environment for the current frame, a heap of
// known cells, facts that hold, and the events seen on the way here.
type State struct {
	env    map[ssa.Value]*Term
	up     *upLink
	heap   map[*Term]*Term
	dirty  map[*Term]bool
	facts  map[*Term]bool
	must   map[*Term]bool
	may    map[*Term]bool
	cont   map[*Term]*Contents
	esc    map[*Term]bool
	defers []deferred
	path   *pathStep
	bind   map[*Term]*Term // element choices made in the current iteration: address -> chosen content
	last   *ssa.BasicBlock // block the state was in when it last took an edge
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, dirty: map[*Term]bool{},
		facts: map[*Term]bool{}, must: map[*Term]bool{}, may: map[*Term]bool{},
		cont: map[*Term]*Contents{}, esc: map[*Term]bool{}, bind: map[*Term]*Term{}}
}

func cloneB(m map[*Term]bool) map[*Term]bool {
	n := make(map[*Term]bool, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) clone() *State {
	n := &State{up: s.up, path: s.path, last: s.last}
	n.env = make(map[ssa.Value]*Term, len(s.env)+4)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.heap = make(map[*Term]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.dirty = cloneB(s.dirty)
	n.facts = cloneB(s.facts)
	n.must = cloneB(s.must)
	n.may = cloneB(s.may)
	n.esc = cloneB(s.esc)
	n.cont = make(map[*Term]*Contents, len(s.cont))
	for k, v := range s.cont {
		n.cont[k] = v
	}
	n.bind = make(map[*Term]*Term, len(s.bind))
	for k, v := range s.bind {
		n.bind[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	return n
}

func (s *State) tag(t *Term)         { s.must[t] = true; s.may[t] = true }
func (s *State) hasTag(t *Term) bool { return s.must[t] }
func (s *State) mayTag(t *Term) bool { return s.may[t] }
func (s *State) step(pos token.Pos, what string) {
	n := 1
	if s.path != nil {
		n = s.path.n + 1
	}
	s.path = &pathStep{s.path, pos, what, n}
}

// ---- facts ----

// assume records that the boolean term t has value v; it reports false when
// that contradicts what is known.
func (s *State) assume(t *Term, v bool) bool {
	if t.op == ONot {
		return s.assume(t.args[0], !v)
	}
	switch k := s.truth(t); k {
	case 1:
		return v
	case -1:
		return !v
	}
	if t.op == OLe0 && !v {
		return s.assume(mkNot(t), true)
	}
	s.facts[t] = v
	if t.op == OEq0 && !v {
		// d != 0 together with d <= 0 (or >= 0) tightens the bound
		d := t.args[0]
		l := lin(d)
		m := l.scale(-1)
		if s.proveLe0(l, 4) {
			l.c++
			s.facts[mkLe0(l.term())] = true
		} else if s.proveLe0(m, 4) {
			m.c++
			s.facts[mkLe0(m.term())] = true
		}
	}
	if t.op == OEq && v {
		// equal strings and slices have equal lengths
		a, b := t.args[0], t.args[1]
		if isString(a.typ) || isString(b.typ) {
			s.facts[mkEqInt(mkLen(a), mkLen(b))] = true
		}
	}
	if t.op == OEq0 && v {
		// nothing more: proveLe0 uses equalities directly
	}
	if t.op == OEq && v {
		a, b := t.args[0], t.args[1]
		if a.isNil() {
			a, b = b, a
		}
		if b.isNil() && isSlice(a.typ) {
			s.facts[mkEqInt(mkLen(a), mkInt(0))] = true
		}
	}
	return true
}

// truth: 1 true, -1 false, 0 unknown.
func (s *State) truth(t *Term) int {
	b2i := func(b bool) int {
		if b {
			return 1
		}
		return -1
	}
	if b, ok := t.boolVal(); ok {
		return b2i(b)
	}
	if t.op == ONot {
		return -s.truth(t.args[0])
	}
	if v, ok := s.facts[t]; ok {
		return b2i(v)
	}
	switch t.op {
	case OLe0:
		l := lin(t.args[0])
		if s.proveLe0(l, 4) {
			return 1
		}
		m := l.scale(-1)
		m.c++
		if s.proveLe0(m, 4) {
			return -1
		}
	case OEq0:
		l := lin(t.args[0])
		a := l
		a.c++ // l+1 <= 0 : l < 0
		if s.proveLe0(a, 4) {
			return -1
		}
		m := l.scale(-1)
		mm := m
		mm.c++
		if s.proveLe0(mm, 4) {
			return -1
		}
		if s.proveLe0(l, 4) && s.proveLe0(m, 4) {
			return 1
		}
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.isNil() {
			a, b = b, a
		}
		if b.isNil() {
			if a.nonNil() {
				return -1
			}
			if isSlice(a.typ) {
				if s.truth(mkLe(mkInt(1), mkLen(a))) == 1 {
					return -1
				}
			}
		}
		// transitivity through constants: x==c1 known, asked x==c2
		if b.op == OConst || a.op == OConst {
			x, c := a, b
			if x.op == OConst {
				x, c = b, a
			}
			if !c.isNil() {
				for f, v := range s.facts {
					if v && f.op == OEq {
						o := f.args[0]
						p := f.args[1]
						if o.op == OConst {
							o, p = p, o
						}
						if o == x && p.op == OConst && !p.isNil() && p != c {
							return -1
						}
					}
				}
			}
		}
	}
	return 0
}

// proveLe0 tries to derive l <= 0 from the linear facts by adding multiples of
// known inequalities.
func (s *State) proveLe0(l linear, depth int) bool {
	if len(l.atoms) == 0 {
		return l.c <= 0
	}
	var facts []linear
	for f, v := range s.facts {
		if !v {
			continue
		}
		switch f.op {
		case OLe0:
			facts = append(facts, lin(f.args[0]))
		case OEq0:
			m := lin(f.args[0])
			facts = append(facts, m, m.scale(-1))
		}
	}
	sort.Slice(facts, func(i, j int) bool { return facts[i].term().id < facts[j].term().id })
	n := 0
	if proveRec(l, facts, depth, &n) {
		return true
	}
	l2, facts2, ok := eliminate(l, facts)
	if !ok {
		return false
	}
	n = 0
	return proveRec(l2, facts2, depth, &n)
}

// eliminate solves the equalities among the facts (given in both directions,
// one after the other) for one term each.
func eliminate(l linear, facts []linear) (linear, []linear, bool) {
	byTerm := map[*Term]bool{}
	for _, f := range facts {
		byTerm[f.term()] = true
	}
	var eqs, rest []linear
	for _, f := range facts {
		m := f.scale(-1)
		if byTerm[m.term()] {
			eqs = append(eqs, f)
		} else {
			rest = append(rest, f)
		}
	}
	if len(eqs) < 2 {
		return l, nil, false
	}
	for i := 0; i < len(eqs); i++ {
		f := eqs[i]
		var pick *Term
		for a, k := range f.atoms {
			if k != 1 && k != -1 {
				continue
			}
			if pick == nil || nonNegAtom(pick) && !nonNegAtom(a) || nonNegAtom(pick) == nonNegAtom(a) && a.id > pick.id {
				pick = a
			}
		}
		if pick == nil {
			continue
		}
		k := f.atoms[pick]
		use := func(x linear) linear {
			if c := x.atoms[pick]; c != 0 {
				return x.add(f, -c*k)
			}
			return x
		}
		if nonNegAtom(pick) {
			rest = append(rest, use(lin(pick).scale(-1)))
		}
		if l.atoms[pick] != 0 {
			l = use(l)
		}
		for j := i + 1; j < len(eqs); j++ {
			eqs[j] = use(eqs[j])
		}
		for j := range rest {
			rest[j] = use(rest[j])
		}
	}
	out := rest[:0]
	seen := map[*Term]bool{}
	for _, f := range rest {
		if t := f.term(); len(f.atoms) > 0 && !seen[t] {
			seen[t] = true
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].term().id < out[j].term().id })
	return l, out, true
}

func proveRec(l linear, facts []linear, depth int, n *int) bool {
	*n++
	if *n > 400 {
		return false
	}
	ok := true
	for a, k := range l.atoms {
		// drop non-negative atoms with negative sign, they only help
		if k < 0 && nonNegAtom(a) {
			continue
		}
		ok = false
		break
	}
	if ok && l.c <= 0 {
		return true
	}
	if depth == 0 || len(l.atoms) == 0 {
		return false
	}
	// pick an atom that must be cancelled
	var as []*Term
	for a, k := range l.atoms {
		if ok || !(k < 0 && nonNegAtom(a)) {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	a := as[0]
	k := l.atoms[a]
	for _, f := range facts {
		fk := f.atoms[a]
		if fk == 0 || (fk > 0) != (k > 0) {
			continue
		}
		if k%fk != 0 {
			continue
		}
		if proveRec(l.add(f, -(k/fk)), facts, depth-1, n) {
			return true
		}
	}
	return false
}

func nonNegAtom(a *Term) bool {
	switch a.op {
	case OLen, OCap:
		return true
	case OAll:
		return true
	}
	if a.typ != nil {
		if b, ok := a.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	if a.op == OCall && (strings.HasSuffix(a.name, ".Count") || strings.Contains(a.name, "RuneCount") || strings.Contains(a.name, "rand.Intn")) {
		return true
	}
	return false
}

// ---- aliasing ----

// rootOf strips field and constant-address steps: the object an address is in.
func rootOf(a *Term) *Term {
	for {
		switch a.op {
		case OField, OIndex:
			a = a.args[0]
		case OSlice:
			a = a.args[0]
		default:
			return a
		}
	}
}

func pointee(t *Term) types.Type {
	if t.typ == nil {
		return nil
	}
	if p, ok := t.typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (s *State) fresh(t *Term) bool { return t.op == OAlloc || t.op == OMake }

// objMayAlias: may two root objects (pointer or slice values) be the same memory?
func (s *State) objMayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if s.fresh(a) && s.fresh(b) {
		return false
	}
	if a.op == OGlobal && b.op == OGlobal {
		return false
	}
	if s.fresh(b) {
		a, b = b, a
	}
	if s.fresh(a) {
		// a fresh object against something that is not fresh
		switch b.op {
		case OInit, OGlobal:
			return false
		case OSym:
			if i := b.info(); i != nil {
				switch i.Kind {
				case "param":
					return false
				case "append", "phi":
					if c := s.cont[b]; c != nil {
						_ = c
					}
					return i.Kind == "phi" || s.appendRoots(b)[a]
				}
			}
			return s.esc[a]
		}
		return s.esc[a]
	}
	return true
}

// appendRoots: objects the backing array of an append result may be.
func (s *State) appendRoots(t *Term) map[*Term]bool {
	r := map[*Term]bool{}
	for n := 0; n < 8; n++ {
		r[rootOf(t)] = true
		c := s.cont[t]
		if c == nil || c.base == nil {
			break
		}
		t = c.base
	}
	return r
}

func sameType(a, b types.Type) bool {
	if a == nil || b == nil {
		return true
	}
	return types.Identical(a, b)
}

// mayAlias: may the two leaf addresses denote the same memory?
func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == OField && b.op == OField {
		if a.name != b.name {
			return false
		}
		return s.baseMayAlias(a.args[0], b.args[0])
	}
	if a.op == OIndex && b.op == OIndex {
		if !sameType(pointee(a), pointee(b)) {
			return false
		}
		x, y := a.args[1], b.args[1]
		if a.args[0] == b.args[0] {
			// different elements of one sequence
			if d, ok := visitedVs(x, y); ok {
				return d
			}
			if d, ok := visitedVs(y, x); ok {
				return d
			}
			if x.op != OAll && y.op != OAll && s.truth(mkEqInt(x, y)) == -1 {
				return false
			}
			return true
		}
		return s.baseMayAlias(a.args[0], b.args[0])
	}
	if (a.op == OField) != (b.op == OField) && (a.op == OIndex || b.op == OIndex) {
		return false
	}
	if !sameType(pointee(a), pointee(b)) {
		return false
	}
	// a plain pointer against something
	if a.op == OField || a.op == OIndex {
		a, b = b, a
	}
	if b.op == OField || b.op == OIndex {
		// a is a plain pointer value
		if a.op == OAlloc || a.op == OGlobal {
			return false // a whole variable of leaf type is not inside another object
		}
		rb := rootOf(b)
		if s.fresh(rb) {
			return s.esc[rb] && a.op == OSym && !(a.info() != nil && a.info().Kind == "param")
		}
		return true
	}
	return s.objMayAlias(a, b)
}

func (s *State) baseMayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	isAddr := func(t *Term) bool { return t.op == OField || t.op == OIndex }
	if isAddr(a) && isAddr(b) {
		return s.mayAlias(a, b)
	}
	if isAddr(a) || isAddr(b) {
		if isAddr(b) {
			a, b = b, a
		}
		// a is an interior address, b a pointer value or an object
		if b.op == OAlloc || b.op == OGlobal || b.op == OMake {
			return false
		}
		if !sameType(a.typ, b.typ) {
			return false
		}
		ra := rootOf(a)
		if s.fresh(ra) {
			return s.esc[ra] && b.op == OSym && !(b.info() != nil && b.info().Kind == "param")
		}
		return true
	}
	if a.typ != nil && b.typ != nil && !types.Identical(a.typ.Underlying(), b.typ.Underlying()) {
		if !(a.op == OAlloc || b.op == OAlloc) {
			return false
		}
	}
	return s.objMayAlias(rootOf(a), rootOf(b))
}

// isDirty: may memory at addr (or an enclosing object) have changed since entry?
func (s *State) isDirty(addr *Term) bool {
	if len(s.dirty) == 0 {
		return false
	}
	for a := addr; ; {
		for d := range s.dirty {
			if s.mayAlias(d, a) {
				return true
			}
		}
		if (a.op == OField || a.op == OIndex) && (a.args[0].op == OField || a.args[0].op == OIndex || a.args[0].op == OAlloc) {
			a = a.args[0]
			continue
		}
		return false
	}
}

func zeroTerm(t types.Type) *Term {
	if t == nil {
		return mkNil()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return mkConst(stringConst(""), types.Typ[types.String])
		}
		return intern(OConst, "zero:"+t.String(), t)
	case *types.Struct:
		if decomposable(t) {
			fs := make([]*Term, u.NumFields())
			for i := range fs {
				fs[i] = zeroTerm(u.Field(i).Type())
			}
			return mkStruct(t, fs)
		}
		return intern(OCall, "zero:"+types.TypeString(t, nil), t)
	case *types.Array:
		return intern(OCall, "zero:"+types.TypeString(t, nil), t)
	}
	return mkNil()
}

// decomposable: struct types whose fields are tracked one by one.
func decomposable(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n := namedOf(t); n != nil {
		if inModulePkg(n.Obj().Pkg()) {
			return true
		}
		// a plain record of another package, such as a configuration
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); !f.Exported() {
				return false
			}
		}
	}
	return s.NumFields() <= 12
}

// partDirty: a part of the opaque struct at addr was written on its own.
func (s *State) partDirty(addr *Term, typ types.Type) bool {
	if _, ok := typ.Underlying().(*types.Struct); !ok {
		return false
	}
	for d := range s.dirty {
		for a := d; a.op == OField || a.op == OIndex; {
			a = a.args[0]
			if a == addr || a.op != OAlloc && s.mayAlias(a, addr) {
				return true
			}
		}
	}
	return false
}

// lookup finds the cell for a leaf address, trying the quantified form as well.
func (s *State) lookup(addr *Term) (*Term, bool) {
	if v, ok := s.heap[addr]; ok {
		return v, true
	}
	if addr.contains(func(t *Term) bool { return t.op == OIndex && t.args[1].op != OAll }) {
		all := generalizeIndex(addr)
		if all != addr {
			if v, ok := s.heap[all]; ok && !v.has(mkAll("")) {
				return v, true
			}
		}
	}
	return nil, false
}

func mkAll(loop string) *Term { return intern(OAll, loop, tInt) }

// generalizeIndex replaces every non-quantified index by the "for all" index.
func generalizeIndex(t *Term) *Term {
	if t.op == OIndex {
		return mkIndexRaw(generalizeIndex(t.args[0]), mkAll(""), t.typ)
	}
	if len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = generalizeIndex(a)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return rebuild(t, args)
}

func mkIndexRaw(base, idx *Term, typ types.Type) *Term { return intern(OIndex, "", typ, base, idx) }

// kill removes the cells that a write to addr may have changed.
func (s *State) kill(addr, val *Term) {
	for a, v := range s.heap {
		if a == addr {
			continue
		}
		if v == val && val != nil {
			continue
		}
		if s.mayAlias(a, addr) {
			delete(s.heap, a)
		}
	}
}

func aged(t *Term) bool {
	return (t.op == OSym || t.op == OAlloc || t.op == OMake) && strings.Contains(t.name, "^")
}

func hasAged(t *Term) bool { return t.contains(aged) }

// store writes a (possibly struct) value to an address.
func (s *State) store(addr, val *Term, typ types.Type) {
	if typ != nil && decomposable(typ) {
		st := typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			s.store(mkField(addr, typ, i), mkFieldVal(val, typ, i), st.Field(i).Type())
		}
		return
	}
	s.kill(addr, val)
	// sub-addresses of an atomic aggregate
	s.killUnder(addr)
	if hasAged(addr) {
		// the address may stand for several objects: weak update
		if s.heap[addr] != val {
			delete(s.heap, addr)
		}
	} else {
		s.heap[addr] = val
	}
	s.dirty[addr] = true
	s.escape(addr, val)
}

func (s *State) escape(addr, val *Term) {
	if rootOf(addr).op == OAlloc && !s.esc[rootOf(addr)] {
		return
	}
	s.escapeVal(val)
}

func (s *State) escapeVal(val *Term) {
	val.walk(func(t *Term) {
		if (t.op == OAlloc || t.op == OMake) && !s.esc[t] {
			s.esc[t] = true
			for a, v := range s.heap {
				if rootOf(a) == t {
					s.escapeVal(v)
				}
			}
		}
	})
}

func (s *State) killUnder(addr *Term) {
	for a := range s.heap {
		if a != addr && under(a, addr) {
			delete(s.heap, a)
		}
	}
}

// under: a is an address inside the object at b.
func under(a, b *Term) bool {
	for a.op == OField || a.op == OIndex {
		a = a.args[0]
		if a == b {
			return true
		}
	}
	return false
}

// havoc forgets everything stored at or inside addr.
func (s *State) havoc(addr *Term) {
	for a := range s.heap {
		if a == addr || under(a, addr) || s.mayAlias(a, addr) {
			delete(s.heap, a)
		}
	}
	s.dirty[addr] = true
}

// ---- keys, joins, garbage ----

func termKey(t *Term) string {
	if t == nil {
		return "-"
	}
	return strconv.Itoa(t.id)
}

func setKey(b *strings.Builder, m map[*Term]bool) {
	ids := make([]int, 0, len(m))
	for t, v := range m {
		id := t.id * 2
		if v {
			id++
		}
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, i := range ids {
		b.WriteString(strconv.Itoa(i))
		b.WriteByte(',')
	}
	b.WriteByte(';')
}

func (s *State) coreKey(live []ssa.Value, skip func(addr *Term) bool) string {
	var b strings.Builder
	for _, v := range live {
		b.WriteString(termKey(s.env[v]))
		b.WriteByte(',')
	}
	b.WriteByte(';')
	type kv struct{ a, v int }
	var cells []kv
	for a, v := range s.heap {
		if skip != nil && skip(a) {
			continue
		}
		cells = append(cells, kv{a.id, v.id})
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].a < cells[j].a })
	for _, c := range cells {
		fmt.Fprintf(&b, "%d=%d,", c.a, c.v)
	}
	b.WriteByte(';')
	for _, d := range s.defers {
		fmt.Fprintf(&b, "%d(", d.fn.id)
		for _, a := range d.args {
			fmt.Fprintf(&b, "%d,", a.id)
		}
	}
	return b.String()
}

func (s *State) contKey() string {
	var ks []string
	for t, c := range s.cont {
		k := fmt.Sprintf("%d:%s:", t.id, termKey(c.base))
		for _, e := range c.elems {
			k += termKey(e) + ","
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (s *State) tagKey(ess func(*Term) bool) string {
	var b strings.Builder
	setKey(&b, s.must)
	setKey(&b, s.may)
	if ess != nil {
		m := map[*Term]bool{}
		for f, v := range s.facts {
			if ess(f) {
				m[f] = v
			}
		}
		setKey(&b, m)
	}
	return b.String()
}

func leafSyms(t *Term, f func(*Term)) {
	if !t.syms {
		return
	}
	switch t.op {
	case OSym, OAlloc, OMake:
		f(t)
	}
	for _, a := range t.args {
		leafSyms(a, f)
	}
}

func isParamSym(t *Term) bool {
	i := t.info()
	return t.op == OSym && i != nil && i.Kind == "param"
}

// gc drops cells and facts about symbols nothing refers to any more.
func (s *State) gc(live []ssa.Value) {
	if live != nil {
		keep := make(map[ssa.Value]*Term, len(live))
		for _, v := range live {
			if t, ok := s.env[v]; ok {
				keep[v] = t
			}
		}
		s.env = keep
	}
	R := map[*Term]bool{}
	add := func(t *Term) { leafSyms(t, func(x *Term) { R[x] = true }) }
	for _, t := range s.env {
		add(t)
	}
	for u := s.up; u != nil; u = u.prev {
		for t := range u.terms {
			R[t] = true
		}
	}
	for _, d := range s.defers {
		add(d.fn)
		for _, a := range d.args {
			add(a)
		}
	}
	for t := range s.may {
		add(t)
	}
	ok := func(t *Term) bool {
		r := true
		leafSyms(t, func(x *Term) {
			if !R[x] && !isParamSym(x) {
				r = false
			}
		})
		return r
	}
	for changed := true; changed; {
		changed = false
		n := len(R)
		for a, v := range s.heap {
			if ok(a) {
				add(v)
			}
		}
		for t, c := range s.cont {
			if ok(t) {
				for _, e := range c.elems {
					add(e)
				}
				if c.base != nil {
					add(c.base)
				}
			}
		}
		if len(R) != n {
			changed = true
		}
	}
	for a := range s.heap {
		if !ok(a) {
			delete(s.heap, a)
		}
	}
	for f := range s.facts {
		if !ok(f) {
			delete(s.facts, f)
		}
	}
	for d := range s.dirty {
		if !ok(d) {
			// the address is gone, but other names may still reach the memory
			if s.fresh(rootOf(d)) {
				delete(s.dirty, d)
			} else {
				delete(s.dirty, d)
				s.dirty[generalizeDead(d, R)] = true
			}
		}
	}
	for t := range s.cont {
		if !ok(t) {
			delete(s.cont, t)
		}
	}
	for t := range s.esc {
		if !ok(t) {
			delete(s.esc, t)
		}
	}
	for a := range s.bind {
		if !ok(a) {
			delete(s.bind, a)
		}
	}
}

// generalizeDead keeps the class of a dirty address whose base is gone.
func generalizeDead(d *Term, R map[*Term]bool) *Term {
	switch d.op {
	case OField:
		return intern2(d, intern(OSym, "any:"+typeName(d.field().st), types.NewPointer(d.field().st)))
	case OIndex:
		if d.args[0].op == OField || d.args[0].op == OIndex {
			return mkIndexRaw(generalizeDead(d.args[0], R), mkAll(""), d.typ)
		}
		var t types.Type
		if p := pointee(d); p != nil {
			t = types.NewSlice(p)
		}
		n := "any:[]"
		if t != nil {
			n = "any:" + typeName(t)
		}
		return mkIndexRaw(intern(OSym, n, t), mkAll(""), d.typ)
	}
	n := "any:*"
	if d.typ != nil {
		n = "any:" + typeName(d.typ)
	}
	x := intern(OSym, n, d.typ)
	if x.obj == nil {
		x.obj = &SymInfo{Kind: "param", What: n}
	}
	return x
}

func intern2(d, base *Term) *Term {
	if base.obj == nil {
		base.obj = &SymInfo{Kind: "param", What: base.name}
	}
	t := intern(OField, d.name, d.typ, base)
	if t.obj == nil {
		t.obj = d.obj
	}
	return t
}

func typeName(t types.Type) string { return types.TypeString(t, nil) }

// joinInto merges o into s, whose core is the same; reports whether s changed.
func (s *State) joinInto(o *State, intersectTags bool) bool {
	changed := false
	for f, v := range s.facts {
		if ov, ok := o.facts[f]; !ok || ov != v {
			if o.truth(f) == map[bool]int{true: 1, false: -1}[v] {
				continue
			}
			delete(s.facts, f)
			changed = true
		}
	}
	if intersectTags {
		var vs, vo map[*Term]bool
		for t := range o.must {
			if !s.must[t] && s.vacuous(t, &vs) {
				s.must[t], s.may[t] = true, true
				changed = true
			}
		}
		for t := range s.must {
			if !o.must[t] && !o.vacuous(t, &vo) {
				delete(s.must, t)
				changed = true
			}
		}
		for t := range o.may {
			if !s.may[t] {
				s.may[t] = true
				changed = true
			}
		}
	}
	for d := range o.dirty {
		if !s.dirty[d] {
			s.dirty[d] = true
			changed = true
		}
	}
	for d := range o.esc {
		if !s.esc[d] {
			s.esc[d] = true
			changed = true
		}
	}
	for t, c := range o.cont {
		sc := s.cont[t]
		if sc == nil {
			continue
		}
		n := &Contents{elems: append([]*Term(nil), sc.elems...), base: sc.base, closed: sc.closed && c.closed}
		if n.base == nil {
			n.base = c.base
		}
		for _, e := range c.elems {
			if !containsTerm(n.elems, e) {
				n.elems = append(n.elems, e)
			}
		}
		if len(n.elems) != len(sc.elems) || n.base != sc.base || n.closed != sc.closed {
			sortTerms(n.elems)
			s.cont[t] = n
			changed = true
		}
	}
	for t := range s.cont {
		if o.cont[t] == nil {
			delete(s.cont, t)
			changed = true
		}
	}
	for a, v := range s.bind {
		if o.bind[a] != v {
			delete(s.bind, a)
		}
	}
	return changed
}

func containsTerm(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

func sortTerms(l []*Term) { sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id }) }

// visitedVs: may the already-visited index x equal index y?  ok=false when x is
// not such an index.
func visitedVs(x, y *Term) (may, ok bool) {
	if x.op != OAll || x.name == "" {
		return false, false
	}
	r, _ := x.obj.(*allRef)
	if r == nil {
		return true, true
	}
	d := lin(linSub(y, linAdd(r.phi, mkInt(r.k))))
	if len(d.atoms) == 0 && d.c*r.step >= 0 {
		return false, true
	}
	return true, true
}

// vacuous: t is copied(x, …) for the x of former iterations of a loop, and no
// such x is known to s, so there is nothing it would have to hold for.
func (s *State) vacuous(t *Term, syms *map[*Term]bool) bool {
	if t.op != OTag || t.name != "copied" || !aged(t.args[0]) {
		return false
	}
	if *syms == nil {
		m := map[*Term]bool{}
		add := func(x *Term) {
			if x != nil {
				leafSyms(x, func(y *Term) { m[y] = true })
			}
		}
		for _, v := range s.env {
			add(v)
		}
		for a, v := range s.heap {
			add(a)
			add(v)
		}
		for a, c := range s.cont {
			add(a)
			add(c.base)
			for _, v := range c.elems {
				add(v)
			}
		}
		for _, set := range []map[*Term]bool{s.must, s.may, s.facts} {
			for x := range set {
				add(x)
			}
		}
		for u := s.up; u != nil; u = u.prev {
			for x := range u.terms {
				add(x)
			}
		}
		for _, d := range s.defers {
			for _, x := range d.args {
				add(x)
			}
		}
		*syms = m
	}
	return !(*syms)[t.args[0]]
}
