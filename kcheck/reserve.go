package main

import "go/types"

// The keys an enciphering reserves are followed by where they can be found
// again. Tags: pending(K) - K was reserved in this round and is in no variable
// yet; held(A) - the key in variable A is reserved and in no list yet;
// listed(L) - reserved keys are elements of L; listedAt(C) - of the list in
// variable C; lost() - a reserved key was dropped.

// The same bookkeeping serves the deciphering, where every key looked up has to
// end up marked: done is the value of the mark that discharges a key.
type tracker struct{ done bool }

func setTag(st *State, t *Term, on bool) {
	if on {
		st.tag(t)
		return
	}
	delete(st.must, t)
	delete(st.may, t)
}

func tagsNamed(m map[*Term]bool, name string) (l []*Term) {
	for t := range m {
		if t.op == OTag && t.name == name {
			l = append(l, t)
		}
	}
	sortTerms(l)
	return l
}

// keyParts calls f with every key pointer val holds and the address it gets
// when val is stored at addr (nil for no address).
func keyParts(addr, val *Term, f func(a, k *Term)) {
	if val == nil || val.typ == nil {
		return
	}
	switch {
	case isPtr(val.typ) && typeIs(val.typ, "", "Key"):
		f(addr, val)
	case val.op == OStruct:
		t, ok := val.typ.Underlying().(*types.Struct)
		for i := 0; ok && i < t.NumFields() && i < len(val.args); i++ {
			if ft := t.Field(i).Type(); isPtr(ft) && typeIs(ft, "", "Key") {
				var fa *Term
				if addr != nil {
					fa = mkField(addr, val.typ, i)
				}
				f(fa, val.args[i])
			}
		}
	}
}

// store follows a store.
func (tr tracker) store(e *Engine, st *State, addr, val *Term) {
	if fieldName(addr) == "Key.Used" {
		k := addr.args[0]
		if v, ok := val.boolVal(); ok && v == tr.done {
			setTag(st, mkTag("pending", k), false)
			for _, t := range tagsNamed(st.may, "held") {
				if e.readAt(st, t.args[0]) == k {
					setTag(st, t, false)
				}
			}
		} else if k.op != OAlloc && !tr.done {
			for _, t := range tagsNamed(st.may, "held") {
				if e.readAt(st, t.args[0]) == k {
					return
				}
			}
			setTag(st, mkTag("pending", k), true)
		}
		return
	}
	if isVarargs(rootOf(addr)) {
		return
	}
	tr.overwrite(e, st, addr, val)
	var put []*Term
	keyParts(addr, val, func(a, k *Term) {
		if st.mayTag(mkTag("pending", k)) {
			setTag(st, mkTag("pending", k), false)
			put = append(put, a)
			return
		}
		for _, t := range tagsNamed(st.may, "held") {
			if e.readAt(st, t.args[0]) == k {
				put = append(put, a)
				return
			}
		}
	})
	for _, t := range tagsNamed(st.may, "held") {
		a := t.args[0]
		if a != addr && !under(a, addr) {
			continue
		}
		old := e.readAt(st, a)
		kept := false
		for _, o := range tagsNamed(st.may, "held") {
			if b := o.args[0]; b != a && !under(b, addr) && b != addr && e.readAt(st, b) == old {
				kept = true
			}
		}
		keyParts(addr, val, func(_, k *Term) { kept = kept || k == old })
		if !kept {
			st.tag(mkTag("lost"))
		}
		setTag(st, t, false)
	}
	for _, a := range put {
		setTag(st, mkTag("held", a), true)
	}
	if isSlice(pointee(addr)) {
		t := mkTag("listedAt", addr)
		if old := e.readAt(st, addr); st.mayTag(t) && old != val && old != nil && !extends(st, val, old) && !allReleased(st, old) {
			st.tag(mkTag("lost"))
		}
		if st.mayTag(mkTag("listed", val)) {
			setTag(st, mkTag("listed", val), false)
			setTag(st, t, true)
		} else if st.mayTag(t) && e.readAt(st, addr) != val {
			setTag(st, t, false)
			st.tag(mkTag("lost"))
		}
	}
}

// overwrite: an element of a list of keys is replaced.
func (tr tracker) overwrite(e *Engine, st *State, addr, val *Term) {
	at := addr
	if at.field() != nil && len(at.args) > 0 {
		at = at.args[0]
	}
	if at.op != OIndex {
		return
	}
	list := at.args[0]
	in := st.mayTag(mkTag("listed", list))
	for _, t := range tagsNamed(st.may, "listedAt") {
		in = in || e.readAt(st, t.args[0]) == list
	}
	if !in || allReleased(st, list) {
		return
	}
	keyParts(addr, val, func(a, k *Term) {
		if a != nil && e.readAt(st, a) != k {
			st.tag(mkTag("lost"))
		}
	})
}

// extends: the list still has every element of the old one.
func extends(st *State, list, old *Term) bool {
	all := tagsNamed(st.must, "extends")
	seen := map[*Term]bool{list: true}
	for next := []*Term{list}; len(next) > 0; next = next[1:] {
		for _, t := range all {
			if t.args[0] == next[0] && !seen[t.args[1]] {
				seen[t.args[1]] = true
				next = append(next, t.args[1])
			}
		}
	}
	return seen[old]
}

// append follows an append.
func (tr tracker) append(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term) {
	list := st.mayTag(mkTag("listed", base))
	setTag(st, mkTag("listed", base), false)
	for _, t := range tagsNamed(st.may, "listedAt") {
		list = list || e.readAt(st, t.args[0]) == base
	}
	if spread != nil && st.mayTag(mkTag("listed", spread)) {
		list = true
		setTag(st, mkTag("listed", spread), false)
	}
	for _, x := range elems {
		keyParts(nil, x, func(_, k *Term) {
			if st.mayTag(mkTag("pending", k)) {
				setTag(st, mkTag("pending", k), false)
				list = true
			}
			for _, t := range tagsNamed(st.may, "held") {
				if e.readAt(st, t.args[0]) == k {
					setTag(st, t, false)
					list = true
				}
			}
		})
	}
	if list {
		setTag(st, mkTag("listed", res), true)
	}
	st.tag(mkTag("extends", res, base))
	if spread != nil {
		st.tag(mkTag("extends", res, spread))
	}
}

// literal follows a list literal.
func (tr tracker) literal(e *Engine, st *State, arr, res *Term) {
	list := false
	for a, v := range st.heap {
		if rootOf(a) != arr || v == nil {
			continue
		}
		keyParts(nil, v, func(_, k *Term) {
			if st.mayTag(mkTag("pending", k)) {
				setTag(st, mkTag("pending", k), false)
				list = true
			}
			for _, t := range tagsNamed(st.may, "held") {
				if e.readAt(st, t.args[0]) == k {
					setTag(st, t, false)
					list = true
				}
			}
		})
	}
	if list {
		setTag(st, mkTag("listed", res), true)
	}
}

// left lists what may not have been discharged, in words.
func (tr tracker) left(e *Engine, st *State) (l []string) {
	if st.mayTag(mkTag("lost")) {
		l = append(l, "a key that is in no variable and no list any more")
	}
	for _, t := range tagsNamed(st.may, "pending") {
		if !known(e, st, t.args[0], "Used", tr.done) {
			l = append(l, "the key "+t.args[0].String())
		}
	}
	for _, t := range tagsNamed(st.may, "held") {
		if k := e.readAt(st, t.args[0]); k == nil || !known(e, st, k, "Used", tr.done) {
			l = append(l, "the key in "+t.args[0].String())
		}
	}
	for _, t := range tagsNamed(st.may, "listed") {
		if !allReleased(st, t.args[0]) {
			l = append(l, "the keys in "+t.args[0].String())
		}
	}
	for _, t := range tagsNamed(st.may, "listedAt") {
		if v := e.readAt(st, t.args[0]); v == nil || !allReleased(st, v) {
			l = append(l, "the keys in the list "+t.args[0].String())
		}
	}
	return l
}

func known(e *Engine, st *State, k *Term, f string, v bool) bool {
	if v {
		return knownTrue(e, st, k, f)
	}
	return knownFalse(e, st, k, f)
}

// allReleased: the mark was taken off the key of every element of the list.
func allReleased(st *State, list *Term) bool {
	if isZeroLen(st, list) {
		return true
	}
	for _, t := range tagsNamed(st.must, "extends") {
		if t.args[1] == list && t.args[0] != list && t.args[0].id > list.id && allReleased(st, t.args[0]) {
			return true
		}
	}
	for _, u := range tagsNamed(st.must, "released") {
		a := u.args[0]
		if a.field() != nil {
			a = a.args[0]
		}
		if a.op == OIndex && a.args[0] == list && a.args[1].isWhole() {
			return true
		}
	}
	return false
}
