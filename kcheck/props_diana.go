package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C01", Run: checkC01,
		Explain: "Abstract interpretation of every function of the diana package over value-numbered terms: on each returning path the written letter is put in linear normal form modulo 26 and in an interval domain. Rule: written + row + column = 25 + 3*'A' (mod 26) and 'A' <= written <= 'Z' on success, no arithmetic step leaves its integer type, letters outside A-Z give an error on every path and leave the destination untouched, letters inside A-Z never give an error; ZeroKey writes the self-reciprocal key; AppendTrigraph appends exactly one such letter, advances the index by one and indexes the key in bounds. The embedded reciprocal table is compared cell by cell with the same relation.",
		Assume:  []string{"destination and inputs of the letter functions are distinct variables or the destination is written last (both are covered by the term that is read before the write)"}})
}

func checkC01(c *Ctx) {
	for _, n := range []string{"TrigraphByte", "TrigraphRune"} {
		trigraphFn(c, n, false)
	}
	for _, n := range []string{"ZeroKeyByte", "ZeroKeyRune"} {
		trigraphFn(c, n, true)
	}
	c.Need("trigraph-value", 4)
	c.Need("rejects-bad-input", 2)
	appendTrigraph(c)
	reciprocalTable(c)
}

func wrapHook(c *Ctx, rule string) func(e *Engine, st *State, res *Term, typ types.Type, in ssa.Instruction) {
	return func(e *Engine, st *State, res *Term, typ types.Type, in ssa.Instruction) {
		if !fitsType(st, res, typ) {
			e.Report(st, in.Pos(), rule, shortName(in.Parent().String()), "the value %s may not fit its type %s in %s, the trigraph would be wrong", res, typ, shortName(in.Parent().String()))
		}
	}
}

// inputLetters: cells behind the pointer parameters other than the first.
func trigraphFn(c *Ctx, name string, zero bool) {
	fn := c.fn("diana", name)
	if fn == nil {
		return
	}
	if len(fn.Params) != 3 && !zero || len(fn.Params) != 2 && zero {
		c.Undecided("sig:"+name, fn.Pos(), "%s has an unexpected signature", name)
		return
	}
	var e *Engine
	var initial []*Term // addresses: dst, x, (y)
	e = c.NewEngine(Hooks{
		Arith: func(e *Engine, st *State, res *Term, typ types.Type, in ssa.Instruction) {
			wrapHook(c, "no-wrap")(e, st, res, typ, in)
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos tokenPos) {
			if depth != 0 {
				return
			}
			trigraphReturn(c, e, st, f, vals, pos, initial, zero)
		},
		Ess: func(f *Term) bool { return true },
	})
	e.Run(fn, func(st *State, args []*Term) { initial = args })
}

func trigraphReturn(c *Ctx, e *Engine, st *State, f *ssa.Function, vals []*Term, pos tokenPos, args []*Term, zero bool) {
	name := f.Name()
	dst := args[0]
	et := pointee(dst)
	var in []*Term
	for _, a := range args[1:] {
		in = append(in, mkInit(a, et))
	}
	cur, written := st.heap[dst]
	if written && cur == mkInit(dst, et) {
		written = false
	}
	letter := func(s *State, t *Term) bool { return inRange(s, t, 'A', 'Z') }
	switch succeeds(st, f, vals) {
	case 0:
		c.Fail("undecided", name, pos, "can not tell whether %s succeeds here", name)
	case 1:
		if !c.Ob(written, "trigraph-value", name+":written", pos, "%s returns success without writing a letter", name) {
			return
		}
		for _, x := range in {
			c.Ob(letter(st, x), "rejects-bad-input", name, pos, "%s succeeds although an input letter may be outside A-Z", name)
		}
		co, k := modLinear(cur, 26)
		want := map[*Term]int64{}
		add := func(t *Term, n int64) { want[t] = ((want[t]+n)%26 + 26) % 26 }
		if zero {
			add(in[0], -2)
		} else {
			add(in[0], -1)
			add(in[1], -1)
		}
		ok := k == (25+3*65)%26 && len(co) == len(want)
		for t, n := range want {
			if co[t] != n {
				ok = false
			}
		}
		c.Ob(ok, "trigraph-value", name+":value", pos, "%s writes %s, which is not the trigraph (25 - row - column) mod 26 of its inputs", name, cur)
		c.Ob(letter(st, cur), "trigraph-range", name, pos, "%s may write %s, which is not proven to be within A-Z", name, cur)
		c.sample("%s: success writes %s", name, cur)
	case -1:
		c.Ob(!written, "no-output-on-error", name, pos, "%s writes to its output although it returns an error", name)
		// valid input must not be rejected: assume it is valid and look for a contradiction
		s := st.clone()
		ok := true
		for _, a := range args {
			ok = ok && s.assume(mkEq(a, mkNil()), false)
		}
		for _, x := range in {
			ok = ok && s.assume(mkLe(mkInt('A'), x), true) && s.assume(mkLe(x, mkInt('Z')), true)
		}
		c.Ob(!ok || contradictory(s), "accepts-good-input", name, pos, "%s may reject two letters within A-Z", name)
	}
}

// contradictory: some recorded fact is refuted by the others.
func contradictory(s *State) bool {
	for f, v := range s.facts {
		if f.op != OLe0 && f.op != OEq0 {
			continue
		}
		t := s.clone()
		delete(t.facts, f)
		k := t.truth(f)
		if k == 1 && !v || k == -1 && v {
			return true
		}
	}
	return false
}

func appendTrigraph(c *Ctx) {
	fn := c.fn("diana", "AppendTrigraphByteByKey")
	if fn == nil {
		return
	}
	var out, ch, key, idx *Term
	e := c.NewEngine(Hooks{
		Ess: func(f *Term) bool { return true },
		Arith: func(e *Engine, st *State, res *Term, typ types.Type, in ssa.Instruction) {
			if b, ok := typ.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				return // lengths and indexes
			}
			wrapHook(c, "no-wrap")(e, st, res, typ, in)
		},
		Index: func(e *Engine, st *State, base, i, l *Term, in ssa.Instruction) {
			ok := st.truth(mkLe(mkInt(0), i)) == 1 && st.truth(mkLt(i, l)) == 1
			c.Ob(ok, "append-index", "AppendTrigraphByteByKey", in.Pos(), "the key index %s is not checked against the length %s of the slice it indexes", i, l)
		},
		Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
			st.tag(mkTag("appended", base))
			if spread == nil && len(elems) == 1 {
				st.tag(mkTag("one", res, base, elems[0]))
			}
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos tokenPos) {
			if depth != 0 {
				return
			}
			bt := pointee(ch)
			out0 := mkInit(out, pointee(out))
			cur, wr := st.heap[out]
			ni, iw := st.heap[idx]
			i0 := mkInit(idx, pointee(idx))
			switch succeeds(st, f, vals) {
			case 1:
				var el *Term
				if wr {
					for t := range st.must {
						if t.op == OTag && t.name == "one" && t.args[0] == cur && t.args[1] == out0 {
							el = t.args[2]
						}
					}
				}
				if !c.Ob(el != nil, "append-one", "append", pos, "success does not append exactly one letter to the output") {
					return
				}
				key0 := mkInit(key, pointee(key))
				kl := mkInit(mkIndex(key0, i0, bt), bt)
				co, k := modLinear(el, 26)
				c0 := mkInit(ch, bt)
				c.Ob(k == (25+3*65)%26 && len(co) == 2 && co[c0] == 25 && co[kl] == 25, "append-value", "append", pos,
					"the appended letter %s is not the trigraph of the character and the key letter at the index", el)
				c.Ob(iw && ni == linAdd(i0, mkInt(1)), "append-advance", "index", pos, "the key index is not advanced by exactly one (it becomes %v)", ni)
			case -1:
				c.Ob((!wr || cur == out0) && (!iw || ni == i0), "append-error", "error", pos, "an error leaves the output or the key index changed")
			default:
				c.Fail("undecided", "append", pos, "can not tell whether this return is a success")
			}
		},
	})
	e.Run(fn, func(st *State, args []*Term) { out, ch, key, idx = args[0], args[1], args[2], args[3] })
	c.Need("append-one", 1)
	c.Need("append-index", 1)
	c.Need("append-error", 2)
}

// reciprocalTable compares the table that is printed on the keys with the
// cipher relation.
func reciprocalTable(c *Ctx) {
	txt, file := embedded(c, "diana", "ReciprocalTable")
	if txt == "" {
		c.Undecided("table", 0, "the embedded reciprocal table was not found")
		return
	}
	lines := strings.Split(strings.TrimRight(strings.ReplaceAll(txt, "\r", ""), "\n"), "\n")
	if !c.Ob(len(lines) == 27, "table-cell", "rows", 0, "%s has %d lines, not a header and 26 rows", file, len(lines)) {
		return
	}
	head := strings.Fields(lines[0])
	okHead := len(head) == 26
	for i := range head {
		okHead = okHead && head[i] == string(rune('A'+i))
	}
	c.Ob(okHead, "table-cell", "header", 0, "%s: the header is not A to Z", file)
	for r := 0; r < 26; r++ {
		f := strings.Fields(lines[r+1])
		if !c.Ob(len(f) == 26, "table-cell", "width", 0, "%s line %d has %d cells", file, r+2, len(f)) {
			continue
		}
		for col := 0; col < 26; col++ {
			third := ((25-r-col)%26 + 26) % 26
			// a cell holds the row letter and the trigraph
			want := string(rune('A'+r)) + string(rune('a'+third))
			if f[col] != want {
				// the cell may be written the other way around (column letter first)
				alt := string(rune('A'+col)) + string(rune('a'+third))
				c.Ob(f[col] == alt && alt == want, "table-cell", "cell", 0, "%s: row %c column %c reads %q, the cipher gives %q", file, 'A'+r, 'A'+col, f[col], want)
				continue
			}
			c.Ob(true, "table-cell", "cell", 0, "")
		}
	}
}
