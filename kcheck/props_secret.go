package main

import (
	"encoding/hex"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C11", Run: checkC11, Explain: "Abstract interpretation of the functions that derive the persistence key from a password, over all paths. Rules at each call of the key derivation function: it is given the password as it was received and the salt of the instance, whose length was found to be at least 32 bytes, asks for 32 bytes and uses SHA-256 with at least 310000 iterations, the same at every place. On every path: success means that the key of the instance is the derived one (and, for the validating variant, that the password was found strong enough), failure leaves the key of the instance as it was, and the password was wiped. Every call of the key derivation function in the module lies on one of these paths.",
		Assume: []string{"the wiping functions wipe (C09)"}})
	register(&Check{ID: "C29", Run: checkC29, Explain: "Abstract interpretation of every function of the library that sets the persistence key or the salt (options included: the function an option returns is interpreted in the state in which it was made), of SetCallSign, Assert and of the command that makes a store. Rules: whatever is stored as key or salt is nil or has 32 and at least 32 bytes; a setter that reports an error has stored nothing, one that reports success has stored the decoded value; Assert reports success only when all settings are in range; the command saves a new store only after Assert and SetCallSign have succeeded on it.",
		Assume: []string{"a slice handed over as key or salt is not changed by the caller"}})
}

// isFieldOf: the address of the named field of the object obj.
func isFieldOf(addr, obj *Term, name string) bool {
	return addr != nil && addr.op == OField && addr.args[0] == obj && fieldOf(obj, name) == addr
}

// ---- C11 ----

func checkC11(c *Ctx) {
	kdf := func(n string) bool { return n == "golang.org/x/crypto/pbkdf2.Key" }
	sites := map[ssa.Instruction]bool{}
	c.P.eachCall(func(in ssa.CallInstruction, fn *ssa.Function, name string) {
		if kdf(name) {
			sites[in] = true
		}
		for _, w := range []string{"crypto/pbkdf2", "golang.org/x/crypto/scrypt", "golang.org/x/crypto/argon2", "golang.org/x/crypto/bcrypt", "golang.org/x/crypto/hkdf"} {
			c.Ob(!strings.HasPrefix(name, w+"."), "one-derivation", fn.Name(), in.Pos(), "%s derives a key in another way", fn.Name())
		}
	})
	iters := map[string]bool{}
	visited := map[ssa.Instruction]bool{}
	validators := 0
	for _, name := range []string{"DerivePFKFromPassword", "DerivePFKFromPasswordWithValidation", "SetPFKFromPassword"} {
		fn := c.fn("", "Krypto431."+name)
		if fn == nil || len(fn.Params) != 2 {
			continue
		}
		strict := strings.HasSuffix(name, "WithValidation")
		var k, pw *Term
		original := func(st *State, s *Term) bool { // s is the password as it was received
			if isString(pw.typ) {
				return st.hasTag(mkTag("conv", s, pw))
			}
			return s == mkInit(pw, pointee(pw))
		}
		e := c.NewEngine(Hooks{Ess: essAll, EssCell: func(a *Term) bool { return fieldName(a) == "Krypto431.persistenceKey" },
			Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
				if addr.op == OIndex {
					st.tag(mkTag("changed", rootOf(addr)))
					st.tag(mkTag("changed", addr.args[0]))
				}
			},
			Call: chain(modelWipe(c.P), func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
				switch {
				case kdf(cl.full()):
					visited[cl.Site] = true
					a := cl.Args
					clean := func(s *Term) bool { return !st.mayTag(mkTag("wiped", s)) && !st.mayTag(mkTag("changed", s)) }
					c.Ob(original(st, a[0]) && clean(a[0]), "password", name, cl.Pos, "%s may derive the key from something else than the password it was given (%s)", name, a[0])
					sp := mkInit(fieldOf(k, "salt"), pointee(fieldOf(k, "salt")))
					salt := a[1] == mkInit(sp, pointee(sp)) && clean(a[1])
					c.Ob(salt, "salt", name, cl.Pos, "%s may derive the key with another salt than that of the instance (%s)", name, a[1])
					c.Ob(st.truth(mkLe(mkInt(32), mkLen(a[1]))) == 1, "salt", name+" length", cl.Pos, "%s may derive the key with a salt shorter than 32 bytes", name)
					it, ok := a[2].intVal()
					c.Ob(ok && it >= 310000, "iterations", name, cl.Pos, "%s may derive the key with less than 310000 iterations (%s)", name, a[2])
					iters[a[2].String()] = true
					n, ok := a[3].intVal()
					c.Ob(ok && n == 32, "length", name, cl.Pos, "%s derives a key of another length than 32 bytes (%s)", name, a[3])
					h, _ := a[4].obj.(*ssa.Function)
					c.Ob(h != nil && h.String() == "crypto/sha256.New", "hash", name, cl.Pos, "%s derives the key with another hash than SHA-256 (%s)", name, a[4])
					v := e.Result(cl)
					st.assume(mkEqInt(mkLen(v), a[3]), true)
					st.tag(mkTag("derived", v))
					if strict {
						ok := false
						for _, t := range tagsNamed(st.must, "strong") {
							x := t.args[0]
							for x.op == OConv && len(x.args) == 1 {
								x = x.args[0]
							}
							ok = ok || x == a[0]
						}
						validators++
						c.Ob(ok, "strength", name, cl.Pos, "%s may derive the key from a password that was not found strong enough", name)
					}
					return []CallOut{{St: st, Val: v}}, true
				case strings.HasSuffix(cl.full(), "go-password-validator.Validate"):
					pwd, min := cl.Args[0], cl.Args[1]
					return fallible(e, st, cl, func(st *State, res []*Term) {
						lim := min.op == OInit && min.args[0].op == OGlobal && strings.HasSuffix(min.args[0].String(), "MinimumPasswordEntropyBits")
						if v := floatOf(min); v >= 60 {
							lim = true
						}
						if lim {
							st.tag(mkTag("strong", pwd))
						}
					}, nil), true
				}
				return nil, false
			}),
			Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
				if depth != 0 {
					return
				}
				fa := fieldOf(k, "persistenceKey")
				cur := e.readAt(st, fa)
				switch succeeds(st, f, vals) {
				case 1:
					var v *Term
					if cur != nil && pointee(cur) != nil {
						v = e.readAt(st, cur)
					}
					c.Ob(v != nil && st.hasTag(mkTag("derived", v)) && !st.mayTag(mkTag("wiped", v)) && !st.mayTag(mkTag("changed", v)), "key-is-derived", name, pos, "%s may succeed with a key of the instance that is not the one derived from the password", name)
				case -1:
					c.Ob(cur == mkInit(fa, pointee(fa)), "failure-changes-nothing", name, pos, "%s may fail after having changed the key of the instance", name)
				default:
					c.Ob(false, "result", name, pos, "%s may succeed or fail here", name)
				}
				if isString(pw.typ) {
					for _, t := range tagsNamed(st.may, "conv") {
						if t.args[1] == pw {
							c.Ob(st.hasTag(mkTag("wiped", t.args[0])), "password-wiped", name, pos, "%s may return without having wiped the password", name)
						}
					}
				} else if isNilT(st, pw) != 1 {
					c.Ob(st.hasTag(mkTag("wiped", mkInit(pw, pointee(pw)))), "password-wiped", name, pos, "%s may return without having wiped the password", name)
				}
			}})
		e.Run(fn, func(st *State, args []*Term) { k, pw = args[0], args[1] })
	}
	for s := range sites {
		c.Ob(visited[s], "all-derivations", s.Parent().Name(), s.Pos(), "a key is derived in %s, outside of the functions for that", s.Parent().Name())
	}
	c.Ob(len(iters) == 1, "iterations", "same", token.NoPos, "keys are derived with different numbers of iterations, a store can not be opened by the other function: %s", strings.Join(sortedKeys(iters), ", "))
	for r, n := range map[string]int{"password": 3, "salt": 6, "iterations": 4, "length": 3, "hash": 3, "strength": 1, "key-is-derived": 3, "failure-changes-nothing": 3, "password-wiped": 6, "all-derivations": 1} {
		c.Need(r, n)
	}
}

func floatOf(t *Term) float64 {
	if t.op != OConst || t.cv == nil {
		return 0
	}
	f, _ := constant.Float64Val(constant.ToFloat(t.cv))
	return f
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ---- C29 ----

// fieldWriters are the functions that store to one of the fields of the named
// struct (also through a literal), and the accesses that are neither a plain
// read nor a plain write.
func (p *Program) fieldWriters(rel, typ string, names ...string) (writers map[*ssa.Function]bool, escapes []*ssa.FieldAddr) {
	writers = map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !typeIs(fa.X.Type(), rel, typ) {
					continue
				}
				n := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
				is := false
				for _, w := range names {
					is = is || n == w
				}
				if !is {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == fa {
							writers[fn] = true
						} else {
							escapes = append(escapes, fa)
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						escapes = append(escapes, fa)
					}
				}
			}
		}
	}
	return
}

// entriesOf walks up from functions to the exported functions that reach them
// through unexported ones (and to the functions that make closures).
func (p *Program) entriesOf(fns map[*ssa.Function]bool) []*ssa.Function {
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	p.eachCall(func(in ssa.CallInstruction, fn *ssa.Function, name string) {
		if g := in.Common().StaticCallee(); g != nil {
			if callers[g] == nil {
				callers[g] = map[*ssa.Function]bool{}
			}
			callers[g][fn] = true
		}
	})
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Parent() != nil {
			up(f.Parent())
			return
		}
		if o := f.Object(); o != nil && o.Exported() || len(callers[f]) == 0 {
			out = append(out, f)
			return
		}
		for g := range callers[f] {
			up(g)
		}
	}
	for f := range fns {
		up(f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// modelHex: decoding text from hex fails or gives half as many bytes.
func modelHex(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
	if !cl.std("encoding/hex.DecodeString") {
		return nil, false
	}
	s := cl.Args[0]
	ok := func(st *State, res []*Term) {
		st.tag(mkTag("decoded", res[0], s))
		if v, isC := s.strVal(); isC {
			st.assume(mkEqInt(mkLen(res[0]), mkInt(int64(len(v)/2))), true)
			return
		}
		st.assume(mkEqInt(linAdd(mkLen(res[0]), mkLen(res[0])), mkLen(s)), true)
		for n := int64(0); n <= 128; n += 2 {
			if st.truth(mkEqInt(mkLen(s), mkInt(n))) == 1 {
				st.assume(mkEqInt(mkLen(res[0]), mkInt(n/2)), true)
			}
		}
	}
	outs := fallible(e, st, cl, ok, nil)
	if v, isC := s.strVal(); isC {
		if _, err := hex.DecodeString(v); err == nil {
			return outs[1:], true
		}
		return outs[:1], true
	}
	return outs, true
}

func checkC29(c *Ctx) {
	checkSecretsValid(c)
	checkSettings(c)
	checkInit(c)
}

func checkSecretsValid(c *Ctx) {
	writers, escapes := c.P.fieldWriters("", "Krypto431", "persistenceKey", "salt")
	for _, fa := range escapes {
		c.Ob(false, "plain-access", fa.Parent().Name(), fa.Pos(), "%s takes the address of the key or salt of the instance", fa.Parent().Name())
	}
	stored := map[*ssa.Function]bool{}
	entries := c.P.entriesOf(writers)
	isEntry := map[*ssa.Function]bool{}
	for _, fn := range entries {
		isEntry[fn] = true
	}
	bytesIn := func(f *ssa.Function) bool {
		for _, t := range []*types.Tuple{f.Signature.Params(), f.Signature.Results()} {
			for i := 0; i < t.Len(); i++ {
				if strings.Contains(t.At(i).Type().String(), "byte") {
					return true
				}
			}
		}
		return false
	}
	for _, fn := range entries {
		fn := fn
		setter := map[string]string{"SetPFKFromString": "persistenceKey", "SetSaltFromString": "salt"}[fn.Name()]
		var args0 []*Term
		var e *Engine
		valid := func(e *Engine, st *State, v *Term, name string) bool {
			if v == nil {
				return false
			}
			if isNilT(st, v) == 1 {
				return true
			}
			if pointee(v) == nil {
				return false
			}
			s := e.readAt(st, v)
			if s == nil {
				return false
			}
			if name == "persistenceKey" {
				return st.truth(mkEqInt(mkLen(s), mkInt(32))) == 1
			}
			return st.truth(mkLe(mkInt(32), mkLen(s))) == 1
		}
		e = c.NewEngine(Hooks{Ess: essAll,
			// exported functions are looked at on their own, others that have
			// nothing to do with keys and salts are skipped
			Opaque: func(f *ssa.Function) bool {
				if f == fn || f.Parent() == fn {
					return false
				}
				if isEntry[f] {
					return true
				}
				for w := range writers {
					if !(f.Object() != nil && f.Object().Exported()) && c.P.reaches(f, w) {
						return false
					}
				}
				return !bytesIn(f)
			},
			// by the same rule, keys and salts of other instances are valid
			Load: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
				switch n := fieldName(addr); n {
				case "Krypto431.persistenceKey", "Krypto431.salt":
					st.tag(mkTag(n, val))
				default:
					if !isSlice(val.typ) {
						return
					}
					if st.hasTag(mkTag("Krypto431.persistenceKey", addr)) {
						st.assume(mkEqInt(mkLen(val), mkInt(32)), true)
					}
					if st.hasTag(mkTag("Krypto431.salt", addr)) {
						st.assume(mkLe(mkInt(32), mkLen(val)), true)
					}
				}
			},
			EssCell: func(a *Term) bool {
				n := fieldName(a)
				return n == "Krypto431.persistenceKey" || n == "Krypto431.salt"
			},
			Call: chain(modelWipe(c.P), modelHex, func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
				if cl.full() == "golang.org/x/crypto/pbkdf2.Key" {
					v := e.Result(cl)
					st.assume(mkEqInt(mkLen(v), cl.Args[3]), true)
					return []CallOut{{St: st, Val: v}}, true
				}
				return nil, false
			}),
			Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
				n := fieldName(addr)
				if n != "Krypto431.persistenceKey" && n != "Krypto431.salt" {
					return
				}
				n = strings.TrimPrefix(n, "Krypto431.")
				stored[in.Parent()] = true
				what := "nil or 32 bytes long"
				if n == "salt" {
					what = "nil or at least 32 bytes long"
				}
				c.Ob(valid(e, st, val, n), "stored-"+n, fn.Name(), in.Pos(), "%s may set a %s that is not %s", fn.Name(), n, what)
			},
			Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
				if depth != 0 || f != fn {
					return
				}
				if len(vals) == 1 && vals[0].op != OConst {
					if g, ok := vals[0].obj.(*ssa.Function); ok && len(g.Params) == 1 {
						k := mkSym(OSym, "option's instance", g.Params[0].Type(), &SymInfo{Kind: "param", What: "k"})
						s := st.clone()
						s.assume(mkEq(k, mkNil()), false)
						binds := []*Term(nil)
						if vals[0].op == OClosure {
							binds = vals[0].args
						}
						e.callFn(g, []*Term{k}, binds, s, e.ctxID(0, len(e.ctxs), g))
					}
				}
				if setter == "" {
					return
				}
				a := fieldOf(args0[0], setter)
				cur := e.readAt(st, a)
				switch succeeds(st, f, vals) {
				case 1:
					ok := false
					if cur != nil && pointee(cur) != nil {
						s := e.readAt(st, cur)
						ok = s != nil && st.hasTag(mkTag("decoded", s, args0[1])) && !st.mayTag(mkTag("wiped", s))
					}
					c.Ob(ok, "setter-sets", fn.Name(), pos, "%s may succeed without having set the value it was given", fn.Name())
				case -1:
					c.Ob(cur == mkInit(a, pointee(a)), "failure-keeps", fn.Name(), pos, "%s may fail after having changed the value of the instance", fn.Name())
				default:
					c.Ob(false, "failure-keeps", fn.Name(), pos, "%s may succeed or fail here", fn.Name())
				}
			}})
		e.Run(fn, func(st *State, args []*Term) { args0 = args })
	}
	for w := range writers {
		c.Ob(stored[w], "writers-analysed", shortName(w.String()), w.Pos(), "a key or salt is set in %s, which was not reached by the analysis", w.Name())
	}
	c.Need("stored-persistenceKey", 5)
	c.Need("stored-salt", 4)
	c.Need("setter-sets", 2)
	c.Need("failure-keeps", 4)
}

// checkSettings: SetCallSign and Assert.
func checkSettings(c *Ctx) {
	if fn := c.fn("", "Krypto431.SetCallSign"); fn != nil && len(fn.Params) == 2 {
		var k, cs *Term
		e := c.NewEngine(Hooks{Ess: essAll, EssCell: func(a *Term) bool { return fieldName(a) == "Krypto431.CallSign" },
			Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
				if depth != 0 {
					return
				}
				a := fieldOf(k, "CallSign")
				cur := e.readAt(st, a)
				switch succeeds(st, f, vals) {
				case 1:
					c.Ob(cur != nil && st.truth(mkLe(mkInt(2), mkLen(cur))) == 1, "call-sign", "length", pos, "SetCallSign may set a call-sign shorter than two characters")
					from := cur
					for _, t := range tagsNamed(st.must, "conv") {
						if t.args[0] == cur {
							from = t.args[1]
						}
					}
					upper, trim := false, false
					for from != nil && from.op == OCall && len(from.args) == 1 {
						upper = upper || from.name == "strings.ToUpper"
						trim = trim || from.name == "strings.TrimSpace"
						from = from.args[0]
					}
					c.Ob(from == cs && upper && trim, "call-sign", "value", pos, "SetCallSign may set something else than the trimmed call-sign in upper case")
				case -1:
					c.Ob(cur == mkInit(a, pointee(a)), "failure-keeps", "SetCallSign", pos, "SetCallSign may fail after having changed the call-sign")
				default:
					c.Ob(false, "call-sign", "result", pos, "SetCallSign may succeed or fail here")
				}
			}})
		e.Run(fn, func(st *State, args []*Term) { k, cs = args[0], args[1] })
	}
	c.Need("call-sign", 2)
	if fn := c.fn("", "Krypto431.Assert"); fn != nil {
		var k *Term
		e := c.NewEngine(Hooks{Ess: essAll,
			Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
				if depth != 0 || succeeds(st, f, vals) == -1 {
					return
				}
				get := func(n string) *Term { a := fieldOf(k, n); return mkInit(a, pointee(a)) }
				need := func(cond *Term, what string) {
					c.Ob(st.truth(cond) == 1, "assert", what, pos, "Assert may succeed %s", what)
				}
				need(mkLe(mkInt(1), mkLen(get("persistence"))), "without a file name")
				need(mkLe(mkInt(1), get("GroupSize")), "with a group size below 1")
				need(mkLe(mkInt(20), get("KeyLength")), "with a key length below 20")
				need(mkLe(mkInt(85), get("Columns")), "with less than 85 columns")
				need(mkLe(get("GroupSize"), get("KeyColumns")), "with key columns narrower than a group")
			}})
		e.Run(fn, func(st *State, args []*Term) { k = args[0] })
	}
	c.Need("assert", 5)
}

// checkInit: a new store is saved only after its settings were found valid.
func checkInit(c *Ctx) {
	assert, save := c.fn("", "Krypto431.Assert"), c.fn("", "Krypto431.Save")
	sp := c.P.Pkg("cmd/krypto431")
	if assert == nil || save == nil || sp == nil {
		return
	}
	load := c.P.Func("", "Krypto431.Load")
	var entries []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Pkg == sp && fn.Parent() == nil && len(fn.Params) == 1 && strings.HasSuffix(fn.Params[0].Type().String(), ".Context") && c.P.reaches(fn, save) && !c.P.reaches(fn, load) {
			entries = append(entries, fn)
		}
	}
	for _, fn := range entries {
		e := c.NewEngine(Hooks{
			Opaque: func(f *ssa.Function) bool { return f.Pkg != sp },
			EssTag: func(t *Term) bool { return t.name == "valid" || t.name == "named" },
			Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
				if cl.Fn == nil || cl.Fn.Pkg == nil || cl.Fn.Pkg.Pkg.Path() != modPath || len(cl.Args) == 0 {
					return nil, false
				}
				k := cl.Args[0]
				mark := func(n string) ([]CallOut, bool) {
					return fallible(e, st, cl, func(st *State, res []*Term) { st.tag(mkTag(n, k)) }, nil), true
				}
				switch cl.Fn.Name() {
				case "Assert":
					return mark("valid")
				case "SetCallSign":
					return mark("named")
				case "Save":
					c.Ob(st.hasTag(mkTag("valid", k)), "saved-valid", fn.Name(), cl.Pos, "%s may save a new store whose settings were not found valid", fn.Name())
					c.Ob(st.hasTag(mkTag("named", k)), "saved-valid", fn.Name()+" call-sign", cl.Pos, "%s may save a new store whose call-sign was not found valid", fn.Name())
				}
				return nil, false
			},
			Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
				if strings.HasPrefix(fieldName(addr), "Krypto431.") && addr.op == OField {
					setTag(st, mkTag("valid", addr.args[0]), false)
				}
			}})
		e.Run(fn, nil)
	}
	c.Need("saved-valid", 2)
}
