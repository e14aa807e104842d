package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C22", Run: checkC22, Explain: "Abstract interpretation of the commands of the program (the functions given to the command line library as actions) over all paths, with every library operation split into success and failure, and operations that report how many records they changed into none and some. Rules: when a command returns without error, none of the library operations it called has failed, and every store it has changed after loading it (or has created) was saved afterwards, unless the user declined; enciphered or deciphered messages are not shown or written while the store they belong to is changed and not saved; the program exits with an error status when the command returned an error.",
		Assume: []string{"Save writes the store completely or fails (C13, C14)", "the command line library runs the action of the command that was given and returns its error"}})
}

const cmdRel = "cmd/krypto431"

// commands: the actions of the command line program.
func (c *Ctx) commands() []*ssa.Function {
	called := map[*ssa.Function]bool{}
	c.P.eachCall(func(in ssa.CallInstruction, fn *ssa.Function, name string) {
		if g := in.Common().StaticCallee(); g != nil {
			called[g] = true
		}
	})
	var l []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath+"/"+cmdRel || called[fn] || fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}
		sig := fn.Signature
		if sig.Params().Len() == 1 && strings.HasSuffix(typeName(sig.Params().At(0).Type()), "cli/v2.Context") && sig.Results().Len() == 1 && isError(sig.Results().At(0).Type()) {
			l = append(l, fn)
		}
	}
	return l
}

// what the operations of the library do to a store
var (
	storeChanges = map[string]bool{"GenerateKeys": true, "NewKey": true, "ImportKeys": true, "DeleteKey": true, "DeleteKeyByString": true, "DeleteKeysBySummaryString": true,
		"DeleteMessage": true, "DeleteMessageByString": true, "DeleteMessagesBySummaryString": true, "NewTextMessage": true, "NewTextMessageFromReader": true, "PromptNewTextMessage": true,
		"DecipherMessages": true, "SummaryOfMessages": true, "MarkKeyUsed": true, "MarkKeyCompromised": true, "SetKeysUsed": true, "EnrichWithKey": true}
	keyChanges = map[string]bool{"SetPFKFromString": true, "SetPFKFromPassword": true, "DerivePFKFromPassword": true, "DerivePFKFromPasswordWithValidation": true, "SetSaltFromString": true, "SetCallSign": true}
	textShown  = map[string]bool{"NewTextMessage": true, "NewTextMessageFromReader": true, "PromptNewTextMessage": true, "DecipherMessages": true, "SummaryOfMessages": true}
)

func checkC22(c *Ctx) {
	for _, fn := range c.commands() {
		c.command(fn)
	}
	c.mainExit()
	for ru, n := range map[string]int{"errors": 4, "saved": 4, "shown": 3, "exit": 1} {
		c.Need(ru, n)
	}
}

func (c *Ctx) command(fn *ssa.Function) {
	name := fn.Name()
	isStore := func(t *Term) bool { return t != nil && isModType(c.P, pointee(t), "Krypto431") }
	saves := c.P.reaches(fn, c.fn("", "Krypto431.Save"))
	loads := c.P.reaches(fn, c.fn("", "Krypto431.Load"))
	dirty := func(k *Term) *Term { return mkTag("dirty", k) }
	e := c.NewEngine(Hooks{
		EssTag: func(t *Term) bool {
			return t.name == "dirty" || t.name == "failed" || t.name == "unsaved" || t.name == "saved" || t.name == "loaded"
		},
		Opaque: func(f *ssa.Function) bool {
			return f.Pkg != nil && f.Pkg.Pkg.Path() != modPath+"/"+cmdRel
		},
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if val != nil && st.hasTag(mkTag("exported", val)) {
				setTag(st, dirty(addr), true)
			}
		},
		Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			if cl.survey() {
				return fallible(e, st, cl, func(st *State, res []*Term) {
					p := unwrap(cl.Args[1])
					if t := pointee(p); t != nil {
						v := e.newSym(e.curFr, OSym, cl.Site, "answer", t, &SymInfo{Kind: "call", What: "the answer of the user"})
						st.store(p, v, t)
						st.tag(mkTag("answer", v))
					}
				}, func(st *State, res []*Term) {
					// a text that was asked for stays empty, which is looked at later
					if t := pointee(unwrap(cl.Args[1])); t == nil || !isString(t) {
						setTag(st, mkTag("failed"), true)
					}
				}), true
			}
			if strings.Contains(cl.Name, "survey") && strings.HasSuffix(cl.Name, ".Ask") {
				e.effects(st, cl)
				return fallible(e, st, cl, nil, func(st *State, res []*Term) { setTag(st, mkTag("failed"), true) }), true
			}
			if cl.Fn == nil {
				return nil, false
			}
			if pkg := cl.Fn.Pkg; pkg != nil && pkg.Pkg.Path() == "fmt" && strings.Contains(cl.Fn.Name(), "rint") {
				std := !strings.HasPrefix(cl.Fn.Name(), "F") && !strings.HasPrefix(cl.Fn.Name(), "S")
				if strings.HasPrefix(cl.Fn.Name(), "F") {
					std = strings.Contains(unwrap(cl.Args[0]).String(), "Stdout")
				}
				if std {
					c.Ob(len(tagsNamed(st.may, "unsaved")) == 0, "shown", name, cl.Pos, "%s may print while an enciphered or deciphered message, whose keys are now used, has not been saved", name)
				}
			}
			if cl.Fn.Pkg == nil || cl.Fn.Pkg.Pkg.Path() != modPath {
				return nil, false
			}
			m := cl.Fn.Name()
			var k *Term
			if cl.Fn.Signature.Recv() != nil && len(cl.Args) > 0 && isStore(cl.Args[0]) {
				k = cl.Args[0]
			}
			if k != nil && (m == "MessagesPDF" || m == "MessagesTextFile") {
				c.Ob(!st.mayTag(mkTag("unsaved", k)), "shown", name+" "+m, cl.Pos, "%s may write messages to a file while the store has not been saved", name)
			}
			changed := func(st *State) {
				if k == nil {
					return
				}
				if storeChanges[m] || keyChanges[m] && st.mayTag(mkTag("loaded", k)) {
					setTag(st, dirty(k), true)
					if textShown[m] {
						setTag(st, mkTag("unsaved", k), true)
					}
				}
			}
			fails := cl.Res != nil && func() bool {
				if tp, ok := cl.Res.(*types.Tuple); ok {
					return isError(tp.At(tp.Len() - 1).Type())
				}
				return isError(cl.Res)
			}()
			if k != nil {
				e.effects(st, cl)
			}
			// some splits a successful outcome by whether anything was changed
			some := func(o CallOut, n *Term) []CallOut {
				if n == nil || !isInt(n.typ) {
					changed(o.St)
					return []CallOut{o}
				}
				no := o.St.clone()
				no.assume(mkEqInt(n, mkInt(0)), true)
				o.St.assume(mkLe(mkInt(1), n), true)
				changed(o.St)
				return []CallOut{o, {St: no, Val: o.Val}}
			}
			if !fails {
				v := e.Result(cl)
				if m == "ExportKeys" {
					st.tag(mkTag("exported", v))
				}
				if m == "SummaryOfMessages" && k != nil {
					// what can be deciphered was deciphered before
					if len(cl.Args) > 1 && st.hasTag(mkTag("tried", k, cl.Args[1])) {
						return []CallOut{{St: st, Val: v}}, true
					}
				}
				if m == "DecipherMessages" && k != nil && len(cl.Args) > 1 {
					st.tag(mkTag("tried", k, cl.Args[1]))
				}
				if cl.Res != nil && v.typ != nil && isInt(v.typ) {
					return some(CallOut{St: st, Val: v}, v), true
				}
				changed(st)
				return []CallOut{{St: st, Val: v}}, true
			}
			outs := fallible(e, st, cl, func(st *State, res []*Term) {
				if k == nil {
					return
				}
				switch m {
				case "Load":
					setTag(st, mkTag("loaded", k), true)
				case "Save":
					setTag(st, dirty(k), false)
					setTag(st, mkTag("unsaved", k), false)
					setTag(st, mkTag("saved", k), true)
				}
			}, func(st *State, res []*Term) {
				changed(st)
				setTag(st, mkTag("failed"), true)
				c.count("failing operations followed", 1)
			})
			if storeChanges[m] || keyChanges[m] {
				good := outs[1]
				var n *Term
				if good.Val.op == OTuple {
					n = good.Val.args[0]
				}
				outs = append(outs[:1], some(good, n)...)
			}
			return outs, true
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 || succeeds(st, f, vals) == -1 {
				return
			}
			c.Ob(!st.mayTag(mkTag("failed")), "errors", name, pos, "%s may report success although an operation of the library failed", name)
			declined := false
			for _, t := range tagsNamed(st.must, "answer") {
				declined = declined || isBool(t.args[0].typ) && st.truth(t.args[0]) == -1
			}
			if declined {
				return
			}
			for _, t := range tagsNamed(st.may, "dirty") {
				c.Ob(false, "saved", name+" "+t.args[0].String(), pos, "%s may report success without having saved what it changed in %s", name, t.args[0])
			}
			c.Ob(true, "saved", name, pos, "")
			if saves && !loads {
				c.Ob(len(tagsNamed(st.must, "saved")) > 0, "saved", name+" new", pos, "%s may report success without having saved the store it made", name)
			}
		},
	})
	e.Run(fn, nil)
}

// mainExit: a failed command makes the program fail.
func (c *Ctx) mainExit() {
	fn := c.fn(cmdRel, "main")
	if fn == nil {
		return
	}
	e := c.NewEngine(Hooks{
		Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			if cl.std("os.Exit") {
				n, ok := cl.Args[0].intVal()
				c.Ob(ok && (n != 0 || !st.mayTag(mkTag("failed"))), "exit", "main status", cl.Pos, "the program may end with a success status although the command failed")
			}
			if strings.HasSuffix(cl.Name, "App).Run") || strings.HasSuffix(cl.Name, "App).RunContext") {
				return fallible(e, st, cl, func(st *State, res []*Term) { st.tag(mkTag("ran")) }, func(st *State, res []*Term) { st.tag(mkTag("failed")) }), true
			}
			return nil, false
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth == 0 {
				c.Ob(st.hasTag(mkTag("ran")) && !st.mayTag(mkTag("failed")), "exit", "main", pos, "the program may end with a success status although the command failed")
			}
		},
	})
	e.Run(fn, nil)
}
