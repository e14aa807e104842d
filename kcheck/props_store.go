package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- saving and loading the key store ----

// unwrap takes a value out of the interface it was put in.
func unwrap(t *Term) *Term {
	for t != nil && t.op == OIface && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// madeBy is the call a value is a result of.
func madeBy(t *Term) (name string, args []*Term) {
	t = unwrap(t)
	if t == nil {
		return "", nil
	}
	if t.op == OCall {
		return t.name, t.args
	}
	return "", nil
}

// made is the object a constructor makes from its arguments.
func made(c *Call) *Term {
	return intern(OCall, c.short(), resType(c), c.Args...)
}

const (
	encStream = "encrypted-stream.NewEncryptedStream"
	encCipher = "encrypted-stream.NewXSalsa20Poly1305Cipher"
)

// layerMakers put a layer on the reader or writer given as first argument.
var layerMakers = []string{"compress/gzip.NewWriter", "compress/gzip.NewWriterLevel", "compress/gzip.NewReader", "encoding/gob.NewEncoder", "encoding/gob.NewDecoder",
	"bufio.NewWriter", "bufio.NewWriterSize", "bufio.NewReader", "bufio.NewReaderSize", encStream, "io.MultiWriter"}

func isLayer(name string) string {
	for _, l := range layerMakers {
		if name == l || strings.HasSuffix(name, l) {
			return l
		}
	}
	return ""
}

// layers lists the writers below (and including) w, the last is the file.
func layers(w *Term) (l []*Term, kinds []string) {
	for i := 0; i < 12; i++ {
		w = unwrap(w)
		if w == nil {
			return
		}
		l = append(l, w)
		n, args := madeBy(w)
		k := isLayer(n)
		kinds = append(kinds, k)
		if k == "" || len(args) == 0 {
			return
		}
		w = args[0]
	}
	return
}

// shortCall is the name of a called function without the domain of its package.
func (c *Call) short() string { return shortPath(c.full()) }

func shortPath(s string) string { return strings.ReplaceAll(s, "github.com/nknorg/", "") }

// fallible splits the outcomes of a call that returns an error last.
func fallible(e *Engine, st *State, c *Call, ok, bad func(st *State, res []*Term)) []CallOut {
	res := e.Result(c)
	rs := resList(res)
	er := rs[len(rs)-1]
	b := st.clone()
	b.assume(mkEq(er, mkNil()), false)
	good := append([]*Term(nil), rs...)
	good[len(rs)-1] = mkNil()
	if ok != nil {
		ok(st, good)
	}
	if bad != nil {
		bad(b, rs)
	}
	v := good[0]
	if len(good) > 1 {
		v = mkTuple(good)
	}
	return []CallOut{{St: b, Val: res}, {St: st, Val: v}}
}

// storeRun interprets Save.
type storeRun struct {
	c      *Ctx
	e      *Engine
	k      *Term
	target func(r *storeRun, st *State, c *Call, path, file *Term) // a file that exists may be replaced or removed
	stream func(r *storeRun, st *State, c *Call)                   // the encrypted stream is set up
	write  func(r *storeRun, st *State, c *Call, file *Term)       // something else gets hold of the file
	encode func(r *storeRun, st *State, c *Call, layers []*Term, kinds []string)
	decode func(r *storeRun, st *State, c *Call, layers []*Term, kinds []string)
	array  func(r *storeRun, st *State, x *Term, n int64, pos token.Pos) // a slice becomes an array
	done   func(r *storeRun, st *State, ok int, pos token.Pos)
}

func fileName(f *Term) *Term { return intern(OCall, "name of the file", types.Typ[types.String], f) }

// tempOf is the file whose name p is.
func tempOf(p *Term) *Term {
	if p.op == OCall && p.name == "name of the file" {
		return p.args[0]
	}
	return nil
}

const (
	oWronly = 1
	oRdwr   = 2
	oCreate = 0x40
	oExcl   = 0x80
	oTrunc  = 0x200
)

func (r *storeRun) path(st *State, c *Call, p, file *Term) {
	if f := tempOf(p); f != nil && st.mayTag(mkTag("temp", f)) {
		return
	}
	if r.target != nil {
		r.target(r, st, c, p, file)
	}
}

func (r *storeRun) model(e *Engine, st *State, c *Call) ([]CallOut, bool) {
	one := func(v *Term) ([]CallOut, bool) { return []CallOut{{St: st, Val: v}}, true }
	n := c.short()
	switch n {
	case "os.Stat", "os.Lstat":
		p := c.Args[0]
		return fallible(e, st, c, nil, func(b *State, rs []*Term) { b.tag(mkTag("stat", p, rs[1])) }), true
	case "errors.Is", "os.IsNotExist":
		if isNilT(st, c.Args[0]) == 1 && (n != "errors.Is" || !c.Args[1].isNil()) {
			return one(mkBool(false))
		}
		for t := range st.must {
			if t.op == OTag && t.name == "stat" && t.args[1] == c.Args[0] {
				if n == "errors.Is" && !strings.Contains(c.Args[1].String(), "ErrNotExist") {
					continue
				}
				no := st.clone()
				st.tag(mkTag("absent", t.args[0]))
				no.tag(mkTag("exists", t.args[0]))
				return []CallOut{{St: no, Val: mkBool(false)}, {St: st, Val: mkBool(true)}}, true
			}
		}
		return nil, false
	case "path/filepath.EvalSymlinks", "path/filepath.Abs":
		// another name of the same file
		res := e.Result(c)
		b := st.clone()
		rs := resList(res)
		b.assume(mkEq(rs[1], mkNil()), false)
		return []CallOut{{St: b, Val: res}, {St: st, Val: mkTuple([]*Term{c.Args[0], mkNil()})}}, true
	case "path/filepath.Clean":
		return one(c.Args[0])
	case "os.CreateTemp":
		return fallible(e, st, c, func(s *State, rs []*Term) {
			s.assume(mkEq(rs[0], mkNil()), false)
			s.tag(mkTag("temp", rs[0]))
			s.tag(mkTag("opened", rs[0]))
		}, nil), true
	case "os.Create", "os.OpenFile":
		fl := int64(oTrunc | oCreate | oRdwr)
		if n == "os.OpenFile" {
			if v, ok := c.Args[1].intVal(); ok {
				fl = v
			}
		}
		if fl&(oWronly|oRdwr|oTrunc|oCreate) != 0 && fl&oExcl == 0 {
			r.path(st, c, c.Args[0], nil)
		}
		p := c.Args[0]
		return fallible(e, st, c, func(s *State, rs []*Term) {
			s.assume(mkEq(rs[0], mkNil()), false)
			s.tag(mkTag("opened", rs[0]))
			if fl&oExcl != 0 {
				s.tag(mkTag("temp", rs[0]))
				s.tag(mkTag("at", rs[0], p))
			}
		}, nil), true
	case "os.WriteFile", "io/ioutil.WriteFile", "os.Truncate", "os.RemoveAll", "os.Symlink", "os.Link":
		p := c.Args[0]
		if n == "os.Symlink" || n == "os.Link" {
			p = c.Args[1]
		}
		r.path(st, c, p, nil)
		return fallible(e, st, c, nil, nil), true
	case "os.Remove":
		if f := tempOf(c.Args[0]); f != nil && st.mayTag(mkTag("temp", f)) {
			st.tag(mkTag("removed", f))
			return one(e.Result(c))
		}
		r.path(st, c, c.Args[0], nil)
		return one(e.Result(c))
	case "os.Rename":
		f := tempOf(c.Args[0])
		if f == nil {
			r.path(st, c, c.Args[0], nil)
		}
		r.path(st, c, c.Args[1], f)
		return fallible(e, st, c, func(s *State, rs []*Term) {
			if f != nil {
				s.tag(mkTag("renamed", f))
			}
		}, nil), true
	case "(*os.File).Name":
		return one(fileName(c.Args[0]))
	case "(*os.File).Sync":
		f := c.Args[0]
		return fallible(e, st, c, func(s *State, rs []*Term) {
			if s.hasTag(mkTag("flushed", f)) {
				s.tag(mkTag("synced", f))
			}
		}, nil), true
	case "(*os.File).Close", "(*encrypted-stream.EncryptedStream).Close":
		ls, _ := layers(c.Args[0])
		f := ls[len(ls)-1]
		return fallible(e, st, c, func(s *State, rs []*Term) {
			s.tag(mkTag("closed", ls[0]))
			r.flushed(s, f)
			s.tag(mkTag("shut", f))
		}, nil), true
	case "(*compress/gzip.Writer).Close", "(*bufio.Writer).Flush":
		ls, _ := layers(c.Args[0])
		f := ls[len(ls)-1]
		// closing an outer layer writes to the one below
		for t := range st.must {
			if t.op == OTag && t.name == "closed" && containsTerm(ls[1:], t.args[0]) && len(ls) > 1 && t.args[0] != f {
				st.tag(mkTag("order", f))
			}
		}
		return fallible(e, st, c, func(s *State, rs []*Term) {
			s.tag(mkTag("closed", ls[0]))
			r.flushed(s, f)
		}, nil), true
	case "(*encoding/gob.Decoder).Decode":
		ls, kinds := layers(c.Args[0])
		if r.decode != nil {
			r.decode(r, st, c, ls, kinds)
		}
		if p := unwrap(c.Args[1]); p != nil {
			e.havocArg(st, p, 3)
		}
		return fallible(e, st, c, func(s *State, rs []*Term) { s.tag(mkTag("decoded")) }, nil), true
	case "(*encoding/gob.Encoder).Encode":
		ls, kinds := layers(c.Args[0])
		f := ls[len(ls)-1]
		if r.encode != nil {
			r.encode(r, st, c, ls, kinds)
		}
		for _, t := range []string{"flushed", "synced", "shut"} {
			setTag(st, mkTag(t, f), false)
		}
		return fallible(e, st, c, func(s *State, rs []*Term) {
			s.tag(mkTag("encoded", f))
			for i, l := range ls {
				if i < len(ls)-1 && kinds[i] != "encoding/gob.NewEncoder" && kinds[i] != encStream {
					s.tag(mkTag("buffers", f, l))
				}
			}
			r.flushed(s, f)
		}, nil), true
	}
	if strings.HasSuffix(n, encStream) && r.stream != nil {
		r.stream(r, st, c)
	}
	if isLayer(n) != "" || strings.HasSuffix(n, encCipher) {
		m := made(c)
		st.assume(mkEq(m, mkNil()), false)
		if c.Fn != nil && c.Fn.Signature.Results().Len() == 2 {
			return fallible(e, st, c, func(s *State, rs []*Term) { rs[0] = m }, nil), true
		}
		return one(m)
	}
	if strings.Contains(n, "survey") && strings.HasSuffix(n, ".AskOne") {
		outs := fallible(e, st, c, func(s *State, rs []*Term) {
			p := unwrap(c.Args[1])
			if t := pointee(p); t != nil {
				v := e.newSym(e.curFr, OSym, c.Site, "answer", t, &SymInfo{Kind: "call", What: "the answer of the user"})
				s.store(p, v, t)
				s.tag(mkTag("answer", v))
			}
		}, nil)
		return outs, true
	}
	// anything else that gets the open file
	for _, a := range c.Args {
		a = unwrap(a)
		if a != nil && st.mayTag(mkTag("opened", a)) && r.write != nil {
			switch n {
			case "(*os.File).Stat", "(*os.File).Chmod", "(*os.File).Fd", "(*os.File).Chown":
			default:
				if c.Fn == nil || !r.c.P.InModule(c.Fn) {
					r.write(r, st, c, a)
				}
			}
		}
	}
	return nil, false
}

// flushed tags the file when every buffering layer above it has been closed.
func (r *storeRun) flushed(s *State, f *Term) {
	if !s.hasTag(mkTag("encoded", f)) || s.mayTag(mkTag("order", f)) {
		return
	}
	for t := range s.may {
		if t.op == OTag && t.name == "buffers" && t.args[0] == f && !s.hasTag(mkTag("closed", t.args[1])) {
			return
		}
	}
	s.tag(mkTag("flushed", f))
}

var storeCalls = map[string]bool{}

func storeRel(f *ssa.Function) bool {
	n := shortPath(f.String())
	if isLayer(n) != "" || strings.HasSuffix(n, encCipher) || strings.Contains(n, "survey") {
		return true
	}
	switch n {
	case "os.Stat", "os.Lstat", "os.CreateTemp", "os.Create", "os.OpenFile", "os.Open", "os.WriteFile", "io/ioutil.WriteFile", "os.Truncate", "os.RemoveAll", "os.Remove", "os.Rename", "os.Link", "os.Symlink",
		"(*os.File).Name", "(*os.File).Sync", "(*os.File).Close", "(*compress/gzip.Writer).Close", "(*bufio.Writer).Flush", "(*encoding/gob.Encoder).Encode", "(*encoding/gob.Decoder).Decode", "(*encrypted-stream.EncryptedStream).Close":
		return true
	}
	return false
}

func (r *storeRun) run() { r.runFn("Krypto431.Save") }

func (r *storeRun) runFn(name string) {
	fn := r.c.fn("", name)
	if fn == nil {
		return
	}
	r.e = r.c.NewEngine(Hooks{
		Ess:    essAll,
		Call:   r.model,
		EssTag: func(t *Term) bool { return t.name == "absent" || t.name == "allowed" || t.name == "answer" },
		EssCell: func(a *Term) bool {
			t := pointee(a)
			if t != nil {
				if q, ok := t.Underlying().(*types.Pointer); ok {
					t = q.Elem()
				}
			}
			return t != nil && elemType(t) != nil && types.Identical(elemType(t), types.Typ[types.Byte])
		},
		Assume: func(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
			for cond.op == ONot {
				cond, v = cond.args[0], !v
			}
			a := fieldOf(r.k, "overwritePersistenceIfExists")
			if a != nil && cond == e.readAt(st, a) && v || st.hasTag(mkTag("answer", cond)) && v {
				st.tag(mkTag("allowed"))
			}
		},
		ToArray: func(e *Engine, st *State, x *Term, n int64, in ssa.Instruction) {
			if r.array != nil {
				r.array(r, st, x, n, in.Pos())
			}
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos tokenPos) {
			if depth == 0 && r.done != nil {
				r.done(r, st, succeeds(st, f, vals), pos)
			}
		},
	})
	auto := r.e.AutoOpaque(func(k string) bool {
		return strings.Contains(k, "overwritePersistence") || strings.HasSuffix(k, "#instance")
	}, storeRel, nil)
	r.e.h.Opaque = auto
	r.e.Run(fn, func(st *State, args []*Term) { r.k = args[0] })
}

func init() {
	register(&Check{ID: "C14", Run: checkC14, Explain: "Typestate analysis of saving over all paths of the abstract interpretation (callees inlined, every fallible library call split into success and failure). A file goes through opened, encoded, flushed (all buffering layers closed without error, in order), synced, put in place. Rules: nothing replaces, truncates or removes an existing file except a rename from a temporary file that is encoded, flushed and synced; a successful return implies the rename succeeded and the file was closed without error; every failing return after the temporary file was made removes it.",
		Assume: []string{"rename within a directory is atomic", "the library layers write everything when their Close returns nil"}})
	register(&Check{ID: "C15", Run: checkC15, Explain: "Path-sensitive abstract interpretation of saving. Rule: where an existing store may be replaced, the path condition implies that the file was found absent, or that overwriting is allowed in the instance, or that the user answered a question with yes. Every place in the module that allows overwriting is enumerated: only the option of the caller and a load that succeeds may.",
		Assume: []string{"nobody creates the file between the test and the rename"}})
	register(&Check{ID: "C13", Run: checkC13, Explain: "Abstract interpretation of saving and loading, and a comparison of what they do. Rules: both work on the whole instance through the same stack of layers, with the same cipher and key and opposite roles; a successful load has decoded the file and, for every key and message (proved for all elements), made this instance its owner; the data fields of instances, keys and messages are exported, as only these are serialised.",
		Assume: []string{"gob writes and restores all exported fields"}})
	register(&Check{ID: "C12", Run: checkC12, Explain: "Abstract interpretation of saving and a whole-module scan. Rules: the value that is serialised is only ever written through an XSalsa20-Poly1305 stream keyed with the persistence key of the instance, with random nonces, that sits directly on the file; no other code gets the open file for writing; the serialiser is used nowhere else; the persistence key and the salt are not part of the serialised state; the key is 32 bytes long where it is used.",
		Assume: []string{"the encrypted-stream library encrypts what is written to it"}})
}

// stack is what a stream of data goes through, in words.
func stack(kinds []string) string {
	var l []string
	for _, k := range kinds {
		switch k {
		case "":
		case "bufio.NewWriter", "bufio.NewReader", "bufio.NewWriterSize", "bufio.NewReaderSize":
		case encStream:
			l = append(l, "encryption")
		case "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel", "compress/gzip.NewReader":
			l = append(l, "gzip")
		case "encoding/gob.NewEncoder", "encoding/gob.NewDecoder":
			l = append(l, "gob")
		default:
			l = append(l, k)
		}
	}
	return strings.Join(l, " over ")
}

// storedFields are the data of a store; a field that is not exported is not saved.
var storedFields = map[string][]string{
	"Krypto431": {"GroupSize", "KeyLength", "Columns", "KeyColumns", "Keys", "Messages", "CallSign"},
	"Key":       {"Id", "Runes", "Keepers", "Created", "Expires", "Used", "Compromised", "Comment"},
	"Message":   {"Id", "DTG", "From", "Recipients", "PlainText", "Binary", "CipherText", "KeyId", "Radiogram"},
}

func checkC13(c *Ctx) {
	var saved, loaded map[string]bool
	saved, loaded = map[string]bool{}, map[string]bool{}
	var init [2]map[int]bool
	init[0], init[1] = map[int]bool{}, map[int]bool{}
	side := func(i int, m map[string]bool) *storeRun {
		r := &storeRun{c: c}
		r.stream = func(r *storeRun, st *State, cl *Call) {
			streamConfig(c, r.e, st, r.k, cl, init[i])
		}
		r.array = r.pfk
		f := func(r *storeRun, st *State, cl *Call, ls []*Term, kinds []string) {
			m[stack(kinds)] = true
			c.Ob(unwrap(cl.Args[1]) == r.k, "whole-store", cl.short(), cl.Pos, "%s works on %s, not on the instance", cl.short(), cl.Args[1])
			if i == 0 {
				// the file that is read is the one that is written
				c.Ob(st.hasTag(mkTag("opened", ls[len(ls)-1])), "on-file", cl.short(), cl.Pos, "the store does not go to the file")
			}
		}
		r.encode, r.decode = f, f
		return r
	}
	rs := side(0, saved)
	rs.run()
	rl := side(1, loaded)
	rl.done = func(r *storeRun, st *State, ok int, pos token.Pos) {
		if ok == -1 {
			return
		}
		c.Ob(st.hasTag(mkTag("decoded")), "load-decodes", "Decode", pos, "loading succeeds without having decoded the file")
		for _, l := range []string{"Keys", "Messages"} {
			a := fieldOf(r.k, l)
			v := r.e.readAt(st, a)
			good := false
			if v != nil {
				et := elemType(pointee(a))
				ix := mkIndexRaw(v, mkAll(""), types.NewPointer(et))
				if f := fieldOf(ix, "instance"); f != nil {
					good = r.e.readAt(st, f) == r.k || isZeroLen(st, v)
				}
			}
			c.Ob(good, "relinked", l, pos, "after loading, not all of the %s belong to the instance", l)
		}
	}
	rl.runFn("Krypto431.Load")
	c.Need("whole-store", 2)
	c.Need("relinked", 2)
	c.Need("load-decodes", 1)
	c.Ob(len(saved) == 1 && len(loaded) == 1 && mapKey(saved) == mapKey(loaded), "same-layers", "layers", c.fn("", "Krypto431.Load").Pos(), "the store is written as %s and read as %s", mapKey(saved), mapKey(loaded))
	c.Ob(len(init[0]) == 1 && len(init[1]) == 1 && (init[0][1] && init[1][-1] || init[0][-1] && init[1][1]), "opposite-roles", "Initiator", c.fn("", "Krypto431.Load").Pos(), "exactly one of saving and loading must be the initiator of the stream")
	for t, fs := range storedFields {
		n, s := c.P.Struct("", t)
		if n == nil {
			continue
		}
		for _, f := range fs {
			i := fieldIndex(s, f)
			c.Ob(i >= 0 && s.Field(i).Exported(), "field-saved", t+"."+f, n.Obj().Pos(), "the field %s of %s is not part of the saved store", f, t)
		}
	}
}

func mapKey(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// pfk tags the value of the persistence key that is made an array.
func (r *storeRun) pfk(_ *storeRun, st *State, x *Term, n int64, pos token.Pos) {
	if pk := r.e.readAt(st, fieldOf(r.k, "persistenceKey")); pk != nil && r.e.readAt(st, pk) == x {
		st.tag(mkTag("pfk", x))
	}
}

func checkC14(c *Ctx) {
	r := &storeRun{c: c}
	r.target = func(r *storeRun, st *State, cl *Call, path, f *Term) {
		if f == nil {
			c.Ob(false, "replace-complete", "direct", cl.Pos, "%s may destroy the existing store %s before a complete new one is in place", cl.short(), path)
			return
		}
		for _, t := range []struct{ tag, text string }{{"encoded", "written"}, {"flushed", "flushed (all layers closed, in order, without error)"}, {"synced", "on disk (synced without error after the last write)"}} {
			c.Ob(st.hasTag(mkTag(t.tag, f)), "replace-complete", t.tag, cl.Pos, "the store is replaced by a file that may not be completely %s", t.text)
		}
	}
	r.done = func(r *storeRun, st *State, ok int, pos token.Pos) {
		if ok != -1 {
			n := 0
			for _, t := range tagsNamed(st.may, "opened") {
				f := t.args[0]
				n++
				c.Ob(st.hasTag(mkTag("renamed", f)), "success-in-place", "renamed", pos, "saving reports success although the new file may not have been put in place")
				c.Ob(st.hasTag(mkTag("shut", f)), "success-in-place", "closed", pos, "saving reports success although closing the file may have failed")
				c.Ob(st.hasTag(mkTag("encoded", f)), "success-in-place", "encoded", pos, "saving reports success although nothing may have been written")
			}
			c.Ob(n > 0, "success-in-place", "nothing", pos, "saving reports success without having written a file")
		}
		if ok != 1 {
			for _, t := range tagsNamed(st.may, "temp") {
				f := t.args[0]
				c.Ob(st.hasTag(mkTag("removed", f)) || st.hasTag(mkTag("renamed", f)), "no-leftover", "temp", pos, "saving fails but may leave its temporary file behind")
			}
		}
	}
	r.run()
	c.Need("replace-complete", 3)
	c.Need("success-in-place", 3)
	c.Need("no-leftover", 4)
}

func checkC15(c *Ctx) {
	r := &storeRun{c: c}
	r.target = func(r *storeRun, st *State, cl *Call, path, f *Term) {
		ok := st.hasTag(mkTag("allowed")) || st.hasTag(mkTag("absent", path))
		c.Ob(ok, "consent", "Save", cl.Pos, "an existing store may be replaced although overwriting was neither allowed nor confirmed")
	}
	r.run()
	c.Need("consent", 3)
	allowScan(c)
}

// allowScan finds every place that allows overwriting.
func allowScan(c *Ctx) {
	n, idx := c.P.Struct("", "Krypto431")
	if n == nil {
		return
	}
	i := fieldIndex(idx, "overwritePersistenceIfExists")
	if !c.Ob(i >= 0, "allow-overwrite", "field", token.NoPos, "the overwrite switch of the instance was not found") {
		return
	}
	load := c.fn("", "Krypto431.Load")
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != i || namedOf(fa.X.Type()) != n {
					continue
				}
				c.count("stores_to_the_overwrite_switch", 1)
				if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "false" {
					continue
				}
				if optionValue(s.Val) {
					c.Ob(true, "allow-overwrite", "option", s.Pos(), "")
					continue
				}
				in := load != nil && (f == load || c.P.reaches(load, f))
				c.Ob(in, "allow-overwrite", "store:"+f.Name(), s.Pos(), "%s allows overwriting the store without being asked to", f.Name())
			}
		}
	}
	c.Need("allow-overwrite", 2)
	if load == nil {
		return
	}
	// a failed load does not allow it
	var k *Term
	lr := &storeRun{c: c}
	e := c.NewEngine(Hooks{Ess: essAll,
		Call: lr.model,
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos tokenPos) {
			if depth != 0 || succeeds(st, f, vals) == 1 {
				return
			}
			a := fieldOf(k, "overwritePersistenceIfExists")
			v := e.readAt(st, a)
			c.Ob(v == mkInit(a, pointee(a)), "failed-load", "Load", pos, "loading fails but may have allowed the store to be overwritten")
		}})
	e.h.Opaque = e.AutoOpaque(func(k string) bool { return strings.Contains(k, "overwritePersistence") }, storeRel, nil)
	e.Run(load, func(st *State, args []*Term) { k = args[0] })
	c.Need("failed-load", 3)
}

// optionValue: the value is given by the caller of an option function.
func optionValue(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.FreeVar, *ssa.Parameter:
		return true
	case *ssa.UnOp:
		return v.Op == token.MUL && optionValue(v.X)
	}
	return false
}

func checkC12(c *Ctx) {
	enc := map[int]bool{}
	r := &storeRun{c: c}
	n := 0
	r.stream = func(r *storeRun, st *State, cl *Call) {
		n++
		f := unwrap(cl.Args[0])
		c.Ob(st.hasTag(mkTag("opened", f)), "stream-on-file", "file", cl.Pos, "the encrypted stream does not write to the file that is saved")
		streamConfig(c, r.e, st, r.k, cl, enc)
	}
	r.encode = func(r *storeRun, st *State, cl *Call, ls []*Term, kinds []string) {
		ok := len(kinds) >= 2 && kinds[len(kinds)-2] == encStream
		c.Ob(ok, "serialised-encrypted", "Encode", cl.Pos, "the store is serialised to %s, which is not an encrypted stream", ls[len(ls)-1])
	}
	r.array = func(r *storeRun, st *State, x *Term, n int64, pos token.Pos) {
		r.pfk(r, st, x, n, pos)
		c.Ob(n == 32 && st.truth(mkEqInt(mkLen(x), mkInt(32))) == 1, "key-length", "32", pos, "the length of the persistence key is not checked before it is used")
	}
	r.write = func(r *storeRun, st *State, cl *Call, f *Term) {
		c.Ob(false, "no-other-writer", "write", cl.Pos, "%s gets the file of the store without encryption", cl.short())
	}
	r.run()
	c.Need("stream-on-file", 1)
	c.Need("serialised-encrypted", 1)
	c.Need("key-length", 1)
	save := c.fn("", "Krypto431.Save")
	if save == nil {
		return
	}
	// nobody else serialises
	c.P.eachCall(func(in ssa.CallInstruction, f *ssa.Function, name string) {
		s := shortPath(name)
		switch {
		case strings.HasSuffix(s, "gob.NewEncoder"), strings.HasSuffix(s, "json.NewEncoder"), strings.HasSuffix(s, "json.Marshal"), strings.HasSuffix(s, "json.MarshalIndent"), strings.HasSuffix(s, "xml.Marshal"):
			c.Ob(f == save || c.P.reaches(save, f), "one-serialiser", f.Name(), in.Pos(), "%s serialises data outside saving the store", f.Name())
		}
	})
	c.Need("one-serialiser", 1)
	// the persistence key and the salt stay out of the serialised state
	k, ks := c.P.Struct("", "Krypto431")
	for i := 0; k != nil && i < ks.NumFields(); i++ {
		fl := ks.Field(i)
		p, ok := fl.Type().Underlying().(*types.Pointer)
		if ok && elemType(p.Elem()) != nil && types.Identical(elemType(p.Elem()), types.Typ[types.Byte]) || fl.Name() == "persistenceKey" || fl.Name() == "salt" {
			c.Ob(!fl.Exported(), "secret-not-serialised", fl.Name(), fl.Pos(), "the secret field %s is exported and becomes part of the serialised store", fl.Name())
		}
	}
	c.Need("secret-not-serialised", 2)
	for _, t := range []string{"Krypto431", "Key", "Message"} {
		nt, _ := c.P.Struct("", t)
		if nt == nil {
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(nt))
		for _, m := range []string{"GobEncode", "MarshalBinary", "MarshalJSON", "MarshalText"} {
			c.Ob(ms.Lookup(nt.Obj().Pkg(), m) == nil, "secret-not-serialised", t+"."+m, nt.Obj().Pos(), "%s has its own %s, the analysis does not know what it writes", t, m)
		}
	}
}

// streamConfig checks the cipher of an encrypted stream.
func streamConfig(c *Ctx, e *Engine, st *State, k *Term, cl *Call, role map[int]bool) {
	cfg := cl.Args[1]
	get := func(f string) *Term {
		a := fieldOf(cfg, f)
		if a == nil {
			return nil
		}
		return e.readAt(st, a)
	}
	ci := get("Cipher")
	name, args := "", []*Term(nil)
	if ci != nil {
		name, args = madeBy(ci)
	}
	if c.Ob(strings.HasSuffix(name, encCipher), "cipher", "XSalsa20Poly1305", cl.Pos, "the stream is not encrypted with XSalsa20-Poly1305 (%v)", ci) && len(args) > 0 {
		key := args[0]
		ok := false
		if key.op == OCall && key.name == "arrayptr" {
			src := key.args[0]
			ok = st.hasTag(mkTag("pfk", src))
		}
		c.Ob(ok, "keyed-with-pfk", "key", cl.Pos, "the stream is not keyed with the persistence key of the instance (%s)", key)
	}
	sq := get("SequentialNonce")
	c.Ob(sq != nil && st.truth(sq) == -1, "random-nonce", "nonce", cl.Pos, "the nonces of the stream may be sequential, which leaks the key as it is the same for every save")
	nv := get("DisableNonceVerification")
	c.Ob(nv != nil && st.truth(nv) == -1, "random-nonce", "verification", cl.Pos, "the verification of the nonces is switched off")
	in := get("Initiator")
	if in != nil {
		role[st.truth(in)] = true
	}
}
