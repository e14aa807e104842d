package main

import (
	"go/constant"

	"golang.org/x/tools/go/ssa"
)

func stringConst(s string) constant.Value { return constant.MakeString(s) }

// loop is a natural loop of a function.
type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	fn      *ssa.Function
	rpo     []*ssa.BasicBlock
	loops   map[*ssa.BasicBlock]*loop
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	liveL   map[*ssa.BasicBlock][]ssa.Value
	instrID map[ssa.Instruction]int
}

func newFnInfo(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, loops: map[*ssa.BasicBlock]*loop{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{},
		liveL: map[*ssa.BasicBlock][]ssa.Value{}, instrID: map[ssa.Instruction]int{}}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fi.instrID[in] = n
			n++
		}
	}
	// reverse post-order
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	// natural loops
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	interesting := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for _, b := range fi.rpo {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if *op != nil && interesting(*op) && !d[*op] {
						u[*op] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		fi.liveIn[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			in := fi.liveIn[b]
			n := len(in)
			for v := range use[b] {
				in[v] = true
			}
			for _, s := range b.Succs {
				pi := -1
				for i, p := range s.Preds {
					if p == b {
						pi = i
					}
				}
				for v := range fi.liveIn[s] {
					if !def[b][v] {
						if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
							continue
						}
						in[v] = true
					}
				}
				for _, x := range s.Instrs {
					ph, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					v := ph.Edges[pi]
					if interesting(v) && !def[b][v] {
						in[v] = true
					}
				}
			}
			// phis of b are defined on entry, so they count as live-in values here
			for _, x := range b.Instrs {
				if ph, ok := x.(*ssa.Phi); ok {
					in[ph] = true
				}
			}
			if len(in) != n {
				changed = true
			}
		}
	}
	order := map[ssa.Value]int{}
	k := 0
	for _, p := range fn.Params {
		order[p] = k
		k++
	}
	for _, p := range fn.FreeVars {
		order[p] = k
		k++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				order[v] = k
				k++
			}
		}
	}
	for _, b := range fi.rpo {
		var l []ssa.Value
		for v := range fi.liveIn[b] {
			l = append(l, v)
		}
		sortVals(l, order)
		fi.liveL[b] = l
	}
	return fi
}

func sortVals(l []ssa.Value, order map[ssa.Value]int) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && order[l[j]] < order[l[j-1]]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}
