package engine

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loop is a loop of a function.
type Loop struct {
	Head   *ssa.BasicBlock
	Blocks map[int]bool
	Depth  int
}

// FnInfo is static information about a function.
type FnInfo struct {
	Fn     *ssa.Function
	Idx    map[ssa.Value]int
	NRegs  int
	LiveIn []bitset                   // per block, including phi results
	LiveAt map[ssa.Instruction]bitset // calls: live after the call, without its result
	RPO    []int                      // block index -> order
	Loops  map[int]*Loop              // header index -> loop
	Preds  []int                      // number of predecessors

	switches  bitset
	condCache map[string]bitset
	ord       []int
}

type bitset []uint64

func newBitset(n int) bitset    { return make(bitset, (n+63)/64) }
func (b bitset) has(i int) bool { return b[i/64]&(1<<(i%64)) != 0 }
func (b bitset) set(i int)      { b[i/64] |= 1 << (i % 64) }
func (b bitset) clear(i int)    { b[i/64] &^= 1 << (i % 64) }
func (b bitset) clone() bitset  { return append(bitset(nil), b...) }
func (b bitset) or(c bitset) bool {
	ch := false
	for i := range b {
		n := b[i] | c[i]
		if n != b[i] {
			b[i] = n
			ch = true
		}
	}
	return ch
}

func newFnInfo(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{Fn: fn, Idx: map[ssa.Value]int{}, LiveAt: map[ssa.Instruction]bitset{}, Loops: map[int]*Loop{}}
	add := func(v ssa.Value) {
		fi.Idx[v] = fi.NRegs
		fi.NRegs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.rpo()
	fi.loops()
	fi.liveness()
	return fi
}

func (fi *FnInfo) succs(b *ssa.BasicBlock) []*ssa.BasicBlock { return b.Succs }

func (fi *FnInfo) rpo() {
	n := len(fi.Fn.Blocks)
	fi.RPO = make([]int, n)
	fi.Preds = make([]int, n)
	for i := range fi.RPO {
		fi.RPO[i] = n + i
	}
	seen := make([]bool, n)
	var post []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		// Visit in reverse, so that the first successor gets the lower order
		// among siblings; exits of loops come after their bodies.
		for i := 0; i < len(b.Succs); i++ {
			s := b.Succs[len(b.Succs)-1-i]
			fi.Preds[s.Index]++
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b.Index)
	}
	if n > 0 {
		dfs(fi.Fn.Blocks[0])
	}
	if r := fi.Fn.Recover; r != nil && !seen[r.Index] {
		dfs(r)
	}
	for i, b := range post {
		fi.RPO[b] = len(post) - 1 - i
	}
}

func (fi *FnInfo) loops() {
	for _, b := range fi.Fn.Blocks {
		for _, h := range b.Succs {
			back := h.Dominates(b)
			if !back {
				// An irreducible edge: treat it as a loop, too.
				if fi.RPO[h.Index] > fi.RPO[b.Index] || h == b {
					continue
				}
			}
			l := fi.Loops[h.Index]
			if l == nil {
				l = &Loop{Head: h, Blocks: map[int]bool{h.Index: true}}
				fi.Loops[h.Index] = l
			}
			var st []*ssa.BasicBlock
			if !l.Blocks[b.Index] {
				l.Blocks[b.Index] = true
				st = append(st, b)
			}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				for _, p := range x.Preds {
					if !l.Blocks[p.Index] && (h.Dominates(p) || !back) {
						l.Blocks[p.Index] = true
						st = append(st, p)
					}
				}
			}
		}
	}
	// Blocks of inner loops should be processed before the exits of the outer
	// ones; recompute an order in which loop bodies are contiguous.
	for _, l := range fi.Loops {
		for _, m := range fi.Loops {
			if m != l && m.Blocks[l.Head.Index] && len(m.Blocks) >= len(l.Blocks) {
				l.Depth++
			}
		}
	}
}

func (fi *FnInfo) liveness() {
	fn := fi.Fn
	n := len(fn.Blocks)
	fi.LiveIn = make([]bitset, n)
	for i := range fi.LiveIn {
		fi.LiveIn[i] = newBitset(fi.NRegs + 1)
	}
	use := func(bs bitset, v ssa.Value) {
		if i, ok := fi.Idx[v]; ok {
			bs.set(i)
		}
	}
	outOf := func(b *ssa.BasicBlock) bitset {
		live := newBitset(fi.NRegs + 1)
		for _, s := range b.Succs {
			in := fi.LiveIn[s.Index].clone()
			for _, ins := range s.Instrs {
				if phi, ok := ins.(*ssa.Phi); ok {
					in.clear(fi.Idx[phi])
				}
			}
			live.or(in)
			pi := -1
			for k, p := range s.Preds {
				if p == b {
					pi = k
					for _, ins := range s.Instrs {
						phi, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if fi.phiLive(s, phi) {
							use(live, phi.Edges[pi])
						}
					}
				}
			}
		}
		return live
	}
	var ops []*ssa.Value
	back := func(b *ssa.BasicBlock, record bool) bitset {
		live := outOf(b)
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			in := b.Instrs[i]
			if v, ok := in.(ssa.Value); ok {
				if _, isphi := in.(*ssa.Phi); !isphi {
					live.clear(fi.Idx[v])
				}
			}
			if record {
				switch in.(type) {
				case *ssa.Call, *ssa.RunDefers, *ssa.Panic:
					fi.LiveAt[in] = live.clone()
				}
			}
			if _, isphi := in.(*ssa.Phi); isphi {
				continue
			}
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if *o != nil {
					use(live, *o)
				}
			}
		}
		return live
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if fi.LiveIn[i].or(back(b, false)) {
				ch = true
			}
		}
	}
	for _, b := range fn.Blocks {
		back(b, true)
	}
	if rc := fn.Recover; rc != nil {
		// reachable from everywhere
		l := fi.LiveIn[rc.Index].clone()
		for i := range fi.LiveIn {
			fi.LiveIn[i].or(l)
		}
		for _, x := range fi.LiveAt {
			x.or(l)
		}
	}
}

// phiLive reports whether a phi is live at the start of its block.
func (fi *FnInfo) phiLive(b *ssa.BasicBlock, phi *ssa.Phi) bool {
	return fi.LiveIn[b.Index].has(fi.Idx[phi])
}

// sortedLoops returns the loops by header.
func (fi *FnInfo) sortedLoops() []*Loop {
	var r []*Loop
	for _, l := range fi.Loops {
		r = append(r, l)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Head.Index < r[j].Head.Index })
	return r
}

// instrPos returns the best known position of an instruction.
func instrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if p := in.Pos(); p.IsValid() {
		return p
	}
	if b := in.Block(); b != nil {
		idx := -1
		for i, x := range b.Instrs {
			if x == in {
				idx = i
			}
		}
		for i := idx; i >= 0; i-- {
			if p := b.Instrs[i].Pos(); p.IsValid() {
				return p
			}
		}
		for i := idx + 1; i >= 0 && i < len(b.Instrs); i++ {
			if p := b.Instrs[i].Pos(); p.IsValid() {
				return p
			}
		}
	}
	if f := in.Parent(); f != nil {
		return f.Pos()
	}
	return token.NoPos
}

// isBuiltinSync reports whether t is a named type of sync or sync/atomic: it is
// one opaque leaf.
func opaqueNamed(t types.Type) (*types.Named, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return n, true
	}
	return nil, false
}

// leaves returns the number of leaves of t.
func leaves(t types.Type) int64 {
	if _, ok := opaqueNamed(t); ok {
		return 1
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return 1
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			n += leaves(u.Field(i).Type())
		}
		return n
	case *types.Array:
		return u.Len() * leaves(u.Elem())
	case *types.Tuple:
		n := int64(0)
		for i := 0; i < u.Len(); i++ {
			n += leaves(u.At(i).Type())
		}
		return n
	}
	return 1
}

// fieldOff returns the leaf offset of field i of struct type t.
func fieldOff(t types.Type, i int) int64 {
	s := structOf(t)
	if s == nil {
		return 0
	}
	n := int64(0)
	for k := 0; k < i; k++ {
		n += leaves(s.Field(k).Type())
	}
	return n
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// Opaque reports whether t is one leaf for the analysis although it is a struct.
func Opaque(t types.Type) bool { _, ok := opaqueNamed(t); return ok }
