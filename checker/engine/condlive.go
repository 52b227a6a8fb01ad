package engine

import (
	"encoding/binary"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// switches marks the registers which are compared with constants, or branched
// on: their values may make parts of the function unreachable.
func (fi *FnInfo) findSwitches() {
	fi.switches = newBitset(fi.NRegs + 1)
	mark := func(v ssa.Value) {
		if i, ok := fi.Idx[v]; ok {
			fi.switches.set(i)
		}
	}
	for _, b := range fi.Fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.If:
				mark(in.Cond)
			case *ssa.UnOp:
				if in.Op == token.NOT {
					mark(in.X)
				}
			case *ssa.BinOp:
				switch in.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					if _, ok := in.Y.(*ssa.Const); ok {
						mark(in.X)
					}
					if _, ok := in.X.(*ssa.Const); ok {
						mark(in.Y)
					}
				}
			}
		}
	}
	// through phis
	for ch := true; ch; {
		ch = false
		for _, b := range fi.Fn.Blocks {
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !fi.switches.has(fi.Idx[phi]) {
					continue
				}
				for _, x := range phi.Edges {
					if i, ok := fi.Idx[x]; ok && !fi.switches.has(i) {
						fi.switches.set(i)
						ch = true
					}
				}
			}
		}
	}
}

type latVal struct {
	k uint8 // 0 not executed, 1 constant, 2 anything
	v Val
}

// condLive returns the registers which are live at the start of block b (after
// its phis), given the constants of the frame.
func (e *Eng) condLive(fr *Frame, b *ssa.BasicBlock) bitset {
	fi := fr.Fi
	if fi.switches == nil {
		fi.findSwitches()
		fi.condCache = map[string]bitset{}
	}
	live := fi.LiveIn[b.Index]
	key := binary.AppendUvarint(make([]byte, 0, 32), uint64(b.Index))
	for i, v := range fr.Regs {
		if (v.K == KInt || v.K == KBool) && fi.switches.has(i) && live.has(i) {
			key = binary.AppendUvarint(key, uint64(i))
			key = append(key, byte(v.K))
			key = binary.AppendVarint(key, v.N)
		}
	}
	if len(key) <= 2 && b.Index < 1<<14 {
		return live
	}
	if r, ok := fi.condCache[string(key)]; ok {
		return r
	}
	r := e.computeCondLive(fr, b)
	fi.condCache[string(key)] = r
	return r
}

func (e *Eng) computeCondLive(fr *Frame, start *ssa.BasicBlock) bitset {
	fi := fr.Fi
	fn := fi.Fn
	n := len(fn.Blocks)
	val := make([]latVal, fi.NRegs)
	for i, v := range fr.Regs {
		if !fi.LiveIn[start.Index].has(i) {
			continue
		}
		if (v.K == KInt || v.K == KBool) && fi.switches.has(i) {
			val[i] = latVal{1, v}
		} else {
			val[i] = latVal{k: 2}
		}
	}
	get := func(v ssa.Value) latVal {
		if i, ok := fi.Idx[v]; ok {
			return val[i]
		}
		if c, ok := v.(*ssa.Const); ok {
			x := e.constVal(c)
			if x.K == KInt || x.K == KBool {
				return latVal{1, x}
			}
		}
		return latVal{k: 2}
	}
	meet := func(a, b latVal) latVal {
		switch {
		case a.k == 0:
			return b
		case b.k == 0:
			return a
		case a.k == 1 && b.k == 1 && a.v.K == b.v.K && a.v.N == b.v.N:
			return a
		}
		return latVal{k: 2}
	}
	exec := make([]bool, n)
	edge := map[[2]int]bool{}
	exec[start.Index] = true
	for ch := true; ch; {
		ch = false
		for _, bi := range fi.order() {
			if !exec[bi] {
				continue
			}
			b := fn.Blocks[bi]
			for _, in := range b.Instrs {
				v, isv := in.(ssa.Value)
				var r latVal
				switch in := in.(type) {
				case *ssa.Phi:
					if b == start {
						r = val[fi.Idx[in]]
					}
					for k, p := range b.Preds {
						if edge[[2]int{p.Index, bi}] {
							r = meet(r, get(in.Edges[k]))
						}
					}
				case *ssa.BinOp:
					r = latVal{k: 2}
					x, y := get(in.X), get(in.Y)
					switch in.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
						switch {
						case x.k == 0 || y.k == 0:
							r = latVal{}
						case x.k == 1 && y.k == 1 && x.v.K == KInt && y.v.K == KInt && (x.v.N >= 0 && y.v.N >= 0 || !isUnsignedT(in.X.Type())):
							c := 0
							if x.v.N < y.v.N {
								c = -1
							} else if x.v.N > y.v.N {
								c = 1
							}
							r = latVal{1, mkBool(evalCmp(in.Op, c))}
						}
					}
				case *ssa.UnOp:
					r = latVal{k: 2}
					if in.Op == token.NOT {
						r = get(in.X)
						if r.k == 1 {
							r.v = mkBool(r.v.N == 0)
						}
					}
				case *ssa.If:
					c := get(in.Cond)
					for k := 0; k < 2; k++ {
						if c.k == 2 || c.k == 1 && (c.v.N == 1) == (k == 0) {
							s := b.Succs[k].Index
							if !edge[[2]int{bi, s}] {
								edge[[2]int{bi, s}] = true
								exec[s] = true
								ch = true
							}
						}
					}
				case *ssa.Jump:
					s := b.Succs[0].Index
					if !edge[[2]int{bi, s}] {
						edge[[2]int{bi, s}] = true
						exec[s] = true
						ch = true
					}
				default:
					r = latVal{k: 2}
				}
				if isv {
					i := fi.Idx[v]
					if m := meet(val[i], r); m != val[i] {
						val[i] = m
						ch = true
					}
				}
			}
		}
	}
	// liveness over the executable part
	lin := make([]bitset, n)
	for i := range lin {
		lin[i] = newBitset(fi.NRegs + 1)
	}
	use := func(bs bitset, v ssa.Value) {
		if i, ok := fi.Idx[v]; ok {
			bs.set(i)
		}
	}
	var ops []*ssa.Value
	ord := fi.order()
	for ch := true; ch; {
		ch = false
		for oi := len(ord) - 1; oi >= 0; oi-- {
			bi := ord[oi]
			if !exec[bi] {
				continue
			}
			b := fn.Blocks[bi]
			live := newBitset(fi.NRegs + 1)
			for _, s := range b.Succs {
				if !edge[[2]int{bi, s.Index}] {
					continue
				}
				in := lin[s.Index].clone()
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					was := in.has(fi.Idx[phi])
					in.clear(fi.Idx[phi])
					if was {
						for k, p := range s.Preds {
							if p == b {
								use(live, phi.Edges[k])
							}
						}
					}
				}
				live.or(in)
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					live.clear(fi.Idx[v])
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if *o != nil {
						use(live, *o)
					}
				}
			}
			if lin[bi].or(live) {
				ch = true
			}
		}
	}
	r := lin[start.Index]
	// never more than the unconditional liveness
	for i := range r {
		r[i] &= fi.LiveIn[start.Index][i]
	}
	if rc := fn.Recover; rc != nil {
		r.or(fi.LiveIn[rc.Index])
	}
	return r
}

// order returns the block indices in topological order.
func (fi *FnInfo) order() []int {
	if fi.ord == nil {
		fi.ord = make([]int, len(fi.Fn.Blocks))
		for i := range fi.ord {
			fi.ord[i] = i
		}
		for i := 1; i < len(fi.ord); i++ {
			for k := i; k > 0 && fi.RPO[fi.ord[k]] < fi.RPO[fi.ord[k-1]]; k-- {
				fi.ord[k], fi.ord[k-1] = fi.ord[k-1], fi.ord[k]
			}
		}
	}
	return fi.ord
}
