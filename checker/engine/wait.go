package engine

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// edgeObs summarises one traversal of a back edge. Variable i of the loop (a
// phi of the loop header or a small local variable) has the bits 2i (moves up)
// and 2i+1 (moves down).
type edgeObs struct {
	strict uint64 // moved strictly since the loop header
	bad    uint64 // may have moved the other way
	casF   bool   // a compare-and-swap failed: another operation made progress
	held   bool   // a lock other than that of the own removed node is held
}

const maxCount = 1 << 16

// anchorCells returns the contents of local variables which live in memory.
// The number of results depends on the loop only.
func (e *Eng) anchorCells(st *State, l *Loop) []Val {
	fr := st.top()
	var out []Val
	add := func(v ssa.Value) {
		r, ok := fr.Fi.Idx[v]
		if !ok || !fr.Fi.LiveIn[l.Head.Index].has(r) {
			return
		}
		n := leaves(deref(v.Type()))
		if n > 2 {
			return
		}
		p := fr.Regs[r]
		for i := int64(0); i < n; i++ {
			var c Val
			if p.K == KPtr && p.A != 0 && st.Objs[p.A].Kind == OAlloc && p.N+i < int64(len(st.Objs[p.A].Cells)) {
				c = st.Objs[p.A].Cells[p.N+i]
			}
			out = append(out, c)
		}
	}
	for _, v := range fr.Fi.Fn.FreeVars {
		if isPtrT(v.Type()) {
			add(v)
		}
	}
	for _, v := range fr.Fi.Fn.Params {
		if isPtrT(v.Type()) {
			add(v)
		}
	}
	for _, b := range fr.Fi.Fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok {
				add(a)
			}
		}
	}
	return out
}

// backEdge compares the loop variables with those at the last visit of the
// loop header.
func (w *worker) backEdge(st *State, from *ssa.BasicBlock, l *Loop) (ob edgeObs, ok bool) {
	e := w.e
	fr := st.top()
	var an *Anchor
	for i := len(fr.Anch) - 1; i >= 0; i-- {
		if fr.Anch[i].Head == l {
			an = &fr.Anch[i]
			break
		}
	}
	if an == nil {
		return ob, false
	}
	var cur []Val
	for _, in := range l.Head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		cur = append(cur, fr.Regs[w.fi.Idx[phi]])
	}
	cur = append(cur, e.anchorCells(st, l)...)
	for i := range cur {
		if i >= 31 || i >= len(an.Vals) {
			break
		}
		up, down := uint64(1)<<(2*i), uint64(2)<<(2*i)
		d := st.progress(an.Vals[i], cur[i])
		switch d {
		case 2:
			ob.strict |= up
			ob.bad |= down
		case 1:
			ob.bad |= down
		case -1:
			ob.bad |= up
		case -2:
			ob.strict |= down
			ob.bad |= up
		case 0:
		default:
			ob.bad |= up | down
		}
	}
	ob.casF = an.CasF
	for i := range st.Objs {
		o := &st.Objs[i]
		if (o.Held == HHeld || o.Held == HUnless) && int32(i) != st.G.V {
			ob.held = true
		}
	}
	if e.mute {
		return ob, true
	}
	lo := e.loopObs[l]
	if lo == nil {
		lo = &loopObs{loop: l, fi: w.fi, edges: map[edgeObs]*Finding{}}
		e.loopObs[l] = lo
	}
	if _, ok := lo.edges[ob]; !ok {
		lo.edges[ob] = e.finding(st, lastInstr(from), "", "")
	}
	return ob, true
}

func lastInstr(b *ssa.BasicBlock) ssa.Instruction {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if instrPos(b.Instrs[i]).IsValid() {
			return b.Instrs[i]
		}
	}
	return b.Instrs[len(b.Instrs)-1]
}

// progress compares two values of a variable: 2 greater, 1 not smaller, 0
// equal, -1 not greater, -2 smaller, 9 unknown. Integers count as strict only
// within bounds.
func (st *State) progress(a, b Val) int {
	if a.K == KBool && b.K == KBool {
		switch {
		case a.N == b.N:
			return 0
		case a.N < b.N:
			return 2
		}
		return -2
	}
	if (a.K == KInt || a.K == KIVar) && (b.K == KInt || b.K == KIVar) {
		alo, ahi, _ := st.ival(a)
		blo, bhi, _ := st.ival(b)
		if a.K == KIVar && b.K == KIVar && a.A == b.A {
			switch {
			case a.N == b.N:
				return 0
			case b.N > a.N && bhi <= maxCount:
				return 2
			case b.N > a.N:
				return 1
			case blo >= -maxCount:
				return -2
			}
			return -1
		}
		switch {
		case alo == ahi && blo == bhi && alo == blo:
			return 0
		case blo > ahi && bhi <= maxCount:
			return 2
		case blo >= ahi:
			return 1
		case bhi < alo && blo >= -maxCount:
			return -2
		case bhi <= alo:
			return -1
		}
		return 9
	}
	if a.K == KPtr && b.K == KPtr && a.N == b.N {
		if a.A == b.A {
			return 0
		}
		na, nb := st.Objs[a.A].Kind, st.Objs[b.A].Kind
		if (a.A == 0 || isNodeKind(na)) && (b.A == 0 || isNodeKind(nb)) {
			switch {
			case st.lt(a.A, b.A):
				return 2
			case st.rel(a.A, b.A)&RPLE != 0:
				return 1
			case st.lt(b.A, a.A):
				return -2
			case st.rel(b.A, a.A)&RPLE != 0:
				return -1
			}
		}
		return 9
	}
	if a.K == b.K && a.A == b.A && a.N == b.N && a.X == b.X {
		return 0
	}
	return 9
}

// loopPost evaluates the observations of all loops of one operation.
func (e *Eng) loopPost() {
	waitFree := e.waitFree()
	var ls []*loopObs
	for _, lo := range e.loopObs {
		ls = append(ls, lo)
	}
	sort.Slice(ls, func(i, j int) bool {
		a, b := ls[i], ls[j]
		if a.fi.Fn != b.fi.Fn {
			return a.fi.Fn.Pos() < b.fi.Fn.Pos()
		}
		return a.loop.Head.Index < b.loop.Head.Index
	})
	for _, lo := range ls {
		var bad uint64
		for ob := range lo.edges {
			bad |= ob.bad
		}
		for ob, f := range lo.edges {
			ok := ob.strict&^bad != 0
			if waitFree {
				e.Obl["wait-free"]++
				if !ok {
					g := *f
					g.Rule = "wait-free"
					g.Msg = "a loop may repeat without moving forward: it waits for other goroutines"
					e.addFinding(&g)
				}
			}
			e.Obl["wait-holding"]++
			if !ok && !ob.casF && ob.held {
				g := *f
				g.Rule = "wait-holding"
				g.Msg = "a loop repeats without moving forward while locks are held which others may need"
				e.addFinding(&g)
			}
		}
	}
	e.loopObs = map[*Loop]*loopObs{}
}

func (e *Eng) waitFree() bool { return e.Mode == "Load" || e.Mode == "Range" || e.Mode == "Len" }

func (e *Eng) addFinding(f *Finding) {
	k := f.Rule + "|" + f.Func + "|" + f.Pos.String() + "|" + f.Msg
	if _, ok := e.Findings[k]; !ok {
		e.Findings[k] = f
	}
}

// dir records in which key order locks are acquired.
func (e *Eng) dir(d string, st *State, in ssa.Instruction) {
	if e.Dirs[d] == nil {
		e.Dirs[d] = e.finding(st, in, "lock-order", "locks are acquired in both key orders: two operations may deadlock")
	}
}
