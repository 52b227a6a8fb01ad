package engine

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Termination of operations which are not disturbed. A loop that may repeat
// without moving forward repeats because another operation changed something.
// This is decided by taking every state in which the analysis has reached the
// head of such a loop, assuming that from there on no other operation is in
// progress, and following the loop: after soloRounds rounds it must have been
// left.
//
// While no other operation is in progress nothing changes but by the operation
// itself, and every node that is in the list is fully linked and unmarked,
// except the one that the operation removes.

const soloRounds = 3

// in reports whether a is known to be in the list, unmarked.
func (st *State) in(a int32) bool {
	return st.G.Solo != 0 && st.Objs[a].Facts&FIn != 0 && st.Objs[a].Facts&FMine == 0 && (st.G.V == 0 || st.distinct(a, st.G.V))
}

// changed forgets which value cells are current.
func (st *State) changed() {
	for i := range st.Objs {
		st.Objs[i].Facts &^= FCur
	}
}

// current reports whether v is the current value of a field of the map.
func (st *State) current(v Val, flag uint8) bool {
	switch {
	case st.G.Solo == 0 || v.N != 0 && v.K == KIVar:
		return false
	case v.K == KIVar:
		return st.IV[v.A].Flag&flag != 0
	case v.K == KInt:
		for i := range st.IV {
			if iv := &st.IV[i]; iv.Flag&flag != 0 && iv.Lo == v.N && iv.Hi == v.N {
				return true
			}
		}
	}
	return false
}

func (st *State) outdate(flag uint8) {
	for i := range st.IV {
		st.IV[i].Flag &^= flag
	}
}

// mayHold reports whether the operation may hold the lock of node a.
func (st *State) mayHold(a int32) bool {
	if h := st.Objs[a].Held; h == HFree {
		return false
	} else if h == HHeld || h == HUnless {
		return true
	}
	for i := range st.Objs {
		if h := st.Objs[i].Held; (h == HHeld || h == HUnless) && st.mayAlias(int32(i), a) {
			return true
		}
	}
	return false
}

// waits reports whether a loop may repeat without moving forward, as far as
// it was analysed, and which of its variables do not move in one direction.
func (e *Eng) waits(l *Loop) (bool, uint64) {
	lo := e.loopObs[l]
	if lo == nil {
		return false, 0
	}
	var bad uint64
	for ob := range lo.edges {
		bad |= ob.bad
	}
	for ob := range lo.edges {
		if ob.strict&^bad == 0 {
			return true, bad
		}
	}
	return false, bad
}

// saveHeads keeps the states at the heads of the loops that may wait.
func (w *worker) saveHeads() {
	e := w.e
	if !e.Solo || e.mute || e.heads == nil {
		return
	}
	for _, n := range w.nodes {
		l := w.fi.Loops[n.blk.Index]
		if l == nil {
			continue
		}
		if e.drawn(l) {
			continue
		}
		if wt, _ := e.waits(l); !wt && !e.force[l] {
			e.missed[l] = true
			continue
		}
		for _, s := range n.sts {
			k := serialize(s)
			for _, f := range s.Frames {
				k += fmt.Sprintf("/%p%p", f.Fi, f.Call)
			}
			if e.heads[l] == nil {
				e.heads[l] = map[string]*State{}
			}
			e.heads[l][k] = s
		}
	}
}

// soloPost examines the loops of the operation that was analysed.
func (e *Eng) soloPost(again func()) {
	late := false
	for l := range e.missed {
		if wt, _ := e.waits(l); wt {
			e.force[l] = true
			late = true
		}
	}
	if late && !e.aborted {
		e.heads = map[*Loop]map[string]*State{}
		again()
	}
	if e.aborted {
		return
	}
	rc := e.retCheck
	e.mute, e.retCheck = true, nil
	defer func() { e.mute, e.retCheck = false, rc }()
	for l, hs := range e.heads {
		wt, bad := e.waits(l)
		if !wt {
			continue
		}
		for _, s := range hs {
			e.Obl["solo-retry"]++
			w := &worker{e: e, fi: s.top().Fi, nodes: map[string]*node{}, consts: map[int]map[int]map[int64]bool{}, only: l, bad: bad}
			s = s.clone()
			s.G.Solo = 1
			s.Objs[objHeader].Facts |= FIn
			for i := range s.Objs {
				o := &s.Objs[i]
				if o.Kind == ONode && o.Facts&(FUnmarked|FFL) == FUnmarked|FFL && s.heldNow(int32(i)) {
					o.Facts |= FIn
				}
			}
			e.stack = e.stack[:0]
			w.add(s, l.Head, false)
			w.loop()
			if e.Debug != nil {
				e.Debug(w)
			}
		}
	}
}

// again decides whether the examined loop is followed for another round.
func (w *worker) again(st *State, from *ssa.BasicBlock, ob edgeObs) bool {
	if ob.strict&^w.bad != 0 {
		return false // moved forward
	}
	if st.G.Solo >= soloRounds {
		f := w.e.finding(st, lastInstr(from), "solo-retry", "a loop repeats although no other operation is in progress: the operation may never end")
		w.e.addFinding(f)
		return false
	}
	st.G.Solo++
	return true
}

// drawn reports whether a random number that is drawn anew in each round of
// the loop decides whether it is left: it is, with probability one.
func (e *Eng) drawn(l *Loop) bool {
	for _, b := range l.Head.Parent().Blocks {
		if !l.Blocks[b.Index] {
			continue
		}
		if c, ok := lastInstr(b).(*ssa.If); ok && !(l.Blocks[b.Succs[0].Index] && l.Blocks[b.Succs[1].Index]) {
			if e.fromRandom(c.Cond, l, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

func (e *Eng) fromRandom(v ssa.Value, l *Loop, seen map[ssa.Value]bool) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || seen[v] || in.Block() == nil || !l.Blocks[in.Block().Index] {
		return false
	}
	seen[v] = true
	if c, ok := v.(*ssa.Call); ok && e.random(c.Common(), map[*ssa.Function]bool{}) {
		return true
	}
	switch v.(type) {
	case *ssa.BinOp, *ssa.UnOp, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Call:
		for _, o := range in.Operands(nil) {
			if *o != nil && e.fromRandom(*o, l, seen) {
				return true
			}
		}
	}
	return false
}

// random reports whether a call may draw a random number.
func (e *Eng) random(c *ssa.CallCommon, seen map[*ssa.Function]bool) bool {
	fn := c.StaticCallee()
	if fn == nil {
		for _, a := range c.Args {
			if !isIntT(a.Type()) {
				return false
			}
		}
		_, builtin := c.Value.(*ssa.Builtin)
		return !builtin
	}
	if seen[fn] {
		return false
	}
	seen[fn] = true
	if !e.inPkg(fn) {
		p := ""
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			p = o.Pkg().Path()
		}
		return strings.HasSuffix(p, "fastrand") || strings.HasPrefix(p, "math/rand")
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Call); ok && e.random(x.Common(), seen) {
				return true
			}
		}
	}
	return false
}
