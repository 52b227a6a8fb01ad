package engine

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func isPtrT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// Method analyses one operation of the map type for all inputs, all reachable
// maps and all interleavings.
func (e *Eng) Method(fn *ssa.Function, mode string) {
	e.Mode, e.Entry = mode, fn.Name()
	e.TrackAbsent = mode == "Load" || mode == "Delete" || mode == "LoadAndDelete"
	e.loopObs = map[*Loop]*loopObs{}
	st := e.initState()
	fi := e.fi(fn)
	fr := &Frame{Fi: fi, Regs: make([]Val, fi.NRegs)}
	np := len(fn.Params)
	for i, p := range fn.Params {
		var v Val
		switch {
		case i == 0:
			v = mkPtr(objMap, 0)
		case isFuncT(p.Type()):
			v = Val{K: KSpec, N: SpecUser}
		case i == 1:
			v = Val{K: KKey, A: objKey}
		case i == 2 && np == 3:
			v = Val{K: KVal, N: DParam}
		default:
			e.undecided(nil, firstInstr(fn), "unexpected parameter %s of %s", p.Name(), mode)
			return
		}
		fr.Regs[fi.Idx[p]] = v
	}
	st.Frames = []*Frame{fr}
	e.heads, e.missed, e.force = map[*Loop]map[string]*State{}, map[*Loop]bool{}, map[*Loop]bool{}
	st0 := st.clone()
	exits := 0
	e.retCheck = func(s *State, in ssa.Instruction) {
		exits++
		e.post(s, in)
	}
	e.run(st)
	if e.Solo {
		e.soloPost(func() { e.run(st0) })
	}
	e.retCheck = nil
	if exits == 0 && !e.aborted {
		e.undecided(nil, firstInstr(fn), "%s never returns", mode)
	}
	e.loopPost()
}

func isFuncT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func (e *Eng) initState() *State {
	st := &State{}
	// The header has all layers; its level field is never looked at through this.
	st.newIV(int64(e.L.Layers), int64(e.L.Layers))
	st.newObj(Obj{Kind: ONil})
	st.newObj(Obj{Kind: OSearch, Facts: FNonNil})
	st.newObj(Obj{Kind: OMap, Facts: FNonNil})
	hf := FNonNil
	if e.Mode == "Range" {
		hf |= FChain | FHandled
	}
	st.newObj(Obj{Kind: OHeader, Facts: hf})
	st.addRel(objHeader, objKey, RLT)
	st.addRel(objKey, objNil, RLT)
	st.addRel(objHeader, objNil, RLT)
	st.G.HL = 1
	st.G.Full = uint32(1)<<e.L.Layers - 1
	return st
}

// post checks the state at the end of an operation.
func (e *Eng) post(st *State, in ssa.Instruction) {
	g := &st.G
	mode := e.Mode
	unw := st.Unwind != UNone
	for i := range st.Objs {
		o := &st.Objs[i]
		if o.Held == HHeld || o.Held == HUnless {
			what := "when it returns"
			if unw {
				what = "when it is unwound by a panic or Goexit of the callback"
			}
			e.check(false, st, in, "lock-leak", "%s may still hold a lock %s", mode, what)
			break
		}
	}
	e.Obl["lock-leak"]++
	e.check(g.N == 0, st, in, "linked-complete", "%s ends with a node which is linked but not declared fully linked", mode)
	if g.V != 0 {
		lo, hi := st.IV[st.Objs[g.V].Lvl].Lo, st.IV[st.Objs[g.V].Lvl].Hi
		e.check(lo == hi && st.Objs[g.V].Linked == uint32(1)<<lo-1, st, in, "unlink-complete", "%s ends but the removed node may still be linked at some layer", mode)
	}
	want := int8(0)
	if g.InsDone {
		want = 1
	}
	if g.V != 0 {
		want = -1
	}
	e.check(g.LenDelta == want, st, in, "len-balance", "%s changes length by %d, but the number of entries by %d", mode, g.LenDelta, want)
	changed := g.InsDone || g.V != 0 || g.CasStore || g.N != 0
	if unw {
		if mode == "LoadOrStoreLazy" {
			e.check(!changed, st, in, "callback-dirty", "%s changes the map although the function did not return", mode)
		}
		return
	}
	ret := st.Ret
	n := 0
	switch mode {
	case "Load", "LoadOrStore", "LoadOrStoreLazy", "LoadAndDelete":
		n = 2
	case "Delete", "Len":
		n = 1
	}
	if len(ret) != n {
		e.undecided(st, in, "unexpected number of results")
		return
	}
	flag := -1
	if n >= 1 && mode != "Len" {
		if f := ret[n-1]; f.K == KBool {
			flag = int(f.N)
		} else {
			e.undecided(st, in, "the result of %s is unknown", mode)
			return
		}
	}
	switch mode {
	case "Store":
		e.check(g.InsDone != g.CasStore, st, in, "store-done", "Store returns without having stored the value")
		if g.InsDone {
			e.check(g.InsData.K == KVal && g.InsData.N == DParam, st, in, "value-foreign", "Store adds another value than the one it was given")
		}
		e.check(g.V == 0, st, in, "result", "Store removes an entry")
	case "Load":
		e.check(!changed && !g.Wrote, st, in, "wait-free", "Load changes the map")
		if flag == 1 {
			e.presentResult(st, in, ret[0])
		} else {
			e.check(ret[0].K == KVal && ret[0].N == DZero, st, in, "result", "Load reports absence with another value than the zero value")
			e.check(g.EvAbsent, st, in, "absent", "Load reports absence of a key which may have been present during the whole call")
		}
	case "LoadOrStore", "LoadOrStoreLazy":
		e.check(g.V == 0 && !g.CasStore, st, in, "result", "%s changes an entry", mode)
		if flag == 1 {
			e.check(!g.InsDone, st, in, "result", "%s reports loaded=true after adding the entry", mode)
			e.presentResult(st, in, ret[0])
			if mode == "LoadOrStoreLazy" {
				e.check(g.Calls == 0, st, in, "lazy-needed", "the function is called although the value is not stored")
			}
		} else {
			e.check(g.InsDone, st, in, "result", "%s reports loaded=false without adding the entry", mode)
			d := int64(DParam)
			if mode == "LoadOrStoreLazy" {
				d = DCb
				e.check(g.Calls == 1, st, in, "lazy-needed", "an entry is added without calling the function once")
			}
			if g.InsDone {
				e.check(g.InsData.K == KVal && g.InsData.N == d, st, in, "value-foreign", "%s adds another value than the one given", mode)
			}
			e.check(ret[0].K == KVal && ret[0].N == d, st, in, "result", "%s returns another value than the one it stored", mode)
		}
	case "Delete", "LoadAndDelete":
		e.check(!g.InsDone && !g.CasStore, st, in, "result", "%s stores something", mode)
		if flag == 1 {
			e.check(g.V != 0, st, in, "result", "%s reports true without having removed an entry", mode)
			if mode == "LoadAndDelete" {
				e.takenResult(st, in, ret[0])
			}
		} else {
			e.check(g.V == 0, st, in, "result", "%s reports false after removing an entry", mode)
			e.check(g.EvAbsent, st, in, "absent", "%s reports absence of a key which may have been present during the whole call", mode)
			if mode == "LoadAndDelete" {
				e.check(ret[0].K == KVal && ret[0].N == DZero, st, in, "result", "LoadAndDelete reports absence with another value than the zero value")
			}
		}
	case "Range":
		e.check(!changed && !g.Wrote, st, in, "wait-free", "Range changes the map")
		e.check(g.Stopped || g.RangeEnd, st, in, "range-end", "Range may return before the end of the map although the function did not return false")
	case "Len":
		e.check(!changed && !g.Wrote, st, in, "wait-free", "Len changes the map")
		v := ret[0]
		is := v.K == KIVar && v.N == 0 && g.LenObs == v.A+1
		if v.K == KInt && g.LenObs != 0 {
			iv := st.IV[g.LenObs-1] // the counter cannot be negative, so it may be compared with 0
			is = iv.Lo == v.N && iv.Hi == v.N
		}
		e.check(is, st, in, "len-result", "Len returns something else than the length counter")
	}
}

// presentResult checks a value returned as that of the present key.
func (e *Eng) presentResult(st *State, in ssa.Instruction, v Val) {
	if !e.check(v.K == KVal && v.N == DCell, st, in, "result", "%s returns something else than a value of the map", e.Mode) {
		return
	}
	w := st.Objs[v.A].Owner
	e.check(st.eq(w, objKey) && w != objKey && st.notHeader(w), st, in, "result-key", "%s may return the value of another key", e.Mode)
	e.check(st.Objs[w].Facts&(FObsPresent) != 0, st, in, "result-present", "%s may return the value of an entry that was not present during the call", e.Mode)
}

// takenResult checks the value returned by LoadAndDelete.
func (e *Eng) takenResult(st *State, in ssa.Instruction, v Val) {
	if !e.check(v.K == KVal && v.N == DCell, st, in, "result", "%s returns something else than a value of the map", e.Mode) {
		return
	}
	c := &st.Objs[v.A]
	if !e.check(c.Owner == st.G.V && st.G.V != 0, st, in, "result-key", "%s may return the value of another entry than the removed one", e.Mode) {
		return
	}
	if c.Facts&FTaken != 0 {
		e.Obl["value-final"]++
		return
	}
	if c.Facts&(FAfterMark) != 0 {
		e.NeedLocked = append(e.NeedLocked, e.finding(st, in, "value-final", "LoadAndDelete returns a value which a concurrent Store may still replace: that Store's value is lost"))
		return
	}
	e.check(false, st, in, "value-final", "LoadAndDelete returns a value that was read before the entry was removed: the value of a concurrent Store may be lost")
}

// Finish evaluates the obligations which concern several operations.
func (e *Eng) Finish() {
	e.Obl["value-final"]++
	if len(e.LockFreeStore) > 0 {
		for _, f := range e.NeedLocked {
			e.addFinding(f)
		}
	}
	if d := e.Dirs["down"]; d != nil && e.Dirs["up"] != nil {
		e.addFinding(d)
		e.addFinding(e.Dirs["up"])
	}
}

// Ctor analyses a constructor.
func (e *Eng) Ctor(fn *ssa.Function) {
	e.Mode, e.Entry = "ctor", fn.Name()
	e.TrackAbsent = false
	e.loopObs = map[*Loop]*loopObs{}
	st := e.initState()
	fi := e.fi(fn)
	fr := &Frame{Fi: fi, Regs: make([]Val, fi.NRegs)}
	for _, p := range fn.Params {
		if !isFuncT(p.Type()) {
			e.undecided(nil, firstInstr(fn), "unexpected parameter of %s", fn.Name())
			return
		}
		fr.Regs[fi.Idx[p]] = Val{K: KSpec, N: SpecLess}
	}
	st.Frames = []*Frame{fr}
	exits := 0
	e.retCheck = func(s *State, in ssa.Instruction) {
		exits++
		e.ctorPost(s, in)
	}
	e.run(st)
	e.retCheck = nil
	if exits == 0 && !e.aborted {
		e.undecided(nil, firstInstr(fn), "%s never returns", fn.Name())
	}
}

func (e *Eng) ctorPost(st *State, in ssa.Instruction) {
	name := e.Entry
	if st.Unwind != UNone || len(st.Ret) != 1 {
		e.undecided(st, in, "unexpected exit of %s", name)
		return
	}
	p := st.Ret[0]
	if !e.check(p.K == KPtr && p.A != 0 && p.N == 0 && st.Objs[p.A].Kind == OAlloc && isNamed(st.Objs[p.A].Typ, e.L.Map), st, in, "ctor-new", "%s does not return a new map", name) {
		return
	}
	m := &st.Objs[p.A]
	for i, l := range e.L.MapLeaves {
		v := m.Cells[i]
		switch l.Role {
		case RoleHeader:
			if e.check(v.K == KPtr && v.A != 0 && v.N == 0 && st.Objs[v.A].Kind == OFresh, st, in, "ctor-header", "%s does not give the map a head entry of its own", name) {
				h := &st.Objs[v.A]
				nl := 0
				for k := range e.L.NodeLeaves {
					switch e.L.NodeLeaves[k].Role {
					case RoleNext:
						nl++
						e.check(h.Cells[k].K == KPtr && h.Cells[k].A == 0, st, in, "ctor-header", "%s returns a map that is not empty", name)
					case RoleFlags:
						e.check(h.Cells[k].K == KInt && h.Cells[k].N&2 == 0, st, in, "ctor-header", "%s returns a map whose head entry is marked", name)
					}
				}
				for _, x := range h.Extra {
					nl++
					e.check(x.K == KPtr && x.A == 0, st, in, "ctor-header", "%s returns a map that is not empty", name)
				}
				e.check(nl == e.L.Layers, st, in, "ctor-header", "the head entry made by %s has %d layers instead of %d", name, nl, e.L.Layers)
			}
		case RoleHL:
			e.check(v.K == KInt && v.N >= 1 && v.N <= int64(e.L.Layers), st, in, "ctor-level", "%s sets highestLevel outside of 1..%d", name, e.L.Layers)
		case RoleLength:
			e.check(v.K == KInt && v.N == 0, st, in, "ctor-length", "%s sets length to something else than 0", name)
		case RoleLess:
			switch {
			case v.K == KSpec && v.N == SpecLess:
				e.Obl["less-order"]++
			case e.check(v.K == KFunc && v.X != nil && v.X.Fn != nil, st, in, "ctor-less", "%s does not set the order of the map", name):
				e.checkLess(st, in, v)
			}
		}
	}
}

// checkLess decides whether the order function v of a map is the one that the
// constructor promises: it runs it on two keys for every way they can compare.
func (e *Eng) checkLess(st *State, in ssa.Instruction, v Val) {
	name := e.Entry
	desc := e.Desc
	user := e.UserOrder
	defer func(m string) { e.Desc, e.Mode = desc, m }(e.Mode)
	e.Desc = false
	e.Mode = "less"
	run := func(what string, nanA, nanB bool, mask int) (res [2]bool) {
		s := st.clone()
		s.Ret = nil
		var o [2]int32
		for i, nan := range []bool{nanA, nanB} {
			f := FNonNil
			if e.KeyFloat {
				f |= FNotNaN
				if nan {
					f = FNonNil | FNaN
				}
			}
			o[i] = s.newObj(Obj{Kind: ONode, Facts: f, Lvl: s.newIV(1, int64(e.L.Layers))})
			s.addRel(objHeader, o[i], RLT)
			s.addRel(o[i], objNil, RLT)
		}
		if mask != 0 && !e.assumeOrd(s, o[0], o[1], mask) {
			e.undecided(st, in, "order function: impossible case")
			return
		}
		outs := e.callFn(s, in, v.X.Fn, v.X.Elems, []Val{{K: KKey, A: o[0]}, {K: KKey, A: o[1]}}, func(s *State, r Val) { s.Ret = []Val{r} })
		for _, q := range outs {
			if q.Unwind != UNone || len(q.Ret) != 1 || q.Ret[0].K != KBool {
				e.undecided(st, in, "the result of the order function of %s is unknown for %s", name, what)
				continue
			}
			e.check(!q.G.Wrote && q.G.LenDelta == 0, st, in, "less-order", "the order function of %s changes something", name)
			res[q.Ret[0].N] = true
		}
		e.check(res[0] != res[1], st, in, "less-order", "the order function of %s has no definite result for %s", name, what)
		return
	}
	want := func(what string, mask int, w bool) {
		r := run(what, false, false, mask)
		if r[0] != r[1] {
			e.check(r[1] == w, st, in, "less-order", "the order function of %s answers %v for %s", name, r[1], what)
		}
	}
	want("a < b", 1, !desc || user)
	want("a == b", 2, false)
	want("a > b", 4, desc && !user)
	if !e.KeyFloat {
		return
	}
	r := run("two NaNs", true, true, 0)
	e.check(!r[1], st, in, "less-order", "the order function of %s puts one NaN before another", name)
	r1 := run("a NaN and a number", true, false, 0)
	r2 := run("a number and a NaN", false, true, 0)
	if r1[0] != r1[1] && r2[0] != r2[1] {
		e.check(r1[1] != r2[1], st, in, "less-order", "the order function of %s does not put NaNs at one end", name)
	}
}
