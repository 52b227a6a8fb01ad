package engine

// Operations on facts: each returns false if the state became infeasible.

// mapVals rewrites every value of the state.
func (st *State) mapVals(f func(Val) Val) {
	for _, fr := range st.Frames {
		for i := range fr.Regs {
			if fr.Regs[i].K != KUndef {
				fr.Regs[i] = f(fr.Regs[i])
			}
		}
		for i := range fr.Defers {
			fr.Defers[i].Fn = f(fr.Defers[i].Fn)
			fr.Defers[i].Args = mapSlice(fr.Defers[i].Args, f)
		}
		for i := range fr.Anch {
			fr.Anch[i].Vals = mapSlice(fr.Anch[i].Vals, f)
		}
	}
	for i := range st.Ret {
		st.Ret[i] = f(st.Ret[i])
	}
	for i := range st.Objs {
		o := &st.Objs[i]
		for k := range o.Cells {
			o.Cells[k] = f(o.Cells[k])
		}
		for k := range o.Extra {
			o.Extra[k] = f(o.Extra[k])
		}
	}
	st.G.InsData = f(st.G.InsData)
}

func mapSlice(s []Val, f func(Val) Val) []Val {
	if s == nil {
		return nil
	}
	r := make([]Val, len(s))
	for i := range s {
		r[i] = f(s[i])
	}
	return r
}

// deep applies f to v and the elements of v.
func deep(v Val, f func(Val) Val) Val {
	if v.X != nil && len(v.X.Elems) > 0 {
		x := *v.X
		x.Elems = make([]Val, len(v.X.Elems))
		for i, e := range v.X.Elems {
			x.Elems[i] = deep(e, f)
		}
		v.X = &x
	}
	return f(v)
}

// substObj replaces object b by a.
func (st *State) substObj(a, b int32) {
	st.mapVals(func(v Val) Val {
		return deep(v, func(v Val) Val {
			switch v.K {
			case KPtr, KKey, KSlice, KLen:
				if v.A == b {
					v.A = a
				}
			case KVal:
				if v.N == DCell && v.A == b {
					v.A = a
				}
			}
			return v
		})
	})
	for i := range st.Objs {
		o := &st.Objs[i]
		for k := range o.Next {
			if o.Next[k] == b+1 {
				o.Next[k] = a + 1
			}
		}
		if len(o.Unless) > 0 {
			var u []int32
			for _, x := range o.Unless {
				if x == b {
					x = a
				}
				if !contains(u, x) {
					u = append(u, x)
				}
			}
			o.Unless = u
		}
		if o.Pend == b {
			o.Pend = a
		}
		if o.SucOf == b {
			o.SucOf = a
		}
		if o.Owner == b {
			o.Owner = a
		}
	}
	g := &st.G
	for _, p := range []*int32{&g.N, &g.V, &g.Last, &g.EndPend} {
		if *p == b {
			*p = a
		}
	}
}

// substIV replaces variable b by a.
func (st *State) substIV(a, b int32) {
	if a == b {
		return
	}
	st.IV[a].Flag |= st.IV[b].Flag
	st.IV[b].Flag = 0
	st.mapVals(func(v Val) Val {
		return deep(v, func(v Val) Val {
			if v.K == KIVar && v.A == b {
				v.A = a
			}
			return v
		})
	})
	for i := range st.Objs {
		if isNodeKind(st.Objs[i].Kind) && st.Objs[i].Lvl == b {
			st.Objs[i].Lvl = a
		}
	}
	if st.G.LenObs == b+1 {
		st.G.LenObs = a + 1
	}
}

// narrow intersects the interval of a variable.
func (st *State) narrow(v int32, lo, hi int64) bool {
	iv := &st.IV[v]
	if lo > iv.Lo {
		iv.Lo = lo
	}
	if hi < iv.Hi {
		iv.Hi = hi
	}
	if iv.Flag&IvNew != 0 {
		for i := range st.IV {
			if o := &st.IV[i]; o.Flag&IvHL != 0 && o.Hi > iv.Hi {
				o.Hi = iv.Hi
				if o.Lo > o.Hi {
					return false
				}
			}
		}
	}
	return iv.Lo <= iv.Hi
}

// assumeNonNil records that a node is not nil.
func (st *State) assumeNonNil(a int32) bool {
	if a == objNil {
		return false
	}
	o := &st.Objs[a]
	if o.Facts&FNonNil != 0 {
		return true
	}
	o.Facts |= FNonNil
	return st.addRel(a, objNil, RNE|RPLE|RLE)
}

// assumeNil records that a node pointer is nil.
func (e *Eng) assumeNil(st *State, a int32) bool {
	if a == objNil {
		return true
	}
	o := &st.Objs[a]
	if o.Facts&FNonNil != 0 || o.Kind != ONode {
		return false
	}
	if o.Facts&FChain != 0 {
		st.G.RangeEnd = true
	}
	if o.Pend != 0 {
		st.G.EndPend = o.Pend
	}
	e.descend(st, a)
	if e.tracks(st) {
		st.G.Absent |= o.ObsSuc
		if st.G.Absent&1 != 0 {
			st.G.EvAbsent = true
		}
	}
	if !st.mergeRel(objNil, a) {
		return false
	}
	st.substObj(objNil, a)
	st.kill(a)
	return e.evidence(st)
}

// tracks reports whether evidence of the absence of the key is collected.
func (e *Eng) tracks(st *State) bool { return e.TrackAbsent && st.G.V == 0 }

func (st *State) kill(a int32) {
	st.Objs[a] = Obj{Kind: ODead}
}

// mergeRel adds the relations of b to a, given a == b.
func (st *State) mergeRel(a, b int32) bool {
	if st.rel(a, b)&(RLT|RNE) != 0 || st.rel(b, a)&(RLT|RNE) != 0 {
		return false
	}
	for q := range st.Objs {
		q := int32(q)
		if q == a || q == b {
			continue
		}
		if r := st.rel(b, q); r != 0 {
			if r&^st.rel(a, q) != 0 && !st.addRel(a, q, r) {
				return false
			}
		}
		if r := st.rel(q, b); r != 0 {
			if r&^st.rel(q, a) != 0 && !st.addRel(q, a, r) {
				return false
			}
		}
	}
	// b is gone: forget its relations.
	for q := range st.Objs {
		st.Rel[int(b)*st.Stride+q] = 0
		st.Rel[q*st.Stride+int(b)] = 0
	}
	return true
}

// unify records that a and b are the same node (or both nil).
func (e *Eng) unify(st *State, a, b int32) bool {
	if a == b {
		return true
	}
	if st.distinct(a, b) {
		return false
	}
	if a == objNil {
		return e.assumeNil(st, b)
	}
	if b == objNil {
		return e.assumeNil(st, a)
	}
	oa, ob := &st.Objs[a], &st.Objs[b]
	if !isNodeKind(oa.Kind) || !isNodeKind(ob.Kind) {
		return oa.Kind == ob.Kind
	}
	if b < nFixed || ob.Kind == OFresh && oa.Kind != OFresh || (st.G.V == b && a >= nFixed && oa.Kind != OFresh) {
		a, b = b, a
		oa, ob = ob, oa
	}
	// lock status; facts of a node that is not held may be outdated
	if !st.heldNow(a) {
		st.dropUnstable(a)
	}
	if !st.heldNow(b) {
		st.dropUnstable(b)
	}
	if a == objHeader {
		oa.Facts &^= FUnmarked
	}
	held, unless, ok := mergeHeld(oa, ob, a, b)
	if !ok {
		return false
	}
	if !st.mergeRel(a, b) {
		return false
	}
	oa, ob = &st.Objs[a], &st.Objs[b]
	oa.Held, oa.Unless = held, unless
	oa.Facts |= ob.Facts
	if oa.Facts&FNaN != 0 && oa.Facts&FNotNaN != 0 {
		return false
	}
	if oa.Facts&FUnmarked != 0 && oa.Facts&FMarked != 0 {
		return false
	}
	if a != objHeader || ob.Kind == ONode {
		la, lb := oa.Lvl, ob.Lvl
		if la != lb {
			iv := st.IV[lb]
			if !st.narrow(la, iv.Lo, iv.Hi) {
				return false
			}
			st.substIV(la, lb)
		}
	}
	oa.ObsSuc |= ob.ObsSuc
	oa.Path |= ob.Path
	if oa.SucOf == 0 {
		oa.SucOf, oa.SucLay = ob.SucOf, ob.SucLay
	}
	oa.Linked |= ob.Linked
	if oa.Pend == 0 {
		oa.Pend = ob.Pend
	}
	type nx struct{ x, y int32 }
	var eqs []nx
	if ob.Next != nil {
		if oa.Next == nil {
			oa.Next = make([]int32, len(ob.Next))
		}
		for l := range ob.Next {
			if ob.Next[l] == 0 {
				continue
			}
			if oa.Next[l] == 0 {
				oa.Next[l] = ob.Next[l]
			} else if oa.Next[l] != ob.Next[l] {
				eqs = append(eqs, nx{int32(l), ob.Next[l] - 1})
			}
		}
	}
	st.substObj(a, b)
	st.kill(b)
	for _, q := range eqs {
		if nxt := st.Objs[a].Next; nxt != nil && nxt[q.x] != 0 {
			x, y := nxt[q.x]-1, q.y
			if st.Objs[y].Kind == ODead || st.Objs[x].Kind == ODead {
				continue // already merged
			}
			if x != y && !e.unify(st, x, y) {
				return false
			}
		}
	}
	if e.notNilByKind(st, a) && !st.assumeNonNil(a) {
		return false
	}
	return e.evidence(st)
}

func (e *Eng) notNilByKind(st *State, a int32) bool {
	k := st.Objs[a].Kind
	return k == OFresh || k == OHeader || st.Objs[a].Facts&FNonNil != 0
}

func mergeHeld(oa, ob *Obj, a, b int32) (uint8, []int32, bool) {
	ha, hb := oa.Held, ob.Held
	res := func(h uint8, u []int32) (uint8, []int32, bool) {
		var r []int32
		for _, x := range u {
			if x != a && x != b {
				r = append(r, x)
			}
		}
		return h, r, true
	}
	switch {
	case ha == HHeld && hb == HFree || ha == HFree && hb == HHeld:
		return 0, nil, false
	case ha == HHeld || hb == HHeld:
		return res(HHeld, nil)
	case ha == HFree || hb == HFree:
		return res(HFree, nil)
	case ha == HUnless && hb == HUnless:
		if contains(oa.Unless, b) || contains(ob.Unless, a) {
			// undecidable
			return HUnless, []int32{a}, true
		}
		var u []int32
		for _, x := range oa.Unless {
			if contains(ob.Unless, x) {
				u = append(u, x)
			}
		}
		if len(u) == 0 {
			return res(HHeld, nil)
		}
		return res(HUnless, u)
	case ha == HUnless:
		if contains(oa.Unless, b) {
			return HUnless, []int32{a}, true
		}
		return res(HUnless, oa.Unless)
	case hb == HUnless:
		if contains(ob.Unless, a) {
			return HUnless, []int32{a}, true
		}
		return res(HUnless, ob.Unless)
	}
	return HDefault, nil, true
}

// assumeNeq records that a and b are different nodes.
func (e *Eng) assumeNeq(st *State, a, b int32) bool {
	if a == b {
		return false
	}
	if a == objNil {
		return st.assumeNonNil(b)
	}
	if b == objNil {
		return st.assumeNonNil(a)
	}
	if st.distinct(a, b) {
		return true
	}
	return st.addRel(a, b, RNE)
}

// heldNow reports whether the lock of a is certainly held by this operation.
func (st *State) heldNow(a int32) bool {
	o := &st.Objs[a]
	switch o.Held {
	case HHeld:
		return true
	case HUnless:
		for _, u := range o.Unless {
			if !st.distinct(a, u) {
				return false
			}
		}
		return true
	}
	return false
}

// evidence updates what is known about the absence of the search key.
func (e *Eng) evidence(st *State) bool {
	if st.G.V != 0 && !e.adjacent(st) {
		return false
	}
	e.paths(st)
	if !e.tracks(st) || st.G.EvAbsent {
		return true
	}
	full := st.G.Full
	st.G.Absent = st.absent()
	for i := range st.Objs {
		o := &st.Objs[i]
		if o.Kind != ONode || i < nFixed {
			continue
		}
		s := int32(i)
		if o.ObsSuc&^st.G.Absent != 0 && st.lt(objKey, s) {
			st.G.Absent |= o.ObsSuc
		}
	}
	if st.G.Absent&1 != 0 {
		st.G.EvAbsent = true
		return true
	}
	for i := range st.Objs {
		o := &st.Objs[i]
		if o.Kind != ONode || i < nFixed || o.Facts&FNonNil == 0 {
			continue
		}
		s := int32(i)
		if o.Facts&FMine == 0 && st.eq(s, objKey) {
			if o.Facts&FObsAbsent != 0 {
				st.G.EvAbsent = true
				return true
			}
			lo := st.IV[o.Lvl].Lo
			if lo < 1 {
				lo = 1
			}
			if lo <= int64(e.L.Layers) {
				m := full &^ (uint32(1)<<(lo-1) - 1)
				if st.G.Absent&m == m {
					st.G.EvAbsent = true
					return true
				}
			} else {
				return false
			}
		}
	}
	return true
}

// adjacent applies the following lemma: if P is locked, not marked and linked
// at a layer, with a key less than that of the node V which this operation has
// marked and not yet unlinked at that layer, and P's successor S there has a key
// that is not less, then S is V: V is in the sorted list of that layer, so it
// cannot lie between P and S.
func (e *Eng) adjacent(st *State) bool {
	for again := true; again; {
		again = false
		v := st.G.V
		if v == 0 || st.Objs[v].Facts&FMine == 0 || !st.eq(v, objKey) {
			return true
		}
		for i := range st.Objs {
			p := int32(i)
			o := &st.Objs[i]
			if o.Next == nil || p == v || !isNodeKind(o.Kind) || !st.lt(p, objKey) || !st.unmarkedNow(p) || !st.heldNow(p) && st.G.Solo == 0 {
				continue
			}
			for l, x := range o.Next {
				s := x - 1
				if x == 0 || s == v || !st.le(objKey, s) || !e.reaches(st, p, l) || !e.reaches(st, v, l) || st.Objs[v].Linked&(1<<l) != 0 {
					continue
				}
				if !e.unify(st, s, v) {
					return false
				}
				again = true
				break
			}
			if again {
				break
			}
		}
	}
	return true
}

// wrote records a write to the map in operations which must not write.
func (e *Eng) wrote(st *State) {
	if e.waitFree() {
		st.G.Wrote = true
	}
}
