package engine

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type setter func(*State, Val)

// dropUnstable forgets facts which hold only while the node is locked.
func (st *State) dropUnstable(a int32) {
	if st.G.Solo != 0 {
		return // nobody changes anything
	}
	o := &st.Objs[a]
	if o.Facts&FMine != 0 {
		o.Facts &^= FUnmarked
		return
	}
	o.Facts &^= FUnmarked
	o.Next = nil
}

func (st *State) stable(a int32) bool {
	return st.Objs[a].Facts&FMine != 0 || st.heldNow(a) || st.G.Solo != 0
}

func (st *State) unmarkedNow(a int32) bool {
	return a == objHeader || st.Objs[a].Facts&FUnmarked != 0 && st.heldNow(a) || st.in(a)
}

// newNode returns a new symbol for a node that was reached at the given layer.
func (e *Eng) newNode(st *State, lo int64) int32 {
	if lo < 1 {
		lo = 1
	}
	v := st.newIV(lo, int64(e.L.Layers))
	id := st.newObj(Obj{Kind: ONode, Lvl: v})
	st.addRel(id, objNil, RPLE|RLE)
	st.addRel(objHeader, id, RPLE|RLE|RLT|RNE)
	return id
}

// reaches reports whether node p certainly has layer l.
func (e *Eng) reaches(st *State, p int32, l int) bool {
	if p == objHeader {
		return true
	}
	o := &st.Objs[p]
	return isNodeKind(o.Kind) && st.IV[o.Lvl].Lo >= int64(l)+1
}

// load reads n leaves at p.
func (e *Eng) load(st *State, in ssa.Instruction, p Val, t types.Type, atomic bool, set setter) []*State {
	o := &st.Objs[p.A]
	n := leaves(t)
	switch o.Kind {
	case OAlloc:
		if p.N+n > int64(len(o.Cells)) || p.N < 0 {
			e.undecided(st, in, "load outside of an object")
			return nil
		}
		if isAgg(t) {
			set(st, Val{K: KAgg, X: &Ext{Elems: append([]Val(nil), o.Cells[p.N:p.N+n]...)}})
		} else {
			set(st, o.Cells[p.N])
		}
		return one(st)
	case OGlobal:
		e.Obl["global-read"]++
		set(st, e.unknownGlobal(st, in, p, t))
		return one(st)
	case OCell:
		e.check(n == 1 && p.N == 0, st, in, "cast", "value cell read as %s", t)
		set(st, Val{K: KVal, N: DCell, A: p.A})
		return one(st)
	case OMap:
		if isAgg(t) && n > 1 {
			e.undecided(st, in, "the map struct is copied")
			return nil
		}
		return e.loadMap(st, in, p, t, atomic, set)
	case ONode, OHeader, OFresh:
		if isAgg(t) && n > 1 {
			if o.Kind == OFresh && o.Facts&FPublished == 0 && p.N < extraBase && p.N+n <= int64(len(o.Cells)) {
				set(st, Val{K: KAgg, X: &Ext{Elems: append([]Val(nil), o.Cells[p.N:p.N+n]...)}})
				return one(st)
			}
			e.check(false, st, in, "race", "several fields of a shared node are read at once")
			return nil
		}
		wrap := set
		if isAgg(t) {
			wrap = func(s *State, v Val) { set(s, Val{K: KAgg, X: &Ext{Elems: []Val{v}}}) }
		}
		return e.loadNode(st, in, p, t, atomic, wrap)
	}
	e.undecided(st, in, "load from an unknown object")
	return nil
}

func (e *Eng) unknownGlobal(st *State, in ssa.Instruction, p Val, t types.Type) Val {
	g, _ := st.Objs[p.A].Site.(*ssa.Global)
	switch t.Underlying().(type) {
	case *types.Basic:
		return e.unknown(st, t)
	case *types.Interface:
		return Val{K: KUnk}
	case *types.Signature:
		if g != nil && g.Pkg != nil && purePkg(g.Pkg.Pkg.Path()) {
			return Val{K: KSpec, N: SpecPure}
		}
	}
	name := "?"
	if g != nil {
		name = g.Name()
	}
	e.undecided(st, in, "reads pointer-like package variable %s", name)
	return Val{K: KUnk}
}

func (e *Eng) loadMap(st *State, in ssa.Instruction, p Val, t types.Type, atomic bool, set setter) []*State {
	switch e.L.mapRole(p.N) {
	case RoleHeader:
		set(st, mkPtr(objHeader, 0))
		return one(st)
	case RoleLess:
		set(st, Val{K: KSpec, N: SpecLess})
		return one(st)
	case RoleLength:
		e.check(atomic, st, in, "race", "length is read without an atomic operation")
		v := st.newIV(0, maxI)
		st.G.LenObs = v + 1
		if st.G.Solo != 0 {
			st.IV[v].Flag |= IvCurLen
		}
		set(st, Val{K: KIVar, A: v})
		return one(st)
	case RoleHL:
		e.check(atomic, st, in, "race", "highestLevel is read without an atomic operation")
		return e.loadHL(st, in, set)
	}
	e.undecided(st, in, "unknown field of the map")
	return nil
}

func (e *Eng) loadHL(st *State, in ssa.Instruction, set setter) []*State {
	lo := st.hl()
	if lo < 1 {
		lo = 1
	}
	if st.G.Solo != 0 {
		for i := range st.IV {
			if st.IV[i].Flag&IvCurHL != 0 {
				set(st, Val{K: KIVar, A: int32(i)})
				return one(st)
			}
		}
	}
	v := st.newIV(lo, int64(e.L.Layers))
	for i := range st.IV {
		st.IV[i].Flag &^= IvNew
	}
	st.IV[v].Flag = IvHL | IvNew
	if e.tracks(st) {
		st.IV[v].Flag |= IvObs
	}
	if st.G.Solo != 0 {
		st.IV[v].Flag |= IvCurHL
	}
	set(st, Val{K: KIVar, A: v})
	return one(st)
}

// handled records that Range has dealt with a node.
func (st *State) handled(a int32) {
	o := &st.Objs[a]
	if o.Facts&FHandled != 0 {
		return
	}
	o.Facts |= FHandled
	if o.Facts&FChain == 0 {
		return
	}
	st.chainFrom(a)
}

func (st *State) chainFrom(a int32) {
	if st.G.EndPend == a {
		st.G.RangeEnd = true
	}
	for i := range st.Objs {
		q := &st.Objs[i]
		if q.Pend == a && q.Facts&FChain == 0 {
			q.Facts |= FChain
			q.Pend = 0
			if q.Facts&FHandled != 0 {
				st.chainFrom(int32(i))
			}
		}
	}
}

// words returns the possible flag words of a shared node.
func (e *Eng) words(st *State, a int32) []int64 {
	o := &st.Objs[a]
	switch {
	case a == objHeader:
		return []int64{0, 1}
	case o.Facts&(FMine|FMarked) != 0:
		return []int64{3}
	case st.unmarkedNow(a):
		if o.Facts&FFL != 0 {
			return []int64{1}
		}
		return []int64{0, 1}
	case o.Facts&FFL != 0, st.G.Solo != 0 && st.notHeader(a):
		return []int64{1, 3}
	}
	return []int64{0, 1, 3}
}

// observeWord records that the flags of a node were seen as w.
func (e *Eng) observeWord(st *State, a int32, w int64) bool {
	if a == objHeader {
		return true
	}
	o := &st.Objs[a]
	if o.Facts&FMine != 0 {
		return w == 3
	}
	switch w {
	case 0:
		o.Facts |= FObsAbsent | FObsUnmarked
		if st.heldNow(a) {
			o.Facts |= FUnmarked
		}
		st.handled(a)
	case 1:
		o.Facts |= FFL | FObsPresent | FObsUnmarked
		if st.G.Solo != 0 {
			o.Facts |= FIn
			if st.G.V != 0 && !e.assumeNeq(st, a, st.G.V) {
				return false
			}
			o = &st.Objs[a]
		}
		if st.heldNow(a) {
			o.Facts |= FUnmarked
		}
		for i := range st.Objs {
			if c := &st.Objs[i]; c.Kind == OCell && c.Owner == a {
				c.Facts |= FOkToken
			}
		}
	case 3:
		if o.Facts&FIn != 0 {
			// Only the node that this operation removes.
			return st.G.V != 0 && e.unify(st, st.G.V, a)
		}
		if o.Facts&FObsUnmarked != 0 {
			// Seen 0 or 1 earlier in this operation: the word goes from 0
			// to 1 to 3, so the entry was present in between.
			o.Facts |= FObsPresent
		}
		o.Facts |= FFL | FMarked | FObsAbsent
		st.handled(a)
	}
	return e.evidence(st)
}

func (e *Eng) loadNode(st *State, in ssa.Instruction, p Val, t types.Type, atomic bool, set setter) []*State {
	a := p.A
	o := &st.Objs[a]
	role, layer := e.L.nodeRole(p.N)
	if o.Kind == OFresh && !(role == RoleNext && o.Linked&(1<<layer) != 0) {
		if p.N >= extraBase {
			if int(p.N-extraBase) >= len(o.Extra) {
				e.undecided(st, in, "load outside of a node")
				return nil
			}
			set(st, o.Extra[p.N-extraBase])
		} else {
			set(st, o.Cells[p.N])
		}
		return one(st)
	}
	switch role {
	case RoleKey:
		set(st, Val{K: KKey, A: a})
		return one(st)
	case RoleLevel:
		if !st.notHeader(a) {
			set(st, st.freshInt(0, 1<<32-1))
		} else {
			set(st, Val{K: KIVar, A: o.Lvl})
		}
		return one(st)
	case RoleExtra:
		if a == objHeader || st.IV[o.Lvl].Lo > int64(e.L.ExtraBaseL) {
			set(st, mkPtr(a, extraBase))
			return one(st)
		}
		var out []*State
		s := st.clone()
		if s.narrow(o.Lvl, minI, int64(e.L.ExtraBaseL)) && e.evidence(s) {
			set(s, nilPtr)
			out = append(out, s)
		}
		if st.narrow(o.Lvl, int64(e.L.ExtraBaseL)+1, maxI) && e.evidence(st) {
			set(st, mkPtr(a, extraBase))
			out = append(out, st)
		}
		return out
	case RoleFlags:
		if !atomic {
			e.check(st.heldNow(a) && o.Facts&FFL != 0, st, in, "race", "flags are read without an atomic operation")
		} else {
			e.Obl["race"]++
		}
		ws := e.words(st, a)
		var out []*State
		for i, w := range ws {
			s := st
			if i < len(ws)-1 {
				s = st.clone()
			}
			if !e.observeWord(s, a, w) {
				continue
			}
			set(s, mkInt(w))
			out = append(out, s)
		}
		return out
	case RoleValue:
		e.check(atomic, st, in, "race", "the value pointer of a shared node is read without an atomic operation")
		if a == objHeader || !st.notHeader(a) {
			e.check(false, st, in, "header-data", "the value of the header may be used as an entry")
		}
		c := Obj{Kind: OCell, Owner: a, Facts: FNonNil}
		if o.Facts&FMine != 0 {
			c.Facts |= FAfterMark
		}
		if st.unmarkedNow(a) && o.Facts&FFL != 0 {
			c.Facts |= FOkToken
		}
		if st.G.Solo != 0 {
			c.Facts |= FCur
		}
		id := st.newObj(c)
		set(st, mkPtr(id, 0))
		return one(st)
	case RoleNext:
		if !atomic {
			e.check(st.stable(a), st, in, "race", "next pointer of layer %d is read without atomic operation or lock", layer)
		} else {
			e.Obl["race"]++
		}
		e.searchStep(st, in, a, layer)
		e.check(e.reaches(st, a, layer), st, in, "layer-bound", "layer %d of a node is read which may not have this layer", layer)
		if st.stable(a) && o.Next != nil && o.Next[layer] != 0 {
			n := o.Next[layer] - 1
			e.noteSucc(st, a, n, layer)
			set(st, mkPtr(n, 0))
			return one(st)
		}
		s := e.newNode(st, int64(layer)+1)
		if !st.addRel(a, s, RLT) {
			return nil
		}
		o = &st.Objs[a]
		if a == objHeader && st.G.Solo != 0 || o.Facts&FIn != 0 && o.Facts&FMine == 0 {
			st.Objs[s].Facts |= FIn | FFL
		}
		if st.stable(a) {
			if o.Next == nil {
				o.Next = make([]int32, e.L.Layers)
			}
			o.Next[layer] = s + 1
		}
		e.noteSucc(st, a, s, layer)
		set(st, mkPtr(s, 0))
		return one(st)
	}
	e.undecided(st, in, "unknown field of a node")
	return nil
}

// noteSucc records that n was observed as successor of a.
func (e *Eng) noteSucc(st *State, a, n int32, layer int) {
	if e.tracks(st) && st.lt(a, objKey) {
		if n == objNil {
			st.G.Absent |= 1 << layer
			if layer == 0 {
				st.G.EvAbsent = true
			}
		} else {
			st.Objs[n].ObsSuc |= 1 << layer
			e.evidence(st)
		}
	}
	e.notePath(st, a, n, layer)
	if layer == 0 && n != objNil {
		f := st.Objs[a].Facts
		switch {
		case f&FChain != 0 && f&FHandled != 0:
			st.Objs[n].Facts |= FChain
		case f&FChain != 0 && st.Objs[n].Facts&FChain == 0:
			st.Objs[n].Pend = a
		}
	}
}

// mayAlias reports whether two nodes may be the same.
func (st *State) mayAlias(a, b int32) bool { return a == b || !st.distinct(a, b) }

// store writes v to p.
func (e *Eng) store(st *State, in ssa.Instruction, p, v Val, t types.Type, atomic bool) []*State {
	o := &st.Objs[p.A]
	vals := []Val{v}
	if isAgg(t) && v.K == KAgg {
		vals = v.X.Elems
	} else if isAgg(t) {
		e.undecided(st, in, "store of an unknown aggregate")
		return nil
	}
	switch o.Kind {
	case OAlloc:
		if o.Facts&FFrozen != 0 {
			e.check(false, st, in, "cell-immutable", "a value cell is modified after it was published")
		}
		if p.N < 0 || p.N+int64(len(vals)) > int64(len(o.Cells)) {
			e.undecided(st, in, "store outside of an object")
			return nil
		}
		copy(o.Cells[p.N:], vals)
		return one(st)
	case OGlobal:
		e.check(false, st, in, "global-write", "package variable %s is written", st.Objs[p.A].Site.Name())
		return one(st)
	case OCell:
		e.check(false, st, in, "cell-immutable", "a published value cell is modified in place")
		return one(st)
	case OMap:
		for i := range vals {
			q := p
			q.N += int64(i)
			if !e.storeMap(st, in, q, vals[i], atomic) {
				return nil
			}
		}
		return one(st)
	case OFresh:
		if o.Facts&FPublished == 0 {
			for i, x := range vals {
				e.storeFresh(st, in, p.A, p.N+int64(i), x)
			}
			return one(st)
		}
	}
	if isNodeKind(o.Kind) {
		if len(vals) != 1 {
			e.check(false, st, in, "node-overwrite", "several fields of a shared node are overwritten")
			return nil
		}
		return e.storeNode(st, in, p, vals[0], atomic)
	}
	e.undecided(st, in, "store to an unknown object")
	return nil
}

// storeFresh initialises a field of an unpublished node.
func (e *Eng) storeFresh(st *State, in ssa.Instruction, a int32, off int64, v Val) {
	o := &st.Objs[a]
	if off >= extraBase {
		if int(off-extraBase) < len(o.Extra) {
			o.Extra[off-extraBase] = v
		}
		return
	}
	if int(off) >= len(o.Cells) {
		e.undecided(st, in, "store outside of a node")
		return
	}
	if r, _ := e.L.nodeRole(off); r == RoleExtra && v.K == KPtr && v.A != 0 {
		x := &st.Objs[v.A]
		switch {
		case x.Kind == OAlloc && v.N == 0 && len(x.Cells) == len(e.L.ExtraLayers):
			o.Extra = append([]Val(nil), x.Cells...)
			old := v.A
			st.mapVals(func(w Val) Val {
				return deep(w, func(w Val) Val {
					if (w.K == KPtr || w.K == KSlice) && w.A == old {
						w.A = a
						w.N += extraBase
					}
					return w
				})
			})
			st.kill(old)
			o = &st.Objs[a]
			o.Cells[off] = mkPtr(a, extraBase)
			return
		case v.A == a:
		default:
			e.check(false, st, in, "extra-shared", "the optional array of a node is not its own")
		}
	}
	o.Cells[off] = v
}

func (e *Eng) storeMap(st *State, in ssa.Instruction, p, v Val, atomic bool) bool {
	e.wrote(st)
	switch e.L.mapRole(p.N) {
	case RoleLength:
		e.check(false, st, in, "len-write", "length is overwritten")
	case RoleHL:
		e.check(false, st, in, "hl-monotone", "highestLevel is overwritten: a concurrent increase may be lost")
	default:
		e.check(false, st, in, "map-overwrite", "a field of the map is overwritten")
	}
	return true
}

func (e *Eng) storeNode(st *State, in ssa.Instruction, p, v Val, atomic bool) []*State {
	a := p.A
	o := &st.Objs[a]
	role, layer := e.L.nodeRole(p.N)
	e.wrote(st)
	if o.Kind == OFresh {
		switch {
		case role == RoleNext && o.Linked&(1<<layer) == 0:
			if p.N >= extraBase {
				o.Extra[p.N-extraBase] = v
			} else {
				o.Cells[p.N] = v
			}
			return one(st)
		case role == RoleValue:
			e.check(o.Facts&FFL == 0, st, in, "value-lost", "value overwritten")
			o.Cells[p.N] = v
			e.publishCell(st, in, v)
			return one(st)
		}
	}
	switch role {
	case RoleNext:
		e.check(atomic, st, in, "race", "a published next pointer is written without an atomic operation")
		return e.linkWrite(st, in, a, layer, v)
	case RoleFlags:
		e.check(atomic, st, in, "race", "flags are written without an atomic operation")
		if v.K != KInt {
			e.undecided(st, in, "unknown flags are stored")
			return nil
		}
		if o.Kind == OFresh {
			cur := o.Cells[e.L.FlagsOff]
			if cur.K != KInt {
				e.undecided(st, in, "unknown flags")
				return nil
			}
			return e.flagChange(st, in, a, cur.N, v.N)
		}
		ws := e.words(st, a)
		fixed := len(ws) == 1 && (o.Facts&FMine != 0 || st.heldNow(a))
		if !e.check(fixed, st, in, "flag-store", "flags are overwritten although they may have changed") {
			return one(st)
		}
		return e.flagChange(st, in, a, ws[0], v.N)
	case RoleValue:
		e.check(atomic, st, in, "race", "the value of a shared node is written without an atomic operation")
		return e.valueSet(st, in, a, v)
	}
	e.check(false, st, in, "node-overwrite", "field %s of a published node is overwritten", e.leafName(p.N))
	return one(st)
}

func (e *Eng) leafName(off int64) string {
	if off >= 0 && int(off) < len(e.L.NodeLeaves) {
		return e.L.NodeLeaves[off].Name
	}
	return "?"
}

// publishCell freezes the value cell v points to and returns its content.
func (e *Eng) publishCell(st *State, in ssa.Instruction, v Val) (Val, bool) {
	if v.K != KPtr || v.A == 0 {
		e.check(false, st, in, "value-cell", "the value pointer of an entry is nil")
		return Val{}, false
	}
	o := &st.Objs[v.A]
	if o.Kind == OCell {
		// another cell of the map
		e.check(false, st, in, "value-cell", "a value cell is shared between entries")
		return Val{K: KVal, N: DCell, A: v.A}, true
	}
	if o.Kind != OAlloc || v.N != 0 || len(o.Cells) != 1 || e.ValT != nil && !types.Identical(o.Typ, e.ValT) {
		e.check(false, st, in, "value-cell", "the value pointer of an entry does not point to a cell of the value type")
		return Val{}, false
	}
	e.Obl["value-cell"]++
	o.Facts |= FFrozen
	return o.Cells[0], true
}

// linkWrite checks a write of next pointer l of the shared node p.
func (e *Eng) linkWrite(st *State, in ssa.Instruction, p int32, l int, v Val) []*State {
	if v.K != KPtr || v.A != 0 && (!isNodeKind(st.Objs[v.A].Kind) || v.N != 0) {
		e.check(false, st, in, "link-value", "something else than a node is linked")
		return nil
	}
	n := v.A
	if st.Objs[p].Kind == OFresh {
		e.check(false, st, in, "link-held", "next pointer of the published new node is changed without its lock")
		return one(st)
	}
	ok := e.check(st.heldNow(p), st, in, "link-held", "next pointer of layer %d is changed without holding the lock of the node", l)
	ok = e.check(st.unmarkedNow(p), st, in, "link-unmarked", "next pointer of layer %d is changed but the node may be marked (being removed)", l) && ok
	ok = e.check(e.reaches(st, p, l), st, in, "link-level", "next pointer of layer %d is changed but the node may not have this layer", l) && ok
	var s int32 = -1
	if nx := st.Objs[p].Next; nx != nil && nx[l] != 0 && st.stable(p) {
		s = nx[l] - 1
	}
	ok = e.check(s >= 0, st, in, "link-validated", "next pointer of layer %d is changed without checking its old value under the lock", l) && ok
	if n != 0 && st.Objs[n].Kind == OFresh {
		e.linkNew(st, in, p, l, n, s)
	} else {
		e.linkOut(st, in, p, l, n, s)
	}
	if len(e.Findings) > 400 {
		return nil
	}
	// effect
	for i := range st.Objs {
		q := int32(i)
		o := &st.Objs[i]
		if q != p && isNodeKind(o.Kind) && o.Next != nil && o.Next[l] != 0 && o.Facts&FMine == 0 && st.mayAlias(p, q) {
			o.Next[l] = 0
		}
	}
	o := &st.Objs[p]
	if o.Next == nil {
		o.Next = make([]int32, e.L.Layers)
	} else {
		o.Next = append([]int32(nil), o.Next...)
	}
	o.Next[l] = n + 1
	return one(st)
}

func (e *Eng) freshNext(o *Obj, l int) Val {
	if l >= e.L.ExtraBaseL {
		for i, x := range e.L.ExtraLayers {
			if x == l && i < len(o.Extra) {
				return o.Extra[i]
			}
		}
		return Val{}
	}
	for i, x := range e.L.NodeLeaves {
		if x.Role == RoleNext && x.Layer == l && i < len(o.Cells) {
			return o.Cells[i]
		}
	}
	return Val{}
}

// linkNew checks that new node n is linked between p and s at layer l.
func (e *Eng) linkNew(st *State, in ssa.Instruction, p int32, l int, n, s int32) {
	o := &st.Objs[n]
	first := o.Linked == 0
	if first && o.Facts&FPublished == 0 {
		// initialisation must be complete
		lv := o.Cells[e.L.LevelOff]
		lo, hi, ok := st.ival(lv)
		e.check(ok && lo == hi && lo >= 1 && lo <= int64(e.L.Layers), st, in, "init-level", "the level of the new node is not set to its height before it is linked")
		if ok {
			for i := max(lo, 1); i <= hi && i <= 32; i++ {
				e.Heights |= 1 << (i - 1)
			}
			st.narrow(o.Lvl, lo, hi)
			e.check(st.hl() >= hi, st, in, "hl-covers", "a node of height %d is linked but highestLevel may be lower", hi)
		}
		fl := o.Cells[e.L.FlagsOff]
		e.check(fl.K == KInt && fl.N == 0, st, in, "init-flags", "the new node is marked as linked or removed before it is linked")
		k := o.Cells[e.L.KeyOff]
		e.check(k.K == KKey && k.A == objKey, st, in, "init-key", "the key of the new node is not the key of the operation")
		data, ok2 := e.publishCell(st, in, o.Cells[e.L.ValOff])
		e.check(st.G.N == 0 && !st.G.InsDone && st.G.V == 0 && !st.G.CasStore, st, in, "insert-once", "one operation changes the map twice")
		o = &st.Objs[n]
		o.Facts |= FPublished
		st.G.N = n
		if ok2 {
			st.G.InsData = data
		}
		for i := range st.Objs {
			q := int32(i)
			if q != n && isNodeKind(st.Objs[i].Kind) && q != objHeader {
				st.addRel(q, n, RNE)
			}
		}
		st.addRel(objHeader, n, RLT|RNE|RLE|RPLE)
		st.addRel(n, objNil, RLT|RNE|RLE|RPLE)
		if k.K == KKey {
			st.addRel(n, k.A, RLE)
			st.addRel(k.A, n, RLE)
		}
	}
	o = &st.Objs[n]
	lo := st.IV[o.Lvl].Lo
	e.check(int64(l) < lo, st, in, "link-height", "the new node is linked at layer %d, above its height", l)
	e.check(o.Linked == uint32(1)<<l-1, st, in, "link-order", "the new node is linked at layer %d before the layers below", l)
	nx := e.freshNext(o, l)
	e.check(nx.K == KPtr && nx.A == s && s >= 0, st, in, "link-succ", "next pointer of the new node at layer %d is not the successor it is linked before", l)
	k := o.Cells[e.L.KeyOff]
	if k.K == KKey {
		e.check(st.lt(p, k.A), st, in, "link-sorted", "the new node is linked at layer %d behind a node which may not be smaller", l)
		e.check(s >= 0 && st.lt(k.A, s), st, in, "link-sorted", "the new node is linked at layer %d before a node which may not be greater", l)
	}
	o.Linked |= 1 << l
}

// linkOut checks that the marked node is unlinked at layer l of p.
func (e *Eng) linkOut(st *State, in ssa.Instruction, p int32, l int, n, s int32) {
	v := st.G.V
	if !e.check(v != 0, st, in, "unlink-marked", "a node is unlinked at layer %d without being marked by this operation", l) {
		return
	}
	o := &st.Objs[v]
	known := o.Next != nil && o.Next[l] == n+1
	e.check(known, st, in, "unlink-next", "layer %d is not redirected to the next pointer of the removed node as it was after marking", l)
	e.check(e.reaches(st, v, l), st, in, "unlink-level", "the removed node may not have layer %d", l)
	e.check(o.Linked&(1<<l) == 0, st, in, "unlink-once", "layer %d is unlinked twice", l)
	same := s == v || s >= 0 && st.lt(p, objKey) && st.le(objKey, s) && st.eq(v, objKey)
	e.check(same, st, in, "unlink-self", "the successor at layer %d may be another node than the removed one", l)
	o.Linked |= 1 << l
}

// flagChange checks a change of the flags of a node from w to x.
func (e *Eng) flagChange(st *State, in ssa.Instruction, a int32, w, x int64) []*State {
	o := &st.Objs[a]
	if o.Kind == OFresh {
		if o.Facts&FPublished == 0 {
			o.Cells[e.L.FlagsOff] = mkInt(x)
			return one(st)
		}
		switch {
		case w == x:
			return one(st)
		case w == 0 && x == 1:
			lo := st.IV[o.Lvl].Lo
			e.check(lo == st.IV[o.Lvl].Hi && o.Linked == uint32(1)<<lo-1, st, in, "linked-complete", "the new node is declared fully linked before it is linked at all its layers")
			e.check(st.G.LenDelta == 1, st, in, "len-before-visible", "the new node becomes visible before length counts it: a concurrent removal makes the length negative")
			// The node is finished: from now on it is an ordinary node.
			data := st.G.InsData
			o.Kind = ONode
			o.Facts = o.Facts&^(FPublished) | FFL | FNonNil
			o.Cells, o.Extra, o.Linked, o.Next = nil, nil, 0, nil
			st.G.N = 0
			st.G.InsDone = true
			st.G.InsData = data
			return one(st)
		}
		e.check(false, st, in, "flag-transition", "flags of the new node change from %d to %d", w, x)
		return one(st)
	}
	if a == objHeader || !st.notHeader(a) {
		e.check(false, st, in, "flag-transition", "the flags of the header may be changed")
		return one(st)
	}
	switch {
	case w == x:
		return one(st)
	case w == 1 && x == 3:
		e.check(st.heldNow(a), st, in, "mark-held", "a node is marked without holding its lock")
		e.check(st.unmarkedNow(a), st, in, "mark-unmarked", "a node is marked which may be marked already")
		e.check(o.Facts&FFL != 0, st, in, "mark-linked", "a node is marked before it is fully linked")
		e.check(st.eq(a, objKey), st, in, "mark-key", "a node with another key is marked")
		e.check(st.G.V == 0 && st.G.N == 0 && !st.G.InsDone && !st.G.CasStore && !st.G.DelDone, st, in, "mark-once", "one operation changes the map twice")
		st.G.V = a
		st.G.Absent, st.G.EvAbsent = 0, false
		for i := range st.Objs {
			st.Objs[i].ObsSuc = 0
			st.Objs[i].Facts &^= FObsAbsent
		}
		o = &st.Objs[a]
		o.Facts = o.Facts&^FUnmarked | FMine | FMarked | FFL | FObsPresent
		o.Next = nil
		o.Linked = 0
		return one(st)
	}
	e.check(false, st, in, "flag-transition", "flags of a shared node change from %d to %d", w, x)
	return one(st)
}

// valueSet checks an unconditional write of the value of a shared node.
func (e *Eng) valueSet(st *State, in ssa.Instruction, a int32, v Val) []*State {
	o := &st.Objs[a]
	okLock := st.unmarkedNow(a) && o.Facts&FFL != 0 && a != objHeader
	e.check(okLock, st, in, "value-lost", "the value of an entry is overwritten although it may be removed at the same time")
	e.check(st.eq(a, objKey) && st.notHeader(a), st, in, "value-foreign", "the value of another key may be overwritten")
	data, ok := e.publishCell(st, in, v)
	if ok {
		e.storedData(st, in, data)
	}
	return one(st)
}

func (e *Eng) storedData(st *State, in ssa.Instruction, data Val) {
	e.check(st.G.N == 0 && !st.G.InsDone && st.G.V == 0 && !st.G.CasStore, st, in, "insert-once", "one operation changes the map twice")
	e.check(data.K == KVal && (data.N == DParam && (e.Mode == "Store" || e.Mode == "LoadOrStore")), st, in, "value-foreign", "the stored value is not the value of the operation")
	e.check(e.Mode == "Store", st, in, "value-foreign", "an operation which must not overwrite stores a value")
	st.G.CasStore = true
	st.changed()
}

// casNode is a compare-and-swap on a field of a shared or new node.
func (e *Eng) casNode(st *State, in ssa.Instruction, p, old, nw Val, set func(*State, bool)) []*State {
	a := p.A
	o := &st.Objs[a]
	role, layer := e.L.nodeRole(p.N)
	if o.Kind == OFresh && role != RoleFlags && !(role == RoleNext && o.Linked&(1<<layer) != 0) {
		var cur Val
		if p.N >= extraBase {
			cur = o.Extra[p.N-extraBase]
		} else {
			cur = o.Cells[p.N]
		}
		eq := cur.K == old.K && cur.A == old.A && cur.N == old.N
		if eq {
			outs := e.store(st, in, p, nw, e.leafType(p.N), true)
			for _, s := range outs {
				set(s, true)
			}
			return outs
		}
		set(st, false)
		return one(st)
	}
	e.wrote(st)
	switch role {
	case RoleFlags:
		if old.K != KInt || nw.K != KInt {
			e.undecided(st, in, "unknown flags in compare-and-swap")
			return nil
		}
		var ws []int64
		if o.Kind == OFresh {
			c := o.Cells[p.N]
			if c.K != KInt {
				e.undecided(st, in, "unknown flags")
				return nil
			}
			ws = []int64{c.N}
		} else {
			ws = e.words(st, a)
		}
		var out []*State
		can, must := false, true
		for _, w := range ws {
			if w == old.N {
				can = true
			} else {
				must = false
			}
		}
		if can {
			s := st.clone()
			ok := true
			if s.Objs[a].Kind != OFresh {
				ok = e.observeWord(s, a, old.N)
			}
			if ok {
				for _, x := range e.flagChange(s, in, a, old.N, nw.N) {
					set(x, true)
					out = append(out, x)
				}
			}
		}
		if !must {
			set(st, false)
			e.casFailed(st)
			out = append(out, st)
		}
		return out
	case RoleValue:
		var out []*State
		okOld := old.K == KPtr && old.A != 0 && st.Objs[old.A].Kind == OCell && st.Objs[old.A].Owner == a
		if old.K == KPtr && old.A == 0 {
			set(st, false) // the value pointer is never nil
			return one(st)
		}
		if !e.check(okOld, st, in, "value-token", "compare-and-swap of a value with something that was not read from it") {
			return nil
		}
		if st.Objs[old.A].Facts&FCur == 0 {
			s := st.clone()
			set(s, false)
			e.casFailed(s)
			out = append(out, s)
		}
		c := &st.Objs[old.A]
		if o.Facts&FMine != 0 {
			data, ok := e.publishCell(st, in, nw)
			if ok {
				e.check(data.K == KVal && data.N == DCell && data.A == old.A, st, in, "value-foreign", "the value of a removed entry is replaced by another value")
			}
			st.Objs[old.A].Facts |= FTaken
			st.changed()
			set(st, true)
			return append(out, st)
		}
		e.check(c.Facts&FOkToken != 0 || st.unmarkedNow(a) && o.Facts&FFL != 0, st, in, "value-lost", "the value is replaced although the entry was not seen present after the old value was read")
		e.check(st.eq(a, objKey) && st.notHeader(a), st, in, "value-foreign", "the value of another key may be overwritten")
		if !(st.unmarkedNow(a) && o.Facts&FFL != 0) {
			e.LockFreeStore = append(e.LockFreeStore, e.finding(nil, in, "value-lost", ""))
		}
		data, ok := e.publishCell(st, in, nw)
		if ok {
			e.storedData(st, in, data)
		}
		set(st, true)
		return append(out, st)
	case RoleNext:
		// success only if the current value is old: requires knowledge like a plain link write
		var out []*State
		if st.G.Solo != 0 && o.Next != nil && o.Next[layer] != 0 {
			if n := o.Next[layer] - 1; old.K != KPtr || n != old.A {
				if !e.assumeNeq(st, n, old.A) {
					return nil
				}
				set(st, false)
				return one(st)
			}
		} else {
			s := st.clone()
			set(s, false)
			e.casFailed(s)
			out = append(out, s)
		}
		if old.K == KPtr && st.stable(a) {
			if st.Objs[a].Next == nil {
				st.Objs[a].Next = make([]int32, e.L.Layers)
			}
			if st.Objs[a].Next[layer] == 0 {
				st.Objs[a].Next[layer] = old.A + 1
			}
		}
		for _, x := range e.linkWrite(st, in, a, layer, nw) {
			set(x, true)
			out = append(out, x)
		}
		return out
	}
	e.check(false, st, in, "node-overwrite", "field %s of a published node is overwritten", e.leafName(p.N))
	return nil
}

func (e *Eng) leafType(off int64) types.Type {
	if off >= 0 && int(off) < len(e.L.NodeLeaves) {
		return e.L.NodeLeaves[off].Typ
	}
	return types.Typ[types.UnsafePointer]
}

// casFailed notes in all loops that another operation made progress.
func (e *Eng) casFailed(st *State) {
	for _, f := range st.Frames {
		for i := range f.Anch {
			f.Anch[i].CasF = true
		}
	}
}

// lock acquires the mutex of a node.
func (e *Eng) lock(st *State, in ssa.Instruction, p Val, try bool) bool {
	a, ok := e.mutexOf(st, in, p)
	if !ok {
		return false
	}
	down, up := true, true
	anyHeld := false
	for i := range st.Objs {
		h := int32(i)
		o := &st.Objs[i]
		if o.Held != HHeld && o.Held != HUnless {
			continue
		}
		anyHeld = true
		if try {
			continue
		}
		e.check(h != a && st.distinct(h, a), st, in, "self-deadlock", "a lock is acquired which this operation may hold already")
		if !st.lt(a, h) {
			down = false
		}
		if !st.lt(h, a) {
			up = false
		}
	}
	if anyHeld && !try {
		e.check(down || up, st, in, "lock-order", "a lock is acquired while others are held which are neither all greater nor all smaller in key order")
		if down != up {
			if down {
				e.dir("down", st, in)
			} else {
				e.dir("up", st, in)
			}
		}
	}
	st.acquire(a)
	return true
}

func (st *State) acquire(a int32) {
	o := &st.Objs[a]
	o.Held = HHeld
	o.Unless = nil
	st.dropUnstable(a)
	for i := range st.Objs {
		q := int32(i)
		x := &st.Objs[i]
		if q == a || !isNodeKind(x.Kind) {
			continue
		}
		if x.Held == HFree && st.mayAlias(q, a) {
			x.Held = HDefault
		}
		if x.Held == HUnless {
			var u []int32
			for _, y := range x.Unless {
				if y != a {
					u = append(u, y)
				}
			}
			x.Unless = u
			if len(u) == 0 {
				x.Held = HHeld
			}
		}
	}
}

func (e *Eng) mutexOf(st *State, in ssa.Instruction, p Val) (int32, bool) {
	if p.K == KPtr && p.A != 0 && isNodeKind(st.Objs[p.A].Kind) {
		if r, _ := e.L.nodeRole(p.N); r == RoleMu {
			return p.A, e.derefOK(st, in, p)
		}
	}
	if p.K == KPtr && p.A == 0 {
		e.check(false, st, in, "nil-deref", "lock of a nil node")
		return 0, false
	}
	e.undecided(st, in, "lock operation on something else than a node")
	return 0, false
}

func (e *Eng) unlock(st *State, in ssa.Instruction, p Val) bool {
	a, ok := e.mutexOf(st, in, p)
	if !ok {
		return false
	}
	if !e.check(st.heldNow(a), st, in, "unlock-held", "a lock is released which this operation may not hold") {
		// continue as if
	}
	o := &st.Objs[a]
	o.Held = HFree
	o.Unless = nil
	st.dropUnstable(a)
	for i := range st.Objs {
		q := int32(i)
		x := &st.Objs[i]
		if q == a || !isNodeKind(x.Kind) {
			continue
		}
		if (x.Held == HHeld || x.Held == HUnless) && st.mayAlias(q, a) {
			x.Held = HUnless
			x.Unless = append(append([]int32(nil), x.Unless...), a)
		}
	}
	return true
}
