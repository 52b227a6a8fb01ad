package engine

import (
	"encoding/binary"

	"golang.org/x/tools/go/ssa"
)

// joiner computes the product of two states: the objects of the result are
// pairs of objects which are reached over the same access paths. Facts of a
// pair are those which hold of both components, so the result describes every
// concrete state either of them describes.
type joiner struct {
	a, b  *State
	r     *State
	self  bool
	pair  map[[2]int32]int32
	pa    []int32 // component in a, per result object
	pb    []int32
	ivp   map[[4]int64]int32
	queue []int32
	okay  bool
	why   string
	mapA  map[int32]int32 // bijections for allocated objects
	mapB  map[int32]int32
	widen bool
	hard  bool // widen small values too
}

func (j *joiner) fail(why string) {
	if j.okay {
		j.okay = false
		j.why = why
	}
}

// join returns the product of a and b, or nil if they are too different.
// The frames of a and b must be at the same program points.
func join(a, b *State, widen int) (*State, string) {
	j := &joiner{a: a, b: b, self: a == b, okay: true, widen: widen > 6, hard: widen > 60,
		pair: make(map[[2]int32]int32, len(a.Objs)+8), ivp: map[[4]int64]int32{},
		mapA: map[int32]int32{}, mapB: map[int32]int32{}}
	r := &State{Frames: make([]*Frame, len(a.Frames)), Unwind: a.Unwind, Trace: a.Trace}
	j.r = r
	if len(a.Frames) != len(b.Frames) || a.Unwind != b.Unwind {
		return nil, "shape"
	}
	for i := int32(0); i < nFixed; i++ {
		j.objPair(i, i)
	}
	for i := range a.Frames {
		fa, fb := a.Frames[i], b.Frames[i]
		if fa.Fi != fb.Fi || fa.Call != fb.Call || len(fa.Defers) != len(fb.Defers) || len(fa.Anch) != len(fb.Anch) || fa.Recov != fb.Recov || fa.Unwind != fb.Unwind {
			return nil, "frame"
		}
		f := &Frame{Fi: fa.Fi, Call: fa.Call, Recov: fa.Recov, Unwind: fa.Unwind, Regs: make([]Val, len(fa.Regs))}
		for k := range fa.Regs {
			if fa.Regs[k].K == KUndef && fb.Regs[k].K == KUndef {
				continue
			}
			f.Regs[k] = j.val(fa.Regs[k], fb.Regs[k])
			if !j.okay {
				return nil, "reg " + j.why
			}
		}
		if len(fa.Defers) > 0 {
			f.Defers = make([]Deferred, len(fa.Defers))
			for k := range fa.Defers {
				da, db := fa.Defers[k], fb.Defers[k]
				if da.Call != db.Call || len(da.Args) != len(db.Args) {
					return nil, "defer"
				}
				d := Deferred{Call: da.Call, Fn: j.val(da.Fn, db.Fn), Args: make([]Val, len(da.Args))}
				for q := range da.Args {
					d.Args[q] = j.val(da.Args[q], db.Args[q])
				}
				f.Defers[k] = d
			}
		}
		if len(fa.Anch) > 0 {
			f.Anch = make([]Anchor, len(fa.Anch))
			for k := range fa.Anch {
				aa, ab := fa.Anch[k], fb.Anch[k]
				if aa.Head != ab.Head || len(aa.Vals) != len(ab.Vals) {
					return nil, "anchor"
				}
				an := Anchor{Head: aa.Head, CasF: aa.CasF && ab.CasF, Vals: make([]Val, len(aa.Vals))}
				for q := range aa.Vals {
					an.Vals[q] = j.val(aa.Vals[q], ab.Vals[q])
				}
				f.Anch[k] = an
			}
		}
		r.Frames[i] = f
	}
	if len(a.Ret) != len(b.Ret) {
		return nil, "ret"
	}
	for i := range a.Ret {
		r.Ret = append(r.Ret, j.val(a.Ret[i], b.Ret[i]))
	}
	j.ghost()
	if !j.okay {
		return nil, j.why
	}
	for {
		for len(j.queue) > 0 {
			id := j.queue[0]
			j.queue = j.queue[1:]
			j.expand(id)
			if !j.okay {
				return nil, j.why
			}
		}
		if !j.self {
			break
		}
		// Locks which are not reachable any more stay visible.
		more := false
		for i := range a.Objs {
			if h := a.Objs[i].Held; h == HHeld || h == HUnless {
				if _, ok := j.pair[[2]int32{int32(i), int32(i)}]; !ok {
					j.objPair(int32(i), int32(i))
					more = true
				}
			}
		}
		if !more {
			break
		}
	}
	j.facts()
	if !j.okay {
		return nil, j.why
	}
	return r, ""
}

func (j *joiner) ghost() {
	a, b := &j.a.G, &j.b.G
	g := *a
	if (a.N != 0) != (b.N != 0) || (a.V != 0) != (b.V != 0) || (a.Last != 0) != (b.Last != 0) ||
		a.InsDone != b.InsDone || a.DelDone != b.DelDone || a.LenDelta != b.LenDelta || a.CasStore != b.CasStore || a.Calls != b.Calls ||
		a.CbBusy != b.CbBusy || a.Solo != b.Solo || a.Stopped != b.Stopped || a.Wrote != b.Wrote {
		j.fail("ghost")
		return
	}
	if a.N != 0 {
		g.N = j.objPair(a.N, b.N)
	}
	if a.V != 0 {
		g.V = j.objPair(a.V, b.V)
	}
	if a.Last != 0 {
		g.Last = j.objPair(a.Last, b.Last)
	}
	if a.EndPend != 0 && b.EndPend != 0 {
		g.EndPend = j.objPair(a.EndPend, b.EndPend)
	} else {
		g.EndPend = 0
	}
	if a.InsDone {
		g.InsData = j.val(a.InsData, b.InsData)
	}
	g.RangeEnd = a.RangeEnd && b.RangeEnd
	g.EvAbsent = a.EvAbsent && b.EvAbsent
	g.Absent = j.a.absent() & j.b.absent()
	g.HL = min(j.a.hl(), j.b.hl())
	if a.LenObs != 0 && b.LenObs != 0 {
		g.LenObs = j.iv(j.a.single(a.LenObs-1), j.b.single(b.LenObs-1)) + 1
	} else {
		g.LenObs = 0
	}
	j.r.G = g
}

// objPair returns the object of the pair (x, y).
func (j *joiner) objPair(x, y int32) int32 {
	k := [2]int32{x, y}
	if id, ok := j.pair[k]; ok {
		return id
	}
	ox, oy := &j.a.Objs[x], &j.b.Objs[y]
	o := Obj{}
	nodeish := func(o *Obj) bool { return o.Kind == ONode || o.Kind == OHeader || o.Kind == ONil }
	switch {
	case ox.Kind == oy.Kind && ox.Kind != ONil:
		o.Kind, o.Typ, o.Site = ox.Kind, ox.Typ, ox.Site
	case nodeish(ox) && nodeish(oy):
		o.Kind = ONode
		if ox.Kind == ONil && oy.Kind == ONil {
			o.Kind = ONil
		}
	default:
		j.fail("object kinds")
		return 0
	}
	switch o.Kind {
	case OAlloc, OFresh:
		if ox.Site != oy.Site || len(ox.Cells) != len(oy.Cells) || len(ox.Extra) != len(oy.Extra) || (ox.Facts^oy.Facts)&(FFrozen|FPublished|FCounted|FFL) != 0 ||
			o.Kind == OFresh && ox.Linked != oy.Linked {
			j.fail("allocs")
			return 0
		}
		if _, ok := j.mapA[x]; ok {
			j.fail("alias")
			return 0
		}
		if _, ok := j.mapB[y]; ok {
			j.fail("alias")
			return 0
		}
		j.mapA[x], j.mapB[y] = y, x
	case OGlobal:
		if ox.Site != oy.Site {
			j.fail("global")
			return 0
		}
	}
	if (ox.Facts|oy.Facts)&FMine != 0 {
		if (ox.Facts&oy.Facts)&FMine != 0 && ox.Linked != oy.Linked {
			j.fail("mine")
			return 0
		}
	}
	id := int32(len(j.r.Objs))
	j.r.Objs = append(j.r.Objs, o)
	j.pa = append(j.pa, x)
	j.pb = append(j.pb, y)
	j.pair[k] = id
	j.queue = append(j.queue, id)
	return id
}

// single returns a variable, or its value if it can only have one.
func (st *State) single(a int32) Val {
	if lo := st.IV[a].Lo; lo == st.IV[a].Hi {
		return mkInt(lo)
	}
	return Val{K: KIVar, A: a}
}

// iv returns the variable for a pair of integer values, whose offsets are dropped if equal.
func (j *joiner) iv(x, y Val) int32 {
	var k [4]int64
	k[0], k[1], k[2], k[3] = -1, x.N, -1, y.N
	if x.K == KIVar {
		k[0] = int64(x.A)
	}
	if y.K == KIVar {
		k[2] = int64(y.A)
	}
	if x.K == KIVar && y.K == KIVar && x.N == y.N {
		k[1], k[3] = 0, 0
		x.N, y.N = 0, 0
	}
	if id, ok := j.ivp[k]; ok {
		return id
	}
	lo1, hi1, _ := j.a.ival(x)
	lo2, hi2, _ := j.b.ival(y)
	lo, hi := min(lo1, lo2), max(hi1, hi2)
	if j.widen && !j.self {
		if lo < lo1 && (lo < 0 || j.hard) {
			lo = widenLo(lo)
		}
		if hi > hi1 && (hi > 64 || j.hard) {
			hi = widenHi(hi)
		}
	}
	id := j.r.newIV(lo, hi)
	if x.K == KIVar && y.K == KIVar && x.N == 0 && y.N == 0 {
		j.r.IV[id].Flag = j.a.IV[x.A].Flag & j.b.IV[y.A].Flag
	}
	j.ivp[k] = id
	return id
}

func widenLo(x int64) int64 {
	for _, t := range []int64{0, -1, -64, -1 << 31} {
		if x >= t {
			return t
		}
	}
	return minI
}

func widenHi(x int64) int64 {
	for _, t := range []int64{64, 1 << 31, 1 << 32} {
		if x <= t {
			return t
		}
	}
	return maxI
}

func (j *joiner) vals(x, y []Val) []Val {
	if len(x) != len(y) {
		j.fail("len")
		return nil
	}
	r := make([]Val, len(x))
	for i := range x {
		r[i] = j.val(x[i], y[i])
	}
	return r
}

func (j *joiner) val(x, y Val) Val {
	if x.K == KIVar {
		if lo, hi, _ := j.a.ival(x); lo == hi {
			x = mkInt(lo)
		}
	}
	if y.K == KIVar {
		if lo, hi, _ := j.b.ival(y); lo == hi {
			y = mkInt(lo)
		}
	}
	if !j.okay {
		return Val{}
	}
	if x.K == KUndef || y.K == KUndef {
		return Val{}
	}
	if (x.K == KInt || x.K == KIVar) && (y.K == KInt || y.K == KIVar) {
		if x.K == KInt && y.K == KInt && x.N == y.N {
			return x
		}
		off := int64(0)
		if x.K == KIVar && y.K == KIVar && x.N == y.N {
			off = x.N
		}
		return Val{K: KIVar, A: j.iv(x, y), N: off}
	}
	if x.K != y.K {
		if scalarish(x.K) && scalarish(y.K) {
			return Val{K: KUnk}
		}
		j.fail("kinds")
		return Val{}
	}
	switch x.K {
	case KBool:
		if x.N != y.N {
			return Val{K: KUnk}
		}
		return x
	case KPtr:
		if x.A == 0 && y.A == 0 {
			return nilPtr
		}
		if x.A == 0 || y.A == 0 {
			if x.A == 0 && (y.N != 0 || !nodeNil(&j.b.Objs[y.A])) || y.A == 0 && (x.N != 0 || !nodeNil(&j.a.Objs[x.A])) {
				j.fail("nil")
				return Val{}
			}
			return mkPtr(j.objPair(x.A, y.A), 0)
		}
		if x.N != y.N {
			j.fail("offsets")
			return Val{}
		}
		return mkPtr(j.objPair(x.A, y.A), x.N)
	case KKey, KLen:
		return Val{K: x.K, A: j.objPair(x.A, y.A)}
	case KVal:
		if x.N != y.N {
			j.fail("data")
			return Val{}
		}
		if x.N == DCell {
			return Val{K: KVal, N: x.N, A: j.objPair(x.A, y.A)}
		}
		return x
	case KAgg, KTuple:
		return Val{K: x.K, X: &Ext{Elems: j.vals(x.X.Elems, y.X.Elems), T: x.X.T}}
	case KSlice:
		if x.A == 0 && y.A == 0 {
			return x
		}
		if (x.A == 0) != (y.A == 0) || x.N != y.N || x.X.Len != y.X.Len || x.X.Cap != y.X.Cap {
			j.fail("slices")
			return Val{}
		}
		return Val{K: KSlice, A: j.objPair(x.A, y.A), N: x.N, X: x.X}
	case KFunc:
		if (x.X == nil) != (y.X == nil) {
			j.fail("funcs")
			return Val{}
		}
		if x.X == nil {
			return x
		}
		if x.X.Fn != y.X.Fn {
			j.fail("funcs")
			return Val{}
		}
		return Val{K: KFunc, X: &Ext{Fn: x.X.Fn, Elems: j.vals(x.X.Elems, y.X.Elems)}}
	case KSpec:
		if x.N != y.N {
			j.fail("spec")
		}
		return x
	case KIface:
		if (x.X == nil) != (y.X == nil) || x.X != nil && x.X.T != y.X.T {
			j.fail("iface")
			return Val{}
		}
		if x.X == nil {
			return x
		}
		return Val{K: KIface, X: &Ext{T: x.X.T, Elems: j.vals(x.X.Elems, y.X.Elems)}}
	}
	return x
}

func scalarish(k Kind) bool {
	return k == KUnk || k == KInt || k == KIVar || k == KBool || k == KKey || k == KLen
}

func nodeNil(o *Obj) bool { return o.Kind == ONode || o.Kind == OHeader || o.Kind == ONil }

func (j *joiner) expand(id int32) {
	x, y := j.pa[id], j.pb[id]
	ox, oy := &j.a.Objs[x], &j.b.Objs[y]
	kind := j.r.Objs[id].Kind
	switch kind {
	case OAlloc, OFresh:
		cells := j.vals(ox.Cells, oy.Cells)
		var extra []Val
		if ox.Extra != nil {
			extra = j.vals(ox.Extra, oy.Extra)
		}
		j.r.Objs[id].Cells = cells
		j.r.Objs[id].Extra = extra
	case OCell:
		ow := int32(0)
		if ox.Owner != 0 && oy.Owner != 0 {
			ow = j.objPair(ox.Owner, oy.Owner)
		}
		j.r.Objs[id].Owner = ow
	}
}

func (j *joiner) facts() {
	n := len(j.r.Objs)
	j.r.growRel()
	r := j.r
	for id := 0; id < n; id++ {
		ox, oy := &j.a.Objs[j.pa[id]], &j.b.Objs[j.pb[id]]
		o := &r.Objs[id]
		fx, fy := ox.Facts, oy.Facts
		if ox.Kind == OHeader {
			fx |= FUnmarked // never marked
		}
		if oy.Kind == OHeader {
			fy |= FUnmarked
		}
		o.Facts = fx & fy
		if !isNodeKind(o.Kind) {
			o.Linked = ox.Linked
			continue
		}
		nx, ny := ox.Kind == ONil, oy.Kind == ONil
		if nx || ny {
			// A pair with nil: facts about the node hold if it is not nil.
			if nx && !ny {
				o.Facts = oy.Facts &^ FNonNil
			} else if ny && !nx {
				o.Facts = ox.Facts &^ FNonNil
			}
			// Sound: these facts are claims about a non-nil node only; a
			// maybe-nil value is dereferenced only after it is split.
			if o.Facts&FChain != 0 && ox.Facts&oy.Facts&FChain == 0 {
				o.Facts &^= FChain
			}
		}
		o.Linked = ox.Linked
		o.ObsSuc = ox.ObsSuc & oy.ObsSuc
		switch {
		case nx && !ny:
			o.Path = oy.Path
		case ny && !nx:
			o.Path = ox.Path
		default:
			o.Path = ox.Path & oy.Path
		}
		if nx != ny {
			o.ObsSuc = 0
		}
		if nx {
			o.Linked = oy.Linked
		}
		if o.Kind != OFresh && o.Facts&FMine == 0 {
			o.Linked = 0
		}
		// level
		switch {
		case nx && !ny:
			lo, hi, _ := j.b.ival(Val{K: KIVar, A: oy.Lvl})
			o.Lvl = j.lvlVar(-1, int64(oy.Lvl), lo, hi)
		case ny && !nx:
			lo, hi, _ := j.a.ival(Val{K: KIVar, A: ox.Lvl})
			o.Lvl = j.lvlVar(int64(ox.Lvl), -1, lo, hi)
		case !nx && !ny:
			o.Lvl = j.iv(Val{K: KIVar, A: ox.Lvl}, Val{K: KIVar, A: oy.Lvl})
		}
		// next
		if ox.Next != nil && oy.Next != nil {
			for l := range ox.Next {
				if ox.Next[l] != 0 && oy.Next[l] != 0 {
					if t, ok := j.pair[[2]int32{ox.Next[l] - 1, oy.Next[l] - 1}]; ok {
						if o.Next == nil {
							o.Next = make([]int32, len(ox.Next))
						}
						o.Next[l] = t + 1
					}
				}
			}
		}
		if ox.Pend != 0 && oy.Pend != 0 {
			if t, ok := j.pair[[2]int32{ox.Pend, oy.Pend}]; ok {
				o.Pend = t
			}
		}
		o.SucOf, o.SucLay = 0, 0
		if ox.SucOf != 0 && oy.SucOf != 0 && ox.SucLay == oy.SucLay {
			if t, ok := j.pair[[2]int32{ox.SucOf, oy.SucOf}]; ok {
				o.SucOf, o.SucLay = t, ox.SucLay
			}
		}
	}
	j.locks()
	if !j.okay {
		return
	}
	for id := 0; id < n; id++ {
		o := &r.Objs[id]
		if isNodeKind(o.Kind) && o.Held != HHeld && o.Held != HUnless {
			r.dropUnstable(int32(id))
		}
	}
	for p := 0; p < n; p++ {
		for q := 0; q < n; q++ {
			if p == q {
				continue
			}
			r.Rel[p*r.Stride+q] = j.a.rel(j.pa[p], j.pa[q]) & j.b.rel(j.pb[p], j.pb[q])
		}
	}
}

func (j *joiner) lvlVar(a, b, lo, hi int64) int32 {
	k := [4]int64{a, 7, b, 7}
	if id, ok := j.ivp[k]; ok {
		return id
	}
	id := j.r.newIV(lo, hi)
	j.ivp[k] = id
	return id
}

func (j *joiner) locks() {
	r := j.r
	wa, wb := map[int32]bool{}, map[int32]bool{}
	for id := range r.Objs {
		o := &r.Objs[id]
		if !isNodeKind(o.Kind) {
			continue
		}
		x, y := j.pa[id], j.pb[id]
		ox, oy := &j.a.Objs[x], &j.b.Objs[y]
		hx, hy := ox.Held, oy.Held
		if ox.Kind == ONil || oy.Kind == ONil {
			if hx == HHeld || hx == HUnless || hy == HHeld || hy == HUnless {
				// held by one only: needs another witness
			}
			o.Held = HDefault
			continue
		}
		lockx := hx == HHeld || hx == HUnless
		locky := hy == HHeld || hy == HUnless
		switch {
		case hx == HHeld && hy == HHeld:
			o.Held = HHeld
			wa[x], wb[y] = true, true
		case lockx && locky:
			// The unless sets must be kept completely: every pair whose component
			// is in either set.
			o.Held = HUnless
			if j.self && !j.covered(ox, j.pa) {
				o.Unless = append(o.Unless, int32(id)) // undecidable
			}
			for q := range r.Objs {
				in := hx == HUnless && contains(ox.Unless, j.pa[q]) || hy == HUnless && contains(oy.Unless, j.pb[q])
				if in && q != id {
					o.Unless = append(o.Unless, int32(q))
				}
			}
			if !j.self {
				// Members without a pair make the condition undecidable.
				if !j.covered(ox, j.pa) || !j.covered(oy, j.pb) {
					j.fail("unless")
					return
				}
			}
			wa[x], wb[y] = true, true
		case hx == HFree && hy == HFree:
			o.Held = HFree
		default:
			o.Held = HDefault
		}
	}
	for i := range j.a.Objs {
		if h := j.a.Objs[i].Held; (h == HHeld || h == HUnless) && !wa[int32(i)] {
			j.fail("lock")
			return
		}
	}
	for i := range j.b.Objs {
		if h := j.b.Objs[i].Held; (h == HHeld || h == HUnless) && !wb[int32(i)] {
			j.fail("lock")
			return
		}
	}
}

func (j *joiner) covered(o *Obj, comp []int32) bool {
	if o.Held != HUnless {
		return true
	}
	for _, u := range o.Unless {
		ok := false
		for _, c := range comp {
			if c == u {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func contains(s []int32, x int32) bool {
	for _, y := range s {
		if y == x {
			return true
		}
	}
	return false
}

// canonical returns the state renumbered by reachability, without garbage.
func canonical(st *State) *State {
	r, why := join(st, st, 0)
	if r == nil {
		panic("self join failed: " + why)
	}
	return r
}

// serialize returns a canonical description of a canonical state.
func serialize(st *State) string {
	b := make([]byte, 0, 4096)
	u := func(x uint64) { b = binary.AppendUvarint(b, x) }
	i := func(x int64) { b = binary.AppendVarint(b, x) }
	var val func(v Val)
	val = func(v Val) {
		b = append(b, byte(v.K))
		switch v.K {
		case KUndef:
			return
		case KIVar:
			iv := st.IV[v.A]
			u(uint64(v.A))
			i(v.N)
			i(iv.Lo)
			i(iv.Hi)
			b = append(b, iv.Flag)
			return
		}
		u(uint64(v.A))
		i(v.N)
		if v.X != nil {
			i(v.X.Len)
			i(v.X.Cap)
			u(uint64(len(v.X.Elems)))
			for _, e := range v.X.Elems {
				val(e)
			}
		}
	}
	for _, f := range st.Frames {
		for _, v := range f.Regs {
			val(v)
		}
		for _, d := range f.Defers {
			val(d.Fn)
			for _, v := range d.Args {
				val(v)
			}
		}
		for _, a := range f.Anch {
			u(uint64(a.Head.Head.Index))
			if a.CasF {
				u(1)
			}
			for _, v := range a.Vals {
				val(v)
			}
		}
	}
	for _, v := range st.Ret {
		val(v)
	}
	for k := range st.Objs {
		o := &st.Objs[k]
		b = append(b, byte(o.Kind), o.Held)
		u(uint64(o.Facts))
		u(uint64(o.ObsSuc))
		u(uint64(o.Linked))
		u(uint64(o.Pend))
		u(uint64(o.Path))
		u(uint64(o.SucOf))
		u(uint64(o.SucLay))
		u(uint64(o.Owner))
		if isNodeKind(o.Kind) {
			iv := st.IV[o.Lvl]
			u(uint64(o.Lvl))
			i(iv.Lo)
			i(iv.Hi)
		}
		u(uint64(len(o.Unless)))
		for _, x := range o.Unless {
			u(uint64(x))
		}
		for _, x := range o.Next {
			u(uint64(x))
		}
		for _, v := range o.Cells {
			val(v)
		}
		for _, v := range o.Extra {
			val(v)
		}
		for q := range st.Objs {
			if q != k {
				b = append(b, st.rel(int32(k), int32(q)))
			}
		}
	}
	g := st.G
	for _, x := range []bool{g.InsDone, g.DelDone, g.CasStore, g.CbBusy, g.Stopped, g.RangeEnd, g.EvAbsent, g.Wrote} {
		if x {
			u(1)
		} else {
			u(0)
		}
	}
	i(int64(g.N))
	i(int64(g.V))
	i(int64(g.Last))
	i(int64(g.EndPend))
	i(int64(g.LenDelta))
	i(int64(g.Calls))
	i(g.HL)
	u(uint64(g.Absent))
	u(uint64(g.Solo))
	i(int64(g.LenObs))
	val(g.InsData)
	return string(b)
}

// key returns the partition of a state: two states at one program point are
// joined only if their keys agree.
func (e *Eng) key(st *State) string {
	b := make([]byte, 0, 256)
	i := func(x int64) { b = binary.AppendVarint(b, x) }
	seen := map[int32]bool{}
	var val func(v Val, arr bool)
	val = func(v Val, arr bool) {
		switch v.K {
		case KUndef:
			b = append(b, 0)
		case KInt, KBool:
			if arr {
				b = append(b, byte(KInt))
				return
			}
			b = append(b, byte(v.K))
			i(v.N)
		case KIVar:
			if arr {
				b = append(b, byte(KInt))
				return
			}
			b = append(b, byte(v.K))
			if iv := &st.IV[v.A]; iv.Flag&IvHL != 0 {
				i(iv.Hi) // bounds what was searched afterwards
			}
		case KPtr:
			if arr {
				return
			}
			b = append(b, byte(v.K))
			switch {
			case v.A == 0:
				b = append(b, 'n')
			default:
				o := &st.Objs[v.A]
				b = append(b, 'p', byte(o.Kind))
				if o.Kind == ONode || o.Kind == OHeader {
					// a held node is not mixed with others
					b[len(b)-1] = byte(ONode)
					b = append(b, o.Held)
				}
				i(v.N)
				if o.Kind == OAlloc && !seen[v.A] {
					seen[v.A] = true
					big := len(o.Cells) > 3
					for _, c := range o.Cells {
						val(c, big)
					}
				}
			}
		case KVal:
			b = append(b, byte(v.K))
			i(v.N)
		case KAgg, KTuple:
			b = append(b, byte(v.K))
			big := len(v.X.Elems) > 3
			for _, c := range v.X.Elems {
				val(c, big || arr)
			}
		case KSlice:
			b = append(b, byte(v.K))
			if v.A == 0 {
				b = append(b, 'n')
			} else {
				i(v.X.Len)
				i(v.N)
				if !seen[v.A] {
					seen[v.A] = true
					for _, c := range st.Objs[v.A].Cells {
						val(c, true)
					}
				}
			}
		case KFunc:
			b = append(b, byte(v.K))
			if v.X == nil {
				b = append(b, 'n')
			} else {
				i(int64(e.fnID(v.X.Fn)))
				for _, c := range v.X.Elems {
					val(c, false)
				}
			}
		default:
			b = append(b, byte(v.K))
			if v.X == nil {
				b = append(b, 'n')
			} else {
				for _, c := range v.X.Elems {
					val(c, false)
				}
			}
		}
	}
	for _, f := range st.Frames {
		for _, v := range f.Regs {
			val(v, false)
		}
		i(int64(len(f.Defers)))
		for _, d := range f.Defers {
			val(d.Fn, false)
			for _, a := range d.Args {
				val(a, false)
			}
		}
		i(int64(len(f.Anch)))
	}
	for _, v := range st.Ret {
		val(v, false)
	}
	g := &st.G
	b = append(b, byte(st.Unwind), byte(g.LenDelta), byte(g.Calls), g.Solo)
	for k, x := range []bool{g.N != 0, g.V != 0, g.InsDone, g.DelDone, g.CasStore, g.CbBusy, g.Stopped, g.RangeEnd, g.EvAbsent, g.Wrote, g.Last != 0} {
		if x {
			b = append(b, byte(k))
		}
	}
	if g.N != 0 {
		i(int64(st.Objs[g.N].Linked))
	}
	if g.V != 0 {
		i(int64(st.Objs[g.V].Linked))
		// The loops over its layers are exact for each height.
		if v := st.Objs[g.V].Lvl; st.IV[v].Lo == st.IV[v].Hi {
			i(st.IV[v].Lo)
		} else {
			i(-1)
		}
	}
	return string(b)
}

func (e *Eng) fnID(f *ssa.Function) int {
	if id, ok := e.fnIDs[f]; ok {
		return id
	}
	id := len(e.fnIDs) + 1
	e.fnIDs[f] = id
	return id
}
