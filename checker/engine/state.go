// Package engine is an abstract interpreter for the SSA form of the lazy skip
// list implementations in this repository.  It never runs the code under
// analysis: it propagates abstract states (finite sets of facts about symbolic
// nodes, locks and order relations) over all paths of every operation,
// including everything the operation calls, and checks protocol obligations at
// every access to shared memory, lock operation, callback and return.
package engine

import (
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Kind is the kind of an abstract value.
type Kind uint8

const (
	KUndef Kind = iota
	KInt        // constant integer N
	KIVar       // integer variable A plus N
	KBool       // constant boolean N
	KPtr        // pointer to leaf N of object A (A==0: nil)
	KKey        // the key of object A
	KVal        // a value (or key) typed datum, see D* constants
	KAgg        // struct or array by value: flattened leaves in X.Elems
	KTuple      // X.Elems
	KSlice      // object A, first leaf N, X.Len, X.Cap
	KFunc       // function or closure X.Fn with bindings X.Elems; X==nil: nil func
	KSpec       // opaque function: N is one of Spec*
	KIface      // interface holding X.Elems[0] of type X.T; X==nil: nil interface
	KUnk        // unknown scalar without pointers
	KNaN        // (comparator evaluation only)
	KLen        // the length of the (string) key of object A
)

// Data kinds of KVal.
const (
	DZero  = 0 // zero value of a type parameter
	DParam = 1 // the value parameter of the operation
	DCell  = 2 // the content of shared value cell A
	DCb    = 3 // the result of the user callback
	DOther = 4 // anything else
)

// Kinds of KSpec.
const (
	SpecLess = 1
	SpecUser = 2
	SpecPure = 3 // a function of a package of pure or random functions
)

// Ext is the rarely used part of a value.
type Ext struct {
	Elems []Val
	Fn    *ssa.Function
	T     types.Type
	Len   int64
	Cap   int64
}

// Val is an abstract value.
type Val struct {
	K Kind
	A int32
	N int64
	X *Ext
}

func mkInt(n int64) Val { return Val{K: KInt, N: n} }
func mkBool(b bool) Val {
	if b {
		return Val{K: KBool, N: 1}
	}
	return Val{K: KBool}
}
func mkPtr(o int32, off int64) Val { return Val{K: KPtr, A: o, N: off} }

var nilPtr = Val{K: KPtr}

// Object kinds.
type OKind uint8

const (
	ONil    OKind = iota // object 0: nil, also the end of every list (+infinity)
	OSearch              // object 1: the key the operation was called with
	OMap                 // object 2: the map
	OHeader              // object 3: its header node (-infinity)
	ONode                // a node of the map
	OFresh               // a node allocated by this operation, not finished
	OAlloc               // other memory allocated by this operation
	OCell                // a value cell read from a node
	OGlobal              // a package level variable
	ODead                // merged into another object
)

const (
	objNil    = 0
	objKey    = 1
	objMap    = 2
	objHeader = 3
	nFixed    = 4
)

// extraBase is the first leaf number of the optional array of a node.
const extraBase = 1000

// Positive facts about objects. Joins intersect them.
type Fact uint32

const (
	FNonNil      Fact = 1 << iota
	FFL               // fully linked (monotone)
	FMarked           // marked (monotone)
	FMine             // marked by this operation
	FUnmarked         // not marked, stable while held
	FObsPresent       // observed fully linked and unmarked during the operation
	FObsAbsent        // observed not linked yet, or marked
	FHandled          // Range: passed to the callback or observed not present
	FChain            // Range: reached from the header over handled nodes only
	FNaN              // its key is a NaN
	FNotNaN           // its key is not a NaN
	FFrozen           // OAlloc: published as value cell
	FOkToken          // OCell: loaded before the node was observed present
	FTaken            // OCell: taken from a node after this operation marked it
	FAfterMark        // OCell: loaded after this operation marked the node
	FCounted          // OFresh: length was incremented
	FPublished        // OFresh: linked at some layer
	FObsUnmarked      // observed unmarked during the operation
	FIn               // solo: in the list, fully linked and unmarked unless it is the own removed node
	FNonEmpty         // its (string) key is not empty
	FCur              // solo: OCell: the current value of its node
)

// Lock status of a node.
const (
	HDefault = 0 // held iff it is the same node as a held one
	HHeld    = 1
	HUnless  = 2 // held unless it is one of Unless
	HFree    = 3 // not held by this operation
)

// Obj is an abstract object.
type Obj struct {
	Kind   OKind
	Typ    types.Type // OAlloc, OFresh: element type; OGlobal
	Site   ssa.Value  // OAlloc: allocation site, OGlobal: the variable
	Cells  []Val      // OAlloc, OFresh: leaves; OFresh: followed by nothing
	Extra  []Val      // OFresh: leaves of the optional array
	Facts  Fact
	Lvl    int32 // nodes: integer variable of the level
	Held   uint8
	Unless []int32
	Next   []int32 // nodes: stable knowledge of the next pointers: 0 unknown, else object+1
	ObsSuc uint32  // nodes: layers at which it was read as the successor of a node before the search key
	Linked uint32  // OFresh: layers linked, FMine: layers unlinked
	Pend   int32   // Range: reached from this node, which is not handled yet
	Path   uint32  // nodes: layers at which a search for the key may go on from it
	SucOf  int32   // nodes: read as the successor of this node
	SucLay uint8   // at this layer
	Owner  int32   // OCell: its node
	Tag    int32   // OCell: unused
}

// IVar is the interval of an integer variable.
type IVar struct {
	Lo, Hi int64
	Flag   uint8
}

// Flags of integer variables.
const (
	IvHL  = 1 // highestLevel had this value at some moment of the operation
	IvObs = 2 // and this counts as evidence of absence at the layers above
	IvNew = 4 // and it has not been read since: all others were not greater

	IvCurHL  = 8  // solo: the current highestLevel
	IvCurLen = 16 // solo: the current length
)

// hl is a lower bound of highestLevel.
func (st *State) hl() int64 {
	h := st.G.HL
	for i := range st.IV {
		if v := &st.IV[i]; v.Flag&IvHL != 0 && v.Lo > h {
			h = v.Lo
		}
	}
	return h
}

// absent returns the layers at which the search key was seen absent.
func (st *State) absent() uint32 {
	m := st.G.Absent
	for i := range st.IV {
		if v := &st.IV[i]; v.Flag&IvObs != 0 && v.Hi >= 0 && v.Hi < 31 {
			m |= st.G.Full &^ (uint32(1)<<v.Hi - 1)
		}
	}
	return m
}

const (
	minI = math.MinInt64
	maxI = math.MaxInt64
)

// Relations between the keys of two objects a, b.
const (
	RLE  uint8 = 1 // key(a) <= key(b)
	RLT  uint8 = 2 // key(a) <  key(b)
	RPLE uint8 = 4 // a is the same node as b, or key(a) < key(b)
	RNE  uint8 = 8 // different nodes
)

// Ghost is the history of the operation.
type Ghost struct {
	N        int32 // node being inserted (OFresh), 0 if none
	V        int32 // node marked by this operation, 0 if none
	Last     int32 // Range: node last passed to the callback
	EndPend  int32 // Range: end of list was seen from this node
	InsDone  bool
	InsData  Val // value of the inserted node
	DelDone  bool
	LenDelta int8
	CasStore bool // a value was stored into a present node
	Calls    int8 // callbacks started
	CbBusy   bool // a callback did not return normally
	Stopped  bool // Range: the callback returned false
	RangeEnd bool
	EvAbsent bool
	HL       int64  // lower bound of highestLevel
	Full     uint32 // all layers
	Absent   uint32 // layers at which the key was seen absent
	LenObs   int32  // integer variable loaded from length +1
	Wrote    bool
	Solo     uint8 // no other operation is in progress: iteration of the loop that is examined
}

// Deferred is a pending deferred call.
type Deferred struct {
	Call *ssa.Defer
	Fn   Val
	Args []Val
}

// Anchor remembers loop variables at a loop header.
type Anchor struct {
	Head *Loop
	Vals []Val
	CasF bool // a CAS failed since
}

// Frame is an activation.
type Frame struct {
	Fi     *FnInfo
	Regs   []Val
	Defers []Deferred
	Anch   []Anchor
	Call   ssa.Instruction // call in the caller
	Recov  bool            // recover() was called with effect in this activation
	Unwind uint8           // unwinding state of a deferred call's parent
}

// Unwind kinds.
const (
	UNone   = 0
	UPanic  = 1
	UGoexit = 2
)

// State is an abstract state.
type State struct {
	Frames []*Frame
	Objs   []Obj
	Rel    []uint8 // len(Objs) stride cap
	Stride int
	IV     []IVar
	G      Ghost
	Unwind uint8
	Ret    []Val
	Trace  *Trace
}

// Trace is the reversed list of branch positions of one path to the state.
type Trace struct {
	Prev *Trace
	Pos  ssa.Instruction
	Msg  string
	N    int
}

func (st *State) clone() *State {
	n := &State{
		Frames: make([]*Frame, len(st.Frames)),
		Objs:   make([]Obj, len(st.Objs), len(st.Objs)+4),
		Rel:    append([]uint8(nil), st.Rel...),
		Stride: st.Stride,
		IV:     append(make([]IVar, 0, len(st.IV)+4), st.IV...),
		G:      st.G,
		Unwind: st.Unwind,
		Trace:  st.Trace,
	}
	if st.Ret != nil {
		n.Ret = append([]Val(nil), st.Ret...)
	}
	for i, f := range st.Frames {
		g := *f
		g.Regs = append([]Val(nil), f.Regs...)
		if f.Defers != nil {
			g.Defers = append([]Deferred(nil), f.Defers...)
		}
		if f.Anch != nil {
			g.Anch = append([]Anchor(nil), f.Anch...)
		}
		n.Frames[i] = &g
	}
	copy(n.Objs, st.Objs)
	for i := range n.Objs {
		o := &n.Objs[i]
		if o.Cells != nil {
			o.Cells = append([]Val(nil), o.Cells...)
		}
		if o.Extra != nil {
			o.Extra = append([]Val(nil), o.Extra...)
		}
		if o.Next != nil {
			o.Next = append([]int32(nil), o.Next...)
		}
		if o.Unless != nil {
			o.Unless = append([]int32(nil), o.Unless...)
		}
	}
	return n
}

func (st *State) top() *Frame { return st.Frames[len(st.Frames)-1] }

func (st *State) newObj(o Obj) int32 {
	id := len(st.Objs)
	st.Objs = append(st.Objs, o)
	st.growRel()
	return int32(id)
}

func (st *State) growRel() {
	n := len(st.Objs)
	if n > st.Stride {
		ns := st.Stride*2 + 8
		for ns < n {
			ns *= 2
		}
		r := make([]uint8, ns*ns)
		for i := 0; i < st.Stride; i++ {
			copy(r[i*ns:i*ns+st.Stride], st.Rel[i*st.Stride:(i+1)*st.Stride])
		}
		st.Rel, st.Stride = r, ns
	}
}

func (st *State) newIV(lo, hi int64) int32 {
	st.IV = append(st.IV, IVar{Lo: lo, Hi: hi})
	return int32(len(st.IV) - 1)
}

func (st *State) freshInt(lo, hi int64) Val {
	if lo == hi {
		return mkInt(lo)
	}
	return Val{K: KIVar, A: st.newIV(lo, hi)}
}

// satAdd adds without overflow.
func satAdd(a, b int64) int64 {
	c := a + b
	if b > 0 && c < a {
		return maxI
	}
	if b < 0 && c > a {
		return minI
	}
	return c
}

// ival returns the interval of an integer value.
func (st *State) ival(v Val) (lo, hi int64, ok bool) {
	switch v.K {
	case KInt:
		return v.N, v.N, true
	case KIVar:
		iv := st.IV[v.A]
		return satAdd(iv.Lo, v.N), satAdd(iv.Hi, v.N), true
	}
	return 0, 0, false
}

func (st *State) rel(a, b int32) uint8 {
	if a == b {
		return RLE | RPLE
	}
	return st.Rel[int(a)*st.Stride+int(b)]
}

func composeRel(x, y uint8) uint8 {
	// a x b, b y c
	var r uint8
	if x&RLE == 0 || y&RLE == 0 {
		return 0
	}
	r = RLE
	if x&RLT != 0 || y&RLT != 0 {
		return RLE | RLT | RPLE | RNE
	}
	if x&RPLE != 0 && y&RPLE != 0 {
		r |= RPLE
	}
	return r
}

var compTab [16][16]uint8

func init() {
	for i := range compTab {
		for j := range compTab {
			compTab[i][j] = composeRel(uint8(i), uint8(j))
		}
	}
}

func normRel(r uint8) uint8 {
	if r&RPLE != 0 && r&RNE != 0 {
		r |= RLT
	}
	if r&RLT != 0 {
		r |= RLE | RPLE | RNE
	}
	if r&RPLE != 0 {
		r |= RLE
	}
	return r
}

// addRel records a relation and closes the matrix. It reports whether the
// state stays consistent.
func (st *State) addRel(a, b int32, bits uint8) bool {
	if a == b {
		return bits&(RLT|RNE) == 0
	}
	n := len(st.Objs)
	s := st.Stride
	old := st.Rel[int(a)*s+int(b)]
	nw := normRel(old | bits)
	if nw == old {
		return nw&RLT == 0 || st.rel(b, a)&RLE == 0
	}
	if bits&RNE != 0 && old&RNE == 0 {
		// symmetric
		st.Rel[int(a)*s+int(b)] |= RNE
		o2 := st.Rel[int(b)*s+int(a)]
		n2 := normRel(o2 | RNE)
		st.Rel[int(b)*s+int(a)] = o2 | RNE
		if n2 != o2|RNE {
			if !st.addRel(b, a, n2) {
				return false
			}
		}
		nw = normRel(st.Rel[int(a)*s+int(b)] | bits)
	}
	type todo struct {
		a, b int32
		r    uint8
	}
	// Closing over one new edge: all x <= a and b <= y.
	var pre, suc [256]int32
	np, ns := 0, 0
	for x := 0; x < n; x++ {
		if x == int(a) || st.Rel[x*s+int(a)]&RLE != 0 {
			if np < len(pre) {
				pre[np] = int32(x)
				np++
			}
		}
		if x == int(b) || st.Rel[int(b)*s+x]&RLE != 0 {
			if ns < len(suc) {
				suc[ns] = int32(x)
				ns++
			}
		}
	}
	st.Rel[int(a)*s+int(b)] |= nw
	var again []todo
	if nw&RLE != 0 {
		for i := 0; i < np; i++ {
			x := pre[i]
			rx := compTab[st.rel(x, a)&15][nw&15]
			for j := 0; j < ns; j++ {
				y := suc[j]
				r := compTab[rx][st.rel(b, y)&15]
				if x == y {
					if r&RLT != 0 {
						return false
					}
					continue
				}
				p := &st.Rel[int(x)*s+int(y)]
				o := *p
				nn := o | r
				if nn != o {
					*p = nn
					if normRel(nn) != nn {
						again = append(again, todo{x, y, normRel(nn)})
					}
					if r&RNE != 0 {
						q := &st.Rel[int(y)*s+int(x)]
						if *q&RNE == 0 {
							*q |= RNE
							if normRel(*q) != *q {
								again = append(again, todo{y, x, normRel(*q)})
							}
						}
					}
				}
				if nn&RLT != 0 && st.Rel[int(y)*s+int(x)]&RLE != 0 {
					return false
				}
			}
		}
	} else if nw&RLT != 0 && st.rel(b, a)&RLE != 0 {
		return false
	}
	if nw&RNE != 0 {
		q := &st.Rel[int(b)*s+int(a)]
		if *q&RNE == 0 {
			*q |= RNE
			if normRel(*q) != *q {
				again = append(again, todo{b, a, normRel(*q)})
			}
		}
	}
	for _, t := range again {
		if !st.addRel(t.a, t.b, t.r) {
			return false
		}
	}
	return true
}

func (st *State) lt(a, b int32) bool { return a != b && st.rel(a, b)&RLT != 0 }
func (st *State) le(a, b int32) bool { return st.rel(a, b)&RLE != 0 }
func (st *State) eq(a, b int32) bool { return st.le(a, b) && st.le(b, a) }

// distinct reports whether a and b are certainly different nodes.
func (st *State) distinct(a, b int32) bool {
	if a == b {
		return false
	}
	oa, ob := &st.Objs[a], &st.Objs[b]
	if a == objNil {
		return ob.Facts&FNonNil != 0
	}
	if b == objNil {
		return oa.Facts&FNonNil != 0
	}
	if !isNodeKind(oa.Kind) || !isNodeKind(ob.Kind) {
		return oa.Kind != ob.Kind || oa.Kind == OAlloc || oa.Kind == OGlobal || oa.Kind == OMap
	}
	if oa.Kind == OFresh && ob.Kind == OFresh {
		return true
	}
	if oa.Kind == OFresh && oa.Facts&FPublished == 0 || ob.Kind == OFresh && ob.Facts&FPublished == 0 {
		return true
	}
	return (st.rel(a, b)|st.rel(b, a))&(RNE|RLT) != 0
}

func isNodeKind(k OKind) bool { return k == ONode || k == OHeader || k == OFresh }

// notHeader reports whether the node is certainly not the header.
func (st *State) notHeader(a int32) bool {
	return a != objHeader && (st.Objs[a].Kind == OFresh || st.rel(objHeader, a)&(RNE|RLT) != 0)
}
