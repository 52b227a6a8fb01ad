package engine

import "golang.org/x/tools/go/ssa"

// The cost of a search. A search for a key in a skip list reads the successor
// of an entry before the key at some layer only if it came to the entry at
// this layer, or if it saw that the successor at the layer above is not before
// the key; it starts from the head entry at the highest layer in use. Then its
// expected length is logarithmic, given geometric heights. Path is the set of
// layers at which it may go on from an entry.

func (e *Eng) costs(st *State) bool {
	return e.Cost && !e.mute && e.TrackAbsent && e.Mode != "Range" && e.Mode != "Len" && e.Mode != "ctor"
}

// searchStep checks a read of the successor of a.
func (e *Eng) searchStep(st *State, in ssa.Instruction, a int32, layer int) {
	if !e.costs(st) || st.G.InsDone || a == st.G.N || a == st.G.V || st.Objs[a].Facts&FMine != 0 || st.eq(a, objKey) && a != objHeader {
		return
	}
	e.headerPath(st)
	o := &st.Objs[a]
	if !e.check(a == objHeader || st.lt(a, objKey), st, in, "search-end", "the search goes on from an entry that may be behind the key") {
		return
	}
	e.check(o.Path&(1<<layer) != 0 || layer == e.L.Layers-1, st, in, "search-path", "layer %d is searched from an entry at which the search of the layer above did not end: a search may read all entries", layer)
}

// headerPath notes from which layer on the search may start.
func (e *Eng) headerPath(st *State) {
	for i := range st.IV {
		if v := &st.IV[i]; v.Flag&IvHL != 0 && v.Hi >= 1 && v.Hi < 31 {
			st.Objs[objHeader].Path |= st.G.Full &^ (uint32(1)<<(v.Hi-1) - 1)
		}
	}
}

// notePath records that n was read as successor of a.
func (e *Eng) notePath(st *State, a, n int32, layer int) {
	if !e.costs(st) {
		return
	}
	if n == objNil {
		if layer > 0 {
			st.Objs[a].Path |= 1 << (layer - 1)
		}
		return
	}
	if n != objHeader {
		o := &st.Objs[n]
		o.Path |= 1 << layer
		o.SucOf, o.SucLay = a, uint8(layer)
		if st.le(objKey, n) {
			e.descend(st, n)
		}
	}
}

// descend records that n, which is not before the key, ends a layer.
func (e *Eng) descend(st *State, n int32) {
	if o := &st.Objs[n]; o.SucOf != 0 && o.SucLay > 0 {
		st.Objs[o.SucOf].Path |= 1 << (o.SucLay - 1)
	}
}

func (e *Eng) paths(st *State) {
	if !e.costs(st) {
		return
	}
	e.headerPath(st)
	for i := nFixed; i < len(st.Objs); i++ {
		if o := &st.Objs[i]; o.SucOf != 0 && o.SucLay > 0 && st.le(objKey, int32(i)) {
			e.descend(st, int32(i))
		}
	}
}
