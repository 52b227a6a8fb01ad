package engine

import (
	"fmt"
	"go/types"
	"strings"
)

// Role is the role of a leaf of a node or of the map.
type Role uint8

const (
	RoleNone Role = iota
	RoleKey
	RoleValue
	RoleFlags
	RoleLevel
	RoleMu
	RoleNext
	RoleExtra
	RoleLength
	RoleHL
	RoleHeader
	RoleLess
)

// Leaf describes one leaf.
type Leaf struct {
	Role  Role
	Layer int // RoleNext
	Typ   types.Type
	Name  string
}

// Layout describes the map and node types of one variant.
type Layout struct {
	Map, Node                                 *types.Named
	MapLeaves                                 []Leaf
	NodeLeaves                                []Leaf
	ExtraLayers                               []int // layer of each leaf of the optional array
	ExtraOff                                  int64 // leaf of the pointer to the optional array, -1 if none
	ExtraBaseL                                int   // first layer in the optional array
	Layers                                    int
	KeyOff, ValOff, FlagsOff, LevelOff, MuOff int64
}

func flatten(t types.Type, name string, out *[]Leaf) {
	if _, ok := opaqueNamed(t); ok {
		*out = append(*out, Leaf{Typ: t, Name: name})
		return
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		*out = append(*out, Leaf{Typ: t, Name: name})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			flatten(u.Field(i).Type(), name+"."+u.Field(i).Name(), out)
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			flatten(u.Elem(), fmt.Sprintf("%s[%d]", name, i), out)
		}
	default:
		*out = append(*out, Leaf{Typ: t, Name: name})
	}
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// ptrLike reports whether a leaf can hold a link: unsafe.Pointer, a pointer to
// the node type or atomic.Pointer.
func ptrLike(t types.Type) bool {
	if isUnsafePtr(t) {
		return true
	}
	if n, ok := opaqueNamed(t); ok {
		return n.Obj().Name() == "Pointer"
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

// intish returns the integer kind of t, looking through sync/atomic types.
func atomicIntName(t types.Type) string {
	if n, ok := opaqueNamed(t); ok && n.Obj().Pkg().Path() == "sync/atomic" {
		if strings.Contains(n.Obj().Name(), "nt") && strings.ContainsAny(n.Obj().Name(), "36") {
			return strings.ToLower(n.Obj().Name())
		}
		return ""
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return b.Name()
	}
	return ""
}

// NewLayout resolves the roles of all fields of the map type m (an instance)
// with keys of type key. Names only decide where types leave a choice.
func NewLayout(m *types.Named, key types.Type) (*Layout, error) {
	l := &Layout{Map: m, ExtraOff: -1, KeyOff: -1, ValOff: -1, FlagsOff: -1, LevelOff: -1, MuOff: -1}
	if structOf(m) == nil {
		return nil, fmt.Errorf("%s is not a struct", m.Obj().Name())
	}
	flatten(m, "", &l.MapLeaves)
	// The node type: the struct with a mutex that the map points to.
	for _, x := range l.MapLeaves {
		p, ok := x.Typ.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		n, ok := types.Unalias(p.Elem()).(*types.Named)
		if !ok || structOf(n) == nil {
			continue
		}
		var ls []Leaf
		flatten(n, "", &ls)
		for _, y := range ls {
			if isMutex(y.Typ) && l.Node == nil {
				l.Node = n
			}
		}
	}
	if l.Node == nil {
		return nil, fmt.Errorf("%s: no pointer to a type of entries", m.Obj().Name())
	}
	var nums []int
	for i := range l.MapLeaves {
		x := &l.MapLeaves[i]
		switch {
		case isNodePtr(x.Typ, l.Node):
			if hasName(x.Name, "head") || !l.hasMapRole(RoleHeader) {
				for k := range l.MapLeaves {
					if l.MapLeaves[k].Role == RoleHeader {
						l.MapLeaves[k].Role = RoleNone
					}
				}
				x.Role = RoleHeader
			}
		case atomicIntName(x.Typ) != "" && strings.Contains(atomicIntName(x.Typ), "int"):
			switch {
			case hasName(x.Name, "level", "height", "layer", "highest"):
				x.Role = RoleHL
			case hasName(x.Name, "len", "count", "size", "num"):
				x.Role = RoleLength
			default:
				nums = append(nums, i)
			}
		default:
			if _, ok := x.Typ.Underlying().(*types.Signature); ok {
				x.Role = RoleLess
			}
		}
	}
	for _, i := range nums {
		x := &l.MapLeaves[i]
		signed := !strings.Contains(atomicIntName(x.Typ), "uint")
		switch {
		case !l.hasMapRole(RoleLength) && (signed || l.hasMapRole(RoleHL)):
			x.Role = RoleLength
		case !l.hasMapRole(RoleHL):
			x.Role = RoleHL
		}
	}
	flatten(l.Node, "", &l.NodeLeaves)
	ls := l.NodeLeaves
	pick := func(role Role, off *int64, ok func(x *Leaf) bool) {
		if *off >= 0 {
			return
		}
		for i := range ls {
			if ls[i].Role == RoleNone && ok(&ls[i]) {
				ls[i].Role = role
				*off = int64(i)
				return
			}
		}
	}
	isInt := func(x *Leaf) bool { return strings.Contains(atomicIntName(x.Typ), "int") }
	single := func(x *Leaf) bool { return ptrLike(x.Typ) && !strings.ContainsAny(x.Name, "[") }
	isKey := func(x *Leaf) bool { return types.Identical(x.Typ, key) }
	pick(RoleMu, &l.MuOff, func(x *Leaf) bool { return isMutex(x.Typ) })
	pick(RoleKey, &l.KeyOff, func(x *Leaf) bool { return isKey(x) && hasName(x.Name, "key") })
	pick(RoleLevel, &l.LevelOff, func(x *Leaf) bool { return isInt(x) && hasName(x.Name, "level", "height", "layer", "lvl", "tower") })
	pick(RoleFlags, &l.FlagsOff, func(x *Leaf) bool { return isInt(x) && hasName(x.Name, "flag", "state", "status", "mark") })
	pick(RoleValue, &l.ValOff, func(x *Leaf) bool { return single(x) && hasName(x.Name, "val", "data", "cell") })
	pick(RoleFlags, &l.FlagsOff, func(x *Leaf) bool {
		return strings.Contains(atomicIntName(x.Typ), "int32") && strings.Count(x.Name, ".") > 1
	})
	pick(RoleKey, &l.KeyOff, isKey)
	pick(RoleFlags, &l.FlagsOff, func(x *Leaf) bool { return strings.Contains(atomicIntName(x.Typ), "int32") })
	pick(RoleLevel, &l.LevelOff, isInt)
	notNext := func(x *Leaf) bool {
		if isNodePtr(x.Typ, l.Node) {
			return false
		}
		if p, ok := x.Typ.Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Array); ok {
				return false
			}
		}
		return single(x)
	}
	pick(RoleValue, &l.ValOff, func(x *Leaf) bool { return notNext(x) && strings.Count(x.Name, ".") == 1 })
	pick(RoleValue, &l.ValOff, notNext)
	for i := range ls {
		x := &ls[i]
		if x.Role != RoleNone {
			continue
		}
		if p, ok := x.Typ.Underlying().(*types.Pointer); ok && !isUnsafePtr(x.Typ) {
			if a, ok := p.Elem().Underlying().(*types.Array); ok && ptrLike(a.Elem()) {
				if l.ExtraOff >= 0 {
					return nil, fmt.Errorf("%s: two optional arrays of successors", l.Node.Obj().Name())
				}
				x.Role = RoleExtra
				l.ExtraOff = int64(i)
				l.ExtraBaseL = l.Layers
				for q := int64(0); q < a.Len(); q++ {
					l.ExtraLayers = append(l.ExtraLayers, l.Layers)
					l.Layers++
				}
				continue
			}
		}
		if ptrLike(x.Typ) {
			x.Role = RoleNext
			x.Layer = l.Layers
			l.Layers++
		}
	}
	if l.ExtraOff < 0 {
		l.ExtraBaseL = l.Layers
	}
	for _, q := range []struct {
		off  int64
		name string
	}{{l.KeyOff, "key"}, {l.ValOff, "value"}, {l.FlagsOff, "flags"}, {l.LevelOff, "level"}, {l.MuOff, "mutex"}} {
		if q.off < 0 {
			return nil, fmt.Errorf("%s: no %s field in %s", m.Obj().Name(), q.name, l.Node.Obj().Name())
		}
	}
	if l.Layers == 0 || l.Layers > 31 {
		return nil, fmt.Errorf("%s: %d layers", m.Obj().Name(), l.Layers)
	}
	return l, nil
}

func (l *Layout) hasMapRole(r Role) bool {
	for i := range l.MapLeaves {
		if l.MapLeaves[i].Role == r {
			return true
		}
	}
	return false
}

func hasName(path string, names ...string) bool {
	path = strings.ToLower(path)
	for _, n := range names {
		if strings.Contains(path, n) {
			return true
		}
	}
	return false
}

func isMutex(t types.Type) bool {
	n, ok := opaqueNamed(t)
	return ok && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// isNodePtr reports whether t is a pointer to node type n (any instance).
func isNodePtr(t types.Type, n *types.Named) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok || isUnsafePtr(t) {
		return false
	}
	return isNamed(p.Elem(), n)
}

func isNamed(t types.Type, n *types.Named) bool {
	m, ok := types.Unalias(t).(*types.Named)
	return ok && m.Origin() == n.Origin()
}

// nodeRole returns the role of leaf off of a node.
func (l *Layout) nodeRole(off int64) (Role, int) {
	if off >= extraBase {
		i := off - extraBase
		if int(i) < len(l.ExtraLayers) {
			return RoleNext, l.ExtraLayers[i]
		}
		return RoleNone, 0
	}
	if off < 0 || int(off) >= len(l.NodeLeaves) {
		return RoleNone, 0
	}
	x := l.NodeLeaves[off]
	return x.Role, x.Layer
}

func (l *Layout) mapRole(off int64) Role {
	if off < 0 || int(off) >= len(l.MapLeaves) {
		return RoleNone
	}
	return l.MapLeaves[off].Role
}

// KeyField returns the index of the key in the struct of nodes, or -1.
func (l *Layout) KeyField() int {
	s := structOf(l.Node)
	for i := 0; i < s.NumFields(); i++ {
		if fieldOff(l.Node, i) == l.KeyOff {
			return i
		}
	}
	return -1
}
