package engine

import (
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func one(st *State) []*State { return []*State{st} }

// step executes one instruction. States with Unwind set are unwinding.
func (e *Eng) step(st *State, in ssa.Instruction) []*State {
	switch in := in.(type) {
	case *ssa.Alloc:
		e.set(st, in, e.alloc(st, in, deref(in.Type())))
		return one(st)
	case *ssa.BinOp:
		return e.binop(st, in)
	case *ssa.UnOp:
		return e.unop(st, in)
	case *ssa.ChangeType:
		e.set(st, in, e.get(st, in.X))
		return one(st)
	case *ssa.Convert:
		e.set(st, in, e.convert(st, in, e.get(st, in.X), in.X.Type(), in.Type()))
		return one(st)
	case *ssa.MultiConvert:
		e.set(st, in, e.convert(st, in, e.get(st, in.X), in.X.Type(), in.Type()))
		return one(st)
	case *ssa.ChangeInterface:
		e.set(st, in, e.get(st, in.X))
		return one(st)
	case *ssa.MakeInterface:
		e.set(st, in, Val{K: KIface, X: &Ext{T: in.X.Type(), Elems: []Val{e.get(st, in.X)}}})
		return one(st)
	case *ssa.TypeAssert:
		return e.typeAssert(st, in)
	case *ssa.Extract:
		t := e.get(st, in.Tuple)
		if t.K == KTuple && in.Index < len(t.X.Elems) {
			e.set(st, in, t.X.Elems[in.Index])
		} else {
			e.set(st, in, Val{K: KUnk})
		}
		return one(st)
	case *ssa.Field:
		v := e.get(st, in.X)
		e.set(st, in, e.subVal(v, fieldOff(in.X.Type(), in.Field), in.Type()))
		return one(st)
	case *ssa.FieldAddr:
		p := e.get(st, in.X)
		if !e.derefOK(st, in, p) {
			return nil
		}
		p.N += fieldOff(deref(in.X.Type()), in.Field)
		e.set(st, in, p)
		return one(st)
	case *ssa.Index:
		return e.index(st, in, in.Index, func(s *State, i int64) bool {
			v := e.get(s, in.X)
			a, ok := in.X.Type().Underlying().(*types.Array)
			if !ok {
				safe := v.K == KKey && i == 0 && s.Objs[v.A].Facts&FNonEmpty != 0
				e.check(safe, s, in, "bounds", "a string which may be empty or too short is indexed")
				e.set(s, in, Val{K: KUnk})
				return true
			}
			if !e.check(i >= 0 && i < a.Len(), s, in, "bounds", "index %d out of range [0,%d)", i, a.Len()) {
				return false
			}
			e.set(s, in, e.subVal(v, i*leaves(a.Elem()), in.Type()))
			return true
		})
	case *ssa.IndexAddr:
		return e.index(st, in, in.Index, func(s *State, i int64) bool {
			p := e.get(s, in.X)
			switch t := in.X.Type().Underlying().(type) {
			case *types.Pointer:
				a := t.Elem().Underlying().(*types.Array)
				if !e.derefOK(s, in, p) {
					return false
				}
				if !e.check(i >= 0 && i < a.Len(), s, in, "bounds", "index %d out of range [0,%d)", i, a.Len()) {
					return false
				}
				p.N += i * leaves(a.Elem())
				e.set(s, in, p)
				return true
			case *types.Slice:
				if p.K != KSlice {
					e.undecided(s, in, "index of an unknown slice")
					return false
				}
				if !e.check(i >= 0 && i < p.X.Len, s, in, "bounds", "index %d out of range [0,%d)", i, p.X.Len) {
					return false
				}
				e.set(s, in, mkPtr(p.A, p.N+i*leaves(t.Elem())))
				return true
			}
			e.undecided(s, in, "unsupported index")
			return false
		})
	case *ssa.Store:
		p, v := e.get(st, in.Addr), e.get(st, in.Val)
		if !e.derefOK(st, in, p) {
			return nil
		}
		return e.store(st, in, p, v, deref(in.Addr.Type()), false)
	case *ssa.Slice:
		return e.slice(st, in)
	case *ssa.MakeSlice:
		n, c := e.get(st, in.Len), e.get(st, in.Cap)
		if n.K != KInt || c.K != KInt || n.N < 0 || c.N < n.N || c.N > 4096 {
			e.undecided(st, in, "slice of unknown length")
			return nil
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		o := st.newObj(Obj{Kind: OAlloc, Typ: et, Site: in, Cells: e.zeroN(et, c.N)})
		e.set(st, in, Val{K: KSlice, A: o, X: &Ext{Len: n.N, Cap: c.N}})
		return one(st)
	case *ssa.SliceToArrayPointer:
		s := e.get(st, in.X)
		if s.K == KSlice {
			a := deref(in.Type()).Underlying().(*types.Array)
			if !e.check(s.X.Len >= a.Len(), st, in, "bounds", "slice too short for array pointer") {
				return nil
			}
			e.set(st, in, mkPtr(s.A, s.N))
			return one(st)
		}
		e.undecided(st, in, "unknown slice")
		return nil
	case *ssa.MakeClosure:
		x := &Ext{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			x.Elems = append(x.Elems, e.get(st, b))
		}
		e.set(st, in, Val{K: KFunc, X: x})
		return one(st)
	case *ssa.Call:
		return e.call(st, in)
	case *ssa.Defer:
		d := Deferred{Call: in}
		d.Fn, d.Args = e.callee(st, in.Common())
		fr := st.top()
		if len(fr.Defers) > 40 {
			e.undecided(st, in, "too many deferred calls")
			return nil
		}
		fr.Defers = append(fr.Defers, d)
		return one(st)
	case *ssa.RunDefers:
		return e.runDefers(st, in)
	case *ssa.Go:
		e.undecided(st, in, "an operation starts a goroutine")
		return nil
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		e.undecided(st, in, "channel operation")
		return nil
	case *ssa.MakeMap, *ssa.MapUpdate, *ssa.Lookup, *ssa.Range, *ssa.Next:
		e.undecided(st, in, "use of a Go map, string index or iterator")
		return nil
	}
	e.undecided(st, in, "unsupported instruction %T", in)
	return nil
}

func (e *Eng) zeroN(t types.Type, n int64) []Val {
	var c []Val
	for i := int64(0); i < n; i++ {
		c = e.zeroLeaves(t, c)
	}
	return c
}

// alloc allocates a zero object.
func (e *Eng) alloc(st *State, site ssa.Value, t types.Type) Val {
	o := Obj{Kind: OAlloc, Typ: t, Site: site, Cells: e.zeroLeaves(t, nil)}
	if isNamed(t, e.L.Node) {
		o.Kind = OFresh
		o.Facts = FNonNil
		o.Lvl = st.newIV(0, 1<<32-1)
	}
	return mkPtr(st.newObj(o), 0)
}

// subVal is the part of aggregate v at leaf off of type t.
func (e *Eng) subVal(v Val, off int64, t types.Type) Val {
	if v.K != KAgg {
		return Val{K: KUnk}
	}
	n := leaves(t)
	if off+n > int64(len(v.X.Elems)) {
		return Val{K: KUnk}
	}
	if isAgg(t) {
		return Val{K: KAgg, X: &Ext{Elems: v.X.Elems[off : off+n : off+n]}}
	}
	return v.X.Elems[off]
}

// derefOK checks that p can be dereferenced, and assumes it.
func (e *Eng) derefOK(st *State, in ssa.Instruction, p Val) bool {
	if p.K != KPtr {
		e.undecided(st, in, "dereference of an unknown pointer")
		return false
	}
	o := &st.Objs[p.A]
	if p.A == 0 {
		e.check(false, st, in, "nil-deref", "nil pointer dereference")
		return false
	}
	if o.Kind == ONode && o.Facts&FNonNil == 0 {
		e.check(false, st, in, "nil-deref", "possible nil pointer dereference")
		return st.assumeNonNil(p.A)
	}
	e.Obl["nil-deref"]++
	return true
}

// index runs f for every possible value of the index.
func (e *Eng) index(st *State, in ssa.Instruction, idx ssa.Value, f func(*State, int64) bool) []*State {
	v := e.get(st, idx)
	if v.K == KInt {
		if f(st, v.N) {
			return one(st)
		}
		return nil
	}
	lo, hi, ok := st.ival(v)
	if !ok {
		e.undecided(st, in, "unknown index")
		return nil
	}
	if lo < -1 || hi > 64 {
		e.check(false, st, in, "bounds", "index not bounded")
		return nil
	}
	var out []*State
	for i := lo; i <= hi; i++ {
		s := st.clone()
		if !s.narrow(v.A, i-v.N, i-v.N) {
			continue
		}
		if !e.evidence(s) {
			continue
		}
		if f(s, i) {
			out = append(out, s)
		}
	}
	return out
}

func (e *Eng) slice(st *State, in *ssa.Slice) []*State {
	x := e.get(st, in.X)
	bound := func(v ssa.Value, def int64) (int64, bool) {
		if v == nil {
			return def, true
		}
		w := e.get(st, v)
		if w.K == KInt {
			return w.N, true
		}
		return 0, false
	}
	var obj int32
	var base, ln, cp, el int64
	switch t := in.X.Type().Underlying().(type) {
	case *types.Pointer:
		if !e.derefOK(st, in, x) {
			return nil
		}
		a := t.Elem().Underlying().(*types.Array)
		obj, base, ln, cp, el = x.A, x.N, a.Len(), a.Len(), leaves(a.Elem())
	case *types.Slice:
		if x.K != KSlice {
			e.undecided(st, in, "unknown slice")
			return nil
		}
		obj, base, ln, cp, el = x.A, x.N, x.X.Len, x.X.Cap, leaves(t.Elem())
	default:
		e.set(st, in, Val{K: KUnk})
		return one(st)
	}
	lo, ok1 := bound(in.Low, 0)
	hi, ok2 := bound(in.High, ln)
	mx, ok3 := bound(in.Max, cp)
	if !ok1 || !ok2 || !ok3 {
		e.undecided(st, in, "unknown slice bounds")
		return nil
	}
	if !e.check(0 <= lo && lo <= hi && hi <= mx && mx <= cp, st, in, "bounds", "slice bounds [%d:%d:%d] out of range with capacity %d", lo, hi, mx, cp) {
		return nil
	}
	e.set(st, in, Val{K: KSlice, A: obj, N: base + lo*el, X: &Ext{Len: hi - lo, Cap: mx - lo}})
	return one(st)
}

func (e *Eng) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	x := e.get(st, in.X)
	if x.K != KIface {
		e.undecided(st, in, "type assertion on an unknown interface value")
		return nil
	}
	ok := false
	if x.X != nil {
		if types.IsInterface(in.AssertedType) {
			ok = types.Implements(x.X.T, in.AssertedType.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(x.X.T, in.AssertedType)
		}
		if x.X.T != nil && e.dependsOnParam(x.X.T) {
			e.undecided(st, in, "behaviour depends on the type argument %s", x.X.T)
		}
	}
	var v Val
	if ok {
		v = x.X.Elems[0]
		if types.IsInterface(in.AssertedType) {
			v = x
		}
	} else {
		v = e.zero(in.AssertedType)
	}
	if x.X != nil && x.X.T != nil && e.KeyParam && isBasic(e.KeyT) && types.Identical(x.X.T, e.KeyT) && !types.IsInterface(in.AssertedType) {
		// The instance stands for all key types which are ordered in the same
		// way, also for defined types: both outcomes are possible.
		if !in.CommaOk {
			e.check(false, st, in, "panic", "type assertion fails for other key types")
			return nil
		}
		var out []*State
		if isFloatT(in.AssertedType) == e.KeyFloat {
			s2 := st.clone()
			e.set(s2, in, Val{K: KTuple, X: &Ext{Elems: []Val{x.X.Elems[0], mkBool(true)}}})
			out = append(out, s2)
		}
		e.set(st, in, Val{K: KTuple, X: &Ext{Elems: []Val{e.zero(in.AssertedType), mkBool(false)}}})
		return append(out, st)
	}
	if in.CommaOk {
		e.set(st, in, Val{K: KTuple, X: &Ext{Elems: []Val{v, mkBool(ok)}}})
		return one(st)
	}
	if !e.check(ok, st, in, "panic", "type assertion fails") {
		return nil
	}
	e.set(st, in, v)
	return one(st)
}

// dependsOnParam reports whether t is a type argument of the instance.
func (e *Eng) dependsOnParam(t types.Type) bool {
	return e.ValT != nil && types.Identical(t, e.ValT) || e.KeyT != nil && !isBasic(e.KeyT) && types.Identical(t, e.KeyT)
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isBasic(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.Basic)
	return ok
}

func (e *Eng) unop(st *State, in *ssa.UnOp) []*State {
	x := e.get(st, in.X)
	switch in.Op {
	case token.MUL:
		if !e.derefOK(st, in, x) {
			return nil
		}
		return e.load(st, in, x, in.Type(), false, func(s *State, v Val) { e.set(s, in, v) })
	case token.NOT:
		if x.K == KBool {
			e.set(st, in, mkBool(x.N == 0))
		} else {
			e.set(st, in, Val{K: KUnk})
		}
		return one(st)
	case token.SUB:
		if x.K == KInt {
			e.set(st, in, mkInt(-x.N))
			return one(st)
		}
	case token.XOR:
		if x.K == KInt {
			e.set(st, in, e.wrap(^x.N, in.Type()))
			return one(st)
		}
	case token.ARROW:
		e.undecided(st, in, "channel operation")
		return nil
	}
	e.set(st, in, e.unknown(st, in.Type()))
	return one(st)
}

// unknown returns an unknown value of a scalar type.
func (e *Eng) unknown(st *State, t types.Type) Val {
	if isIntT(t) {
		lo, hi := intRange(t)
		return st.freshInt(lo, hi)
	}
	if tt, ok := t.(*types.Tuple); ok {
		var el []Val
		for i := 0; i < tt.Len(); i++ {
			el = append(el, e.unknown(st, tt.At(i).Type()))
		}
		return Val{K: KTuple, X: &Ext{Elems: el}}
	}
	if isAgg(t) {
		var ls []Leaf
		flatten(t, "", &ls)
		var el []Val
		for _, l := range ls {
			el = append(el, e.unknown(st, l.Typ))
		}
		return Val{K: KAgg, X: &Ext{Elems: el}}
	}
	return Val{K: KUnk}
}

// wrap reduces a constant to the range of integer type t.
func (e *Eng) wrap(n int64, t types.Type) Val {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return mkInt(n)
	}
	switch b.Kind() {
	case types.Int8:
		n = int64(int8(n))
	case types.Int16:
		n = int64(int16(n))
	case types.Int32:
		n = int64(int32(n))
	case types.Uint8:
		n = int64(uint8(n))
	case types.Uint16:
		n = int64(uint16(n))
	case types.Uint32:
		n = int64(uint32(n))
	}
	return mkInt(n)
}

func isUnsignedT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (e *Eng) binop(st *State, in *ssa.BinOp) []*State {
	x, y := e.get(st, in.X), e.get(st, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return e.compare(st, in, in.Op, x, y, in.X.Type(), func(s *State, b bool) { e.set(s, in, mkBool(b)) },
			func(s *State) { e.set(s, in, Val{K: KUnk}) })
	}
	v := e.arith(st, in.Op, x, y, in.Type())
	if v.K == KIVar && v.N != 0 && x.K == KIVar && v.A == x.A && singleUse(in.X) {
		// A fresh number to which a constant is added is a fresh number.
		if lo, hi, ok := st.ival(v); ok {
			v = st.freshInt(lo, hi)
		}
	}
	e.set(st, in, v)
	if in.Op == token.QUO || in.Op == token.REM {
		if isIntT(in.Type()) {
			lo, hi, ok := st.ival(y)
			e.check(ok && (lo > 0 || hi < 0), st, in, "panic", "possible division by zero")
		}
	}
	return one(st)
}

// singleUse reports whether v is a fresh result of arithmetic which only one
// instruction uses.
func singleUse(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Referrers() == nil || len(*b.Referrers()) != 1 {
		return false
	}
	switch b.Op {
	case token.QUO, token.REM, token.SHR, token.AND, token.MUL:
		return true
	}
	return false
}

func (e *Eng) arith(st *State, op token.Token, x, y Val, t types.Type) Val {
	if !isIntT(t) {
		return Val{K: KUnk}
	}
	if x.K == KInt && y.K == KInt {
		a, b := x.N, y.N
		switch op {
		case token.ADD:
			return e.wrap(a+b, t)
		case token.SUB:
			if isUnsignedT(t) && a < b && (basicKind(t) == types.Uint64 || basicKind(t) == types.Uint || basicKind(t) == types.Uintptr) {
				return mkInt(a - b) // two's complement; comparisons handle it
			}
			return e.wrap(a-b, t)
		case token.MUL:
			return e.wrap(a*b, t)
		case token.QUO:
			if b != 0 && (!isUnsignedT(t) || a >= 0 && b >= 0) {
				return e.wrap(a/b, t)
			}
		case token.REM:
			if b != 0 && (!isUnsignedT(t) || a >= 0 && b >= 0) {
				return e.wrap(a%b, t)
			}
		case token.AND:
			return e.wrap(a&b, t)
		case token.OR:
			return e.wrap(a|b, t)
		case token.XOR:
			return e.wrap(a^b, t)
		case token.AND_NOT:
			return e.wrap(a&^b, t)
		case token.SHL:
			if b >= 0 && b < 64 {
				return e.wrap(a<<uint(b), t)
			}
		case token.SHR:
			if b >= 0 && b < 64 {
				if isUnsignedT(t) {
					return e.wrap(int64(uint64(a)>>uint(b)), t)
				}
				return e.wrap(a>>uint(b), t)
			}
		}
		return e.unknown(st, t)
	}
	lo1, hi1, ok1 := st.ival(x)
	lo2, hi2, ok2 := st.ival(y)
	tlo, thi := intRange(t)
	if !ok1 || !ok2 {
		return st.freshInt(tlo, thi)
	}
	fit := func(v Val) Val {
		lo, hi, _ := st.ival(v)
		if lo < tlo || hi > thi {
			// Counters that would overflow only after 2^31 or more steps saturate.
			if lo >= tlo && lo <= thi && (hi1 == thi || hi2 == thi) {
				return st.freshInt(lo, thi)
			}
			return st.freshInt(tlo, thi)
		}
		return v
	}
	switch op {
	case token.ADD:
		if y.K == KInt {
			if hi1 == maxI && y.N > 0 {
				return st.freshInt(satAdd(lo1, y.N), maxI)
			}
			x.N += y.N
			return fit(x)
		}
		if x.K == KInt {
			return e.arith(st, op, y, x, t)
		}
		lo, hi := satAdd(lo1, lo2), satAdd(hi1, hi2)
		if lo >= tlo && hi <= thi {
			return st.freshInt(lo, hi)
		}
	case token.SUB:
		if y.K == KInt {
			if lo1 == minI && y.N > 0 {
				return st.freshInt(tlo, thi)
			}
			x.N -= y.N
			return fit(x)
		}
		if lo2 > minI && hi2 < maxI {
			lo, hi := satAdd(lo1, -hi2), satAdd(hi1, -lo2)
			if lo >= tlo && hi <= thi {
				return st.freshInt(lo, hi)
			}
		}
	case token.AND:
		if y.K == KInt && y.N >= 0 {
			return st.freshInt(0, y.N)
		}
		if x.K == KInt && x.N >= 0 {
			return st.freshInt(0, x.N)
		}
	case token.SHR:
		if y.K == KInt && lo1 >= 0 && y.N >= 0 && y.N < 63 {
			if hi1 == maxI && isUnsignedT(t) && y.N > 0 {
				return st.freshInt(lo1>>uint(y.N), math.MaxInt64>>uint(y.N-1))
			}
			return st.freshInt(lo1>>uint(y.N), hi1>>uint(y.N))
		}
	case token.QUO:
		if y.K == KInt && y.N > 0 && lo1 >= 0 {
			if hi1 == maxI && isUnsignedT(t) && y.N > 1 {
				return st.freshInt(lo1/y.N, int64(math.MaxUint64/uint64(y.N)))
			}
			return st.freshInt(lo1/y.N, hi1/y.N)
		}
	case token.REM:
		if y.K == KInt && y.N > 0 && lo1 >= 0 {
			return st.freshInt(0, min(hi1, y.N-1))
		}
	case token.MUL:
		if y.K == KInt && y.N >= 0 && lo1 >= 0 && hi1 < 1<<31 && y.N < 1<<31 {
			return st.freshInt(lo1*y.N, hi1*y.N)
		}
	}
	return st.freshInt(tlo, thi)
}

// wordInt reports whether the size of t is that of a machine word.
func wordInt(t types.Type) bool {
	switch basicKind(t) {
	case types.Int, types.Uint, types.Uintptr:
		return true
	}
	return false
}

// widens reports whether conversions from integer type from to integer type to
// keep all values on 32-bit and 64-bit platforms.
func widens(from, to types.Type) bool {
	bits := func(t types.Type) (signed bool, least, most int) {
		switch basicKind(t) {
		case types.Int8:
			return true, 8, 8
		case types.Int16:
			return true, 16, 16
		case types.Int32:
			return true, 32, 32
		case types.Int64:
			return true, 64, 64
		case types.Int:
			return true, 32, 64
		case types.Uint8:
			return false, 8, 8
		case types.Uint16:
			return false, 16, 16
		case types.Uint32:
			return false, 32, 32
		case types.Uint64:
			return false, 64, 64
		case types.Uint:
			return false, 32, 64
		}
		return false, 0, 0
	}
	fs, _, fm := bits(from)
	ts, tl, _ := bits(to)
	if fm == 0 || tl == 0 {
		return false
	}
	if fs == ts {
		return fm <= tl
	}
	return !fs && fm < tl
}

// conv converts between types.
func (e *Eng) convert(st *State, in ssa.Instruction, x Val, from, to types.Type) Val {
	switch {
	case x.K == KPtr:
		if isUnsafePtr(to) {
			return x
		}
		if p, ok := to.Underlying().(*types.Pointer); ok {
			e.checkCast(st, in, x, p.Elem())
			return x
		}
		return Val{K: KUnk} // uintptr
	case x.K == KInt && isIntT(to):
		w := e.wrap(x.N, to)
		if isUnsignedT(to) && w.N < 0 {
			return w
		}
		return w
	case x.K == KIVar && isIntT(to):
		lo, hi, _ := st.ival(x)
		tlo, thi := intRange(to)
		if wordInt(to) && (lo < math.MinInt32 && lo != minI || hi > math.MaxUint32 && hi != maxI || hi > math.MaxInt32 && hi != maxI && tlo < 0) {
			return st.freshInt(tlo, thi) // cut off where words have 32 bits
		}
		if hi == maxI && lo >= 0 && tlo < 0 && isUnsignedT(from) {
			return st.freshInt(tlo, thi) // values of 2^63 and more
		}
		if lo >= tlo && hi <= thi {
			return x
		}
		if lo == minI && hi == maxI && !isUnsignedT(to) && tlo == minI {
			return x
		}
		return st.freshInt(tlo, thi)
	case x.K == KUnk:
		if isIntT(to) {
			tlo, thi := intRange(to)
			return st.freshInt(tlo, thi)
		}
		if isUnsafePtr(to) {
			e.undecided(st, in, "pointer made from an integer")
		}
		return x
	case x.K == KKey:
		if types.Identical(from.Underlying(), to.Underlying()) {
			return x
		}
		if widens(from, to) {
			return x // keeps the order
		}
		if isIntT(to) {
			tlo, thi := intRange(to)
			return st.freshInt(tlo, thi)
		}
		if basicKind(from) == types.Float32 && basicKind(to) == types.Float64 {
			return x // keeps the order and NaNs
		}
		return Val{K: KUnk}
	case isIntT(to):
		tlo, thi := intRange(to)
		return st.freshInt(tlo, thi)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return Val{K: KUnk}
}

// checkCast checks that memory is read as the type it was written as.
func (e *Eng) checkCast(st *State, in ssa.Instruction, p Val, t types.Type) {
	if p.A == 0 {
		return
	}
	o := &st.Objs[p.A]
	ok := false
	what := "memory"
	switch o.Kind {
	case ONode, OHeader, OFresh:
		what = "node"
		ok = p.N == 0 && isNamed(t, e.L.Node)
		if p.N >= extraBase {
			a, isA := t.Underlying().(*types.Array)
			ok = isA && ptrLike(a.Elem())
		} else if p.N != 0 && int(p.N) < len(e.L.NodeLeaves) {
			ok = types.Identical(t, e.L.NodeLeaves[p.N].Typ)
		}
	case OCell:
		what = "value cell"
		ok = p.N == 0 && e.ValT != nil && types.Identical(t, e.ValT)
	case OAlloc:
		what = "cell of type " + o.Typ.String()
		ok = p.N == 0 && types.Identical(t, o.Typ)
		if !ok {
			if p.N < int64(len(o.Cells)) {
				var ls []Leaf
				flatten(o.Typ, "", &ls)
				ok = len(ls) == len(o.Cells) && types.Identical(t, ls[p.N].Typ)
			}
		}
	case OMap:
		ok = isNamed(t, e.L.Map) && p.N == 0
	case OGlobal:
		ok = types.Identical(t, o.Typ)
	}
	e.check(ok, st, in, "cast", "%s reinterpreted as %s", what, t)
}

// compare forks on the outcome of a comparison.
func (e *Eng) compare(st *State, in ssa.Instruction, op token.Token, x, y Val, t types.Type, set func(*State, bool), unk func(*State)) []*State {
	var out []*State
	emit := func(s *State, ok, b bool) {
		if ok {
			set(s, b)
			out = append(out, s)
		}
	}
	if x.K == KLen && y.K == KLen && (op == token.EQL || op == token.NEQ) {
		// Keys of different lengths are different.
		neg := op == token.NEQ
		if x.A == y.A {
			set(st, !neg)
			return one(st)
		}
		s2 := st.clone()
		emit(st, true, !neg)
		if st.realKey(x.A) && st.realKey(y.A) {
			for _, m := range []int{1, 4} {
				s3 := s2.clone()
				emit(s3, e.assumeOrd(s3, x.A, y.A, m), neg)
			}
		} else {
			emit(s2, true, neg)
		}
		return out
	}
	if y.K == KLen && x.K == KInt {
		x, y, op = y, x, flip(op)
	}
	if x.K == KLen && y.K == KInt {
		for _, b := range []bool{true, false} {
			none := st.Objs[x.A].Facts&FNonEmpty == 0 && evalCmp(op, sign(-y.N)) == b // possible if the string is empty
			some := false
			for _, n := range []int64{1, y.N - 1, y.N, y.N + 1} {
				some = some || n > 0 && evalCmp(op, sign(n-y.N)) == b
			}
			if !none && !some {
				continue
			}
			s := st.clone()
			if !none {
				s.Objs[x.A].Facts |= FNonEmpty
			}
			emit(s, true, b)
		}
		return out
	}
	if x.K == KLen {
		x = st.freshInt(0, maxI)
	}
	if y.K == KLen {
		y = st.freshInt(0, maxI)
	}
	// integers
	if (x.K == KInt || x.K == KIVar) && (y.K == KInt || y.K == KIVar) {
		return e.cmpInt(st, op, x, y, t, set, unk)
	}
	if x.K == KKey && y.K == KKey {
		return e.cmpKey(st, op, x.A, y.A, set, unk)
	}
	if x.K == KIface && y.K == KIface && x.X != nil && y.X != nil && x.X.T != nil && types.Identical(x.X.T, y.X.T) {
		x0, y0 := x.X.Elems[0], y.X.Elems[0]
		e.check(!e.dependsOnParam(x.X.T) && types.Comparable(x.X.T), st, in, "panic", "comparing values whose type need not be comparable may panic")
		if x0.K == KKey && y0.K == KKey {
			e.check(!e.UserOrder, st, in, "less-only", "keys are compared without the order function of the caller")
			if !e.dependsOnParam(x.X.T) {
				return e.cmpKey(st, op, x0.A, y0.A, set, unk)
			}
		}
	}
	if op == token.EQL || op == token.NEQ {
		neg := op == token.NEQ
		switch {
		case x.K == KBool && y.K == KBool:
			set(st, (x.N == y.N) != neg)
			return one(st)
		case x.K == KPtr && y.K == KPtr:
			if x.A == y.A {
				set(st, (x.N == y.N || x.A == 0) != neg)
				return one(st)
			}
			ox, oy := &st.Objs[x.A], &st.Objs[y.A]
			nodes := (isNodeKind(ox.Kind) || x.A == 0) && (isNodeKind(oy.Kind) || y.A == 0) || ox.Kind == OCell && oy.Kind == OCell
			if !nodes {
				set(st, neg)
				return one(st)
			}
			if ox.Kind == OCell {
				// tokens: no facts
				s2 := st.clone()
				set(st, true)
				set(s2, false)
				return []*State{st, s2}
			}
			if x.N != y.N {
				if x.A == 0 || y.A == 0 {
					set(st, neg)
					return one(st)
				}
				set(st, neg)
				return one(st)
			}
			if x.N != 0 && (x.A == 0 || y.A == 0) {
				set(st, neg)
				return one(st)
			}
			s2 := st.clone()
			emit(st, e.unify(st, x.A, y.A), !neg)
			emit(s2, e.assumeNeq(s2, x.A, y.A), neg)
			return out
		case x.K == KFunc && y.K == KFunc && (x.X == nil || y.X == nil):
			set(st, ((x.X == nil) == (y.X == nil)) != neg)
			return one(st)
		case x.K == KSpec && y.K == KFunc && y.X == nil, y.K == KSpec && x.K == KFunc && x.X == nil:
			set(st, neg)
			return one(st)
		case x.K == KIface && y.K == KIface && (x.X == nil || y.X == nil):
			if n := x.X; n != nil && n.T != nil && e.dependsOnParam(n.T) {
				break // the type argument may be an interface type
			} else if n = y.X; n != nil && n.T != nil && e.dependsOnParam(n.T) {
				break
			}
			set(st, ((x.X == nil) == (y.X == nil)) != neg)
			return one(st)
		case x.K == KSlice && y.K == KSlice && (x.A == 0 || y.A == 0):
			set(st, (x.A == y.A) != neg)
			return one(st)
		}
	}
	// Unknown outcome.
	s2 := st.clone()
	set(st, true)
	set(s2, false)
	return []*State{st, s2}
}

func sign(n int64) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func evalCmp(op token.Token, c int) bool {
	switch op {
	case token.EQL:
		return c == 0
	case token.NEQ:
		return c != 0
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	}
	return c >= 0
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (e *Eng) cmpInt(st *State, op token.Token, x, y Val, t types.Type, set func(*State, bool), unk func(*State)) []*State {
	cmp := func(a, b int64) int {
		if isUnsignedT(t) {
			ua, ub := uint64(a), uint64(b)
			switch {
			case ua < ub:
				return -1
			case ua > ub:
				return 1
			}
			return 0
		}
		switch {
		case a < b:
			return -1
		case a > b:
			return 1
		}
		return 0
	}
	if x.K == KInt && y.K == KInt {
		set(st, evalCmp(op, cmp(x.N, y.N)))
		return one(st)
	}
	if x.K == KIVar && y.K == KIVar && x.A == y.A {
		set(st, evalCmp(op, cmp(x.N, y.N)))
		return one(st)
	}
	lo1, hi1, _ := st.ival(x)
	lo2, hi2, _ := st.ival(y)
	if isUnsignedT(t) && (lo1 < 0 || lo2 < 0) {
		s2 := st.clone()
		set(st, true)
		set(s2, false)
		return []*State{st, s2}
	}
	if x.K == KInt {
		x, y = y, x
		op = flip(op)
		lo1, hi1, lo2, hi2 = lo2, hi2, lo1, hi1
	}
	if y.K == KInt {
		// split [lo1,hi1] at y
		c := y.N
		parts := [][2]int64{{lo1, min(hi1, satAdd(c, -1))}, {max(lo1, c), min(hi1, c)}, {max(lo1, satAdd(c, 1)), hi1}}
		var out []*State
		// merge adjacent parts of equal outcome
		type seg struct {
			lo, hi int64
			b      bool
		}
		var segs []seg
		for i, p := range parts {
			if p[0] > p[1] {
				continue
			}
			b := evalCmp(op, i-1)
			if n := len(segs); n > 0 && segs[n-1].b == b && segs[n-1].hi+1 == p[0] {
				segs[n-1].hi = p[1]
			} else {
				segs = append(segs, seg{p[0], p[1], b})
			}
		}
		for i, g := range segs {
			s := st
			if i < len(segs)-1 {
				s = st.clone()
			}
			l, h := g.lo, g.hi
			if l != minI {
				l -= x.N
			}
			if h != maxI {
				h -= x.N
			}
			if !s.narrow(x.A, l, h) || !e.evidence(s) {
				continue
			}
			set(s, g.b)
			out = append(out, s)
		}
		return out
	}
	// two variables
	switch {
	case hi1 < lo2:
		set(st, evalCmp(op, -1))
		return one(st)
	case lo1 > hi2:
		set(st, evalCmp(op, 1))
		return one(st)
	}
	v, w, o := x, y, op
	obs := st.IV[y.A].Flag&IvHL != 0 && st.IV[x.A].Flag&IvHL == 0 && hi1-lo1 >= 0 && hi1-lo1 <= 64
	if hi2-lo2 > 64 || hi2-lo2 < 0 || obs {
		v, w, o = y, x, flip(op)
		lo2, hi2 = lo1, hi1
	}
	if hi2-lo2 >= 0 && hi2-lo2 <= 64 {
		var out []*State
		for i := lo2; i <= hi2; i++ {
			s := st.clone()
			if !s.narrow(w.A, i-w.N, i-w.N) || !e.evidence(s) {
				continue
			}
			out = append(out, e.cmpInt(s, o, v, mkInt(i), t, set, unk)...)
		}
		return out
	}
	s2 := st.clone()
	set(st, true)
	set(s2, false)
	return []*State{st, s2}
}

// realKey reports whether the key of object o is the key of an entry (or the
// search key).
func (st *State) realKey(o int32) bool {
	if o == objKey {
		return true
	}
	ob := &st.Objs[o]
	return isNodeKind(ob.Kind) && o != objHeader && ob.Facts&FNonNil != 0 && st.notHeader(o)
}

// cmpKey forks on a comparison of two keys with the operator of their type.
func (e *Eng) cmpKey(st *State, op token.Token, a, b int32, set func(*State, bool), unk func(*State)) []*State {
	if !st.realKey(a) || !st.realKey(b) {
		s2 := st.clone()
		set(st, true)
		set(s2, false)
		return []*State{st, s2}
	}
	type cs struct {
		nanA, nanB bool
		rel        int // list order: -1, 0, 1
		truth      bool
	}
	var cases []cs
	if a == b {
		cases = append(cases, cs{false, false, 0, evalCmp(op, 0)})
		if e.KeyFloat {
			cases = append(cases, cs{true, true, 0, op == token.NEQ})
		}
	} else {
		for nat := -1; nat <= 1; nat++ {
			r := nat
			if e.Desc {
				r = -nat
			}
			cases = append(cases, cs{false, false, r, evalCmp(op, nat)})
		}
		if e.KeyFloat {
			first := -1
			if !e.NaNFirst {
				first = 1
			}
			cases = append(cases, cs{true, false, first, op == token.NEQ}, cs{false, true, -first, op == token.NEQ}, cs{true, true, 0, op == token.NEQ})
		}
	}
	fa, fb := st.Objs[a].Facts, st.Objs[b].Facts
	type group struct {
		nanA, nanB, truth bool
		mask              int
	}
	var gs []group
	for _, c := range cases {
		if c.nanA && fa&FNotNaN != 0 || !c.nanA && fa&FNaN != 0 || c.nanB && fb&FNotNaN != 0 || !c.nanB && fb&FNaN != 0 {
			continue
		}
		if !st.feasible(a, b, c.rel) {
			continue
		}
		found := false
		for i := range gs {
			g := &gs[i]
			if g.nanA == c.nanA && g.nanB == c.nanB && g.truth == c.truth {
				g.mask |= 1 << (c.rel + 1)
				found = true
			}
		}
		if !found {
			gs = append(gs, group{c.nanA, c.nanB, c.truth, 1 << (c.rel + 1)})
		}
	}
	var out []*State
	for _, g := range gs {
		masks := []int{g.mask}
		if g.mask == 5 { // less or greater
			masks = []int{1, 4}
		}
		for _, m := range masks {
			s := st.clone()
			if e.KeyFloat {
				if !e.setNaN(s, a, g.nanA) || !e.setNaN(s, b, g.nanB) {
					continue
				}
			}
			if !e.assumeOrd(s, a, b, m) {
				continue
			}
			set(s, g.truth)
			out = append(out, s)
		}
	}
	return out
}

// feasible reports whether the list order of a and b can be r.
func (st *State) feasible(a, b int32, r int) bool {
	if a == b {
		return r == 0
	}
	switch r {
	case -1:
		return !st.le(b, a)
	case 0:
		return !st.lt(a, b) && !st.lt(b, a)
	}
	return !st.le(a, b)
}

// assumeOrd records that the list order of a and b is in the mask (bits: less, equal, greater).
func (e *Eng) assumeOrd(st *State, a, b int32, mask int) bool {
	ok := true
	if a == b {
		return mask&2 != 0
	}
	switch mask {
	case 1:
		ok = st.addRel(a, b, RLT)
	case 3:
		ok = st.addRel(a, b, RLE)
	case 2:
		ok = st.addRel(a, b, RLE) && st.addRel(b, a, RLE)
	case 6:
		ok = st.addRel(b, a, RLE)
	case 4:
		ok = st.addRel(b, a, RLT)
	}
	return ok && e.evidence(st)
}

// setNaN records whether the key of a is a NaN and derives order facts.
func (e *Eng) setNaN(st *State, a int32, nan bool) bool {
	f, g := FNotNaN, FNaN
	if nan {
		f, g = FNaN, FNotNaN
	}
	if st.Objs[a].Facts&g != 0 {
		return false
	}
	st.Objs[a].Facts |= f
	for i := range st.Objs {
		b := int32(i)
		if b == a || !st.realKey(b) || !st.realKey(a) {
			continue
		}
		fb := st.Objs[b].Facts
		if fb&(FNaN|FNotNaN) == 0 {
			continue
		}
		nb := fb&FNaN != 0
		switch {
		case nan && nb:
			if !st.addRel(a, b, RLE) || !st.addRel(b, a, RLE) {
				return false
			}
		case nan != nb:
			x, y := a, b
			if nan != e.NaNFirst {
				x, y = b, a
			}
			if !st.addRel(x, y, RLT) {
				return false
			}
		}
	}
	return true
}

// callLess forks on the result of the user supplied order.
func (e *Eng) callLess(st *State, in ssa.Instruction, a, b Val, set func(*State, bool)) []*State {
	for _, v := range []Val{a, b} {
		e.check(v.K == KKey && st.realKey(v.A), st, in, "less-key", "the order function of the caller is asked about something that may not be a key given to the map")
	}
	if a.K != KKey || b.K != KKey || !st.realKey(a.A) || !st.realKey(b.A) {
		s2 := st.clone()
		set(st, true)
		set(s2, false)
		return []*State{st, s2}
	}
	var out []*State
	if a.A == b.A {
		set(st, false)
		return one(st)
	}
	if st.feasible(a.A, b.A, -1) {
		s := st.clone()
		if e.assumeOrd(s, a.A, b.A, 1) {
			set(s, true)
			out = append(out, s)
		}
	}
	if e.assumeOrd(st, a.A, b.A, 6) {
		set(st, false)
		out = append(out, st)
	}
	return out
}
