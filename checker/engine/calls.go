package engine

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee evaluates the function and arguments of a call.
func (e *Eng) callee(st *State, cc *ssa.CallCommon) (Val, []Val) {
	var args []Val
	fn := Val{K: KUnk}
	if cc.IsInvoke() {
		args = append(args, e.get(st, cc.Value))
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		_ = b
	} else {
		fn = e.get(st, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, e.get(st, a))
	}
	return fn, args
}

func (e *Eng) call(st *State, in *ssa.Call) []*State {
	fn, args := e.callee(st, in.Common())
	// prune what is dead after the call; the result is set afterwards
	return e.callVal(st, in, in.Common(), fn, args, in)
}

// callVal performs a call. res is the value that receives the result.
func (e *Eng) callVal(st *State, in ssa.Instruction, cc *ssa.CallCommon, fn Val, args []Val, res ssa.Value) []*State {
	set := func(s *State, v Val) {
		if res != nil {
			e.set(s, res, v)
		}
	}
	if cc.IsInvoke() {
		recv := args[0]
		if recv.K == KIface && recv.X != nil {
			if m := e.Prog.LookupMethod(recv.X.T, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				a := append([]Val{recv.X.Elems[0]}, args[1:]...)
				return e.callFn(st, in, m, nil, a, set)
			}
		}
		e.undecided(st, in, "unresolved interface call of %s", cc.Method.Name())
		return nil
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(st, in, b, cc, args, set)
	}
	switch fn.K {
	case KFunc:
		if fn.X == nil {
			e.check(false, st, in, "nil-deref", "call of a nil function")
			return nil
		}
		return e.callFn(st, in, fn.X.Fn, fn.X.Elems, args, set)
	case KSpec:
		switch fn.N {
		case SpecLess:
			if len(args) == 2 {
				return e.callLess(st, in, args[0], args[1], func(s *State, b bool) { set(s, mkBool(b)) })
			}
		case SpecUser:
			return e.callback(st, in, cc, args, set)
		case SpecPure:
			sig := cc.Signature()
			if scalars(args) && sig.Results().Len() == 1 {
				set(st, e.unknown(st, sig.Results().At(0).Type()))
				return one(st)
			}
		}
	}
	e.undecided(st, in, "call of an unknown function")
	return nil
}

// callFn calls a function: externals are modelled, others are executed.
func (e *Eng) callFn(st *State, in ssa.Instruction, fn *ssa.Function, free, args []Val, set setter) []*State {
	if outs, ok := e.extern(st, in, fn, args, set); ok {
		return outs
	}
	if len(fn.Blocks) == 0 {
		if o := fn.Origin(); o != nil && len(o.Blocks) > 0 {
			fn = o
		} else {
			e.undecided(st, in, "call of %s, which is not modelled", fn.String())
			return nil
		}
	}
	fi := e.fi(fn)
	caller := st.top()
	if live, ok := caller.Fi.LiveAt[in]; ok && st.Unwind == UNone && caller.Unwind == UNone {
		prune(caller, live)
	}
	fr := &Frame{Fi: fi, Regs: make([]Val, fi.NRegs), Call: in}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.Regs[fi.Idx[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			fr.Regs[fi.Idx[p]] = free[i]
		}
	}
	st.Frames = append(st.Frames, fr)
	outs := e.run(st)
	sig := fn.Signature.Results()
	for _, o := range outs {
		ret := o.Ret
		o.Ret = nil
		if o.Unwind != UNone {
			continue
		}
		switch sig.Len() {
		case 0:
			set(o, Val{K: KTuple, X: &Ext{}})
		case 1:
			if len(ret) == 1 {
				set(o, ret[0])
			}
		default:
			set(o, Val{K: KTuple, X: &Ext{Elems: ret}})
		}
	}
	return outs
}

func (e *Eng) runDefers(st *State, in *ssa.RunDefers) []*State {
	cur := one(st)
	var done []*State
	for len(cur) > 0 {
		var next []*State
		for _, s := range cur {
			if s.Unwind != UNone {
				done = append(done, s)
				continue
			}
			fr := s.top()
			if len(fr.Defers) == 0 {
				done = append(done, s)
				continue
			}
			d := fr.Defers[len(fr.Defers)-1]
			fr.Defers = fr.Defers[: len(fr.Defers)-1 : len(fr.Defers)-1]
			// keep the live set of the RunDefers
			if live, ok := fr.Fi.LiveAt[in]; ok {
				prune(fr, live)
			}
			next = append(next, e.callVal(s, d.Call, d.Call.Common(), d.Fn, d.Args, nil)...)
		}
		cur = next
	}
	return done
}

func (e *Eng) builtin(st *State, in ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, set setter) []*State {
	switch b.Name() {
	case "len", "cap":
		if args[0].K == KKey {
			set(st, Val{K: KLen, A: args[0].A})
			return one(st)
		}
		switch t := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if args[0].K == KSlice {
				n := args[0].X.Len
				if b.Name() == "cap" {
					n = args[0].X.Cap
				}
				set(st, mkInt(n))
				return one(st)
			}
		case *types.Array:
			set(st, mkInt(t.Len()))
			return one(st)
		case *types.Pointer:
			if a, ok := t.Elem().Underlying().(*types.Array); ok {
				set(st, mkInt(a.Len()))
				return one(st)
			}
		}
		set(st, st.freshInt(0, maxI))
		return one(st)
	case "min", "max":
		v := args[0]
		for _, w := range args[1:] {
			if v.K == KInt && w.K == KInt {
				if b.Name() == "min" {
					v = mkInt(min(v.N, w.N))
				} else {
					v = mkInt(max(v.N, w.N))
				}
				continue
			}
			lo1, hi1, ok1 := st.ival(v)
			lo2, hi2, ok2 := st.ival(w)
			if !ok1 || !ok2 {
				v = Val{K: KUnk}
				break
			}
			if b.Name() == "min" {
				v = st.freshInt(min(lo1, lo2), min(hi1, hi2))
			} else {
				v = st.freshInt(max(lo1, lo2), max(hi1, hi2))
			}
		}
		set(st, v)
		return one(st)
	case "append":
		return e.appendTo(st, in, cc, args, set)
	case "copy":
		d, s := args[0], args[1]
		if d.K == KSlice && s.K == KSlice {
			el := leaves(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
			n := min(d.X.Len, s.X.Len)
			if n == 0 {
				set(st, mkInt(0))
				return one(st)
			}
			do, so := &st.Objs[d.A], &st.Objs[s.A]
			if do.Kind == OAlloc && so.Kind == OAlloc {
				tmp := append([]Val(nil), so.Cells[s.N:s.N+n*el]...)
				copy(do.Cells[d.N:], tmp)
				set(st, mkInt(n))
				return one(st)
			}
		}
		e.undecided(st, in, "unsupported copy")
		return nil
	case "recover":
		// Called from a deferred function: its caller is unwinding.
		n := len(st.Frames)
		if n >= 2 {
			p := st.Frames[n-2]
			if p.Unwind == UPanic && !p.Recov {
				p.Recov = true
				set(st, Val{K: KIface, X: &Ext{T: types.Typ[types.Int], Elems: []Val{{K: KUnk}}}})
				return one(st)
			}
		}
		set(st, Val{K: KIface})
		return one(st)
	case "print", "println":
		set(st, Val{K: KTuple, X: &Ext{}})
		return one(st)
	case "clear":
		if s := args[0]; s.K == KSlice && s.A != 0 && st.Objs[s.A].Kind == OAlloc {
			t := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			copy(st.Objs[s.A].Cells[s.N:], e.zeroN(t, s.X.Len))
			return one(st)
		}
	case "ssa:wrapnilchk":
		if !e.derefOK(st, in, args[0]) {
			return nil
		}
		set(st, args[0])
		return one(st)
	case "Add": // unsafe.Add
		e.undecided(st, in, "pointer arithmetic")
		return nil
	}
	e.undecided(st, in, "unsupported builtin %s", b.Name())
	return nil
}

func (e *Eng) appendTo(st *State, in ssa.Instruction, cc *ssa.CallCommon, args []Val, set setter) []*State {
	s, x := args[0], args[1]
	if s.K != KSlice || x.K != KSlice {
		e.undecided(st, in, "append to an unknown slice")
		return nil
	}
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	el := leaves(et)
	n := s.X.Len + x.X.Len
	if n > 4096 {
		e.undecided(st, in, "unbounded append")
		return nil
	}
	cellsOf := func(v Val) []Val {
		if v.A == 0 || v.X.Len == 0 {
			return nil
		}
		o := &st.Objs[v.A]
		if o.Kind != OAlloc {
			return nil
		}
		return append([]Val(nil), o.Cells[v.N:v.N+v.X.Len*el]...)
	}
	for _, v := range []Val{s, x} {
		if v.A != 0 && v.X.Len > 0 && st.Objs[v.A].Kind != OAlloc {
			e.undecided(st, in, "append of shared memory")
			return nil
		}
	}
	add := cellsOf(x)
	if s.A != 0 && n <= s.X.Cap {
		copy(st.Objs[s.A].Cells[s.N+s.X.Len*el:], add)
		set(st, Val{K: KSlice, A: s.A, N: s.N, X: &Ext{Len: n, Cap: s.X.Cap}})
		return one(st)
	}
	// Whether append reallocates is decided as in the runtime only for the
	// case without spare capacity, which always does.
	cells := append(cellsOf(s), add...)
	var site ssa.Value
	if v, ok := in.(ssa.Value); ok {
		site = v
	}
	id := st.newObj(Obj{Kind: OAlloc, Typ: et, Site: site, Cells: cells})
	set(st, Val{K: KSlice, A: id, X: &Ext{Len: n, Cap: n}})
	return one(st)
}

// callback calls the function passed to Range or LoadOrStoreLazy.
func (e *Eng) callback(st *State, in ssa.Instruction, cc *ssa.CallCommon, args []Val, set setter) []*State {
	held := false
	for i := range st.Objs {
		if h := st.Objs[i].Held; h == HHeld || h == HUnless {
			held = true
		}
	}
	var outs []*State
	if e.Mode == "Range" {
		e.check(!held, st, in, "callback-locked", "Range calls the function while holding a lock")
		e.check(!st.G.Wrote, st, in, "callback-dirty", "Range changes the map before it calls the function")
		e.check(!st.G.Stopped, st, in, "range-stop", "Range calls the function again after it returned false")
		if len(args) == 2 {
			k, v := args[0], args[1]
			if e.check(k.K == KKey && k.A >= nFixed && st.realKey(k.A), st, in, "range-key", "Range passes something else than the key of an entry") {
				o := &st.Objs[k.A]
				e.check(v.K == KVal && v.N == DCell && st.Objs[v.A].Owner == k.A, st, in, "range-value", "Range passes a value that does not belong to the key")
				e.check(o.Facts&FObsPresent != 0, st, in, "range-present", "Range passes an entry that was not seen present")
				e.check(o.Facts&FChain != 0, st, in, "range-skip", "Range may have skipped entries before this one")
				if st.G.Last != 0 {
					e.check(st.lt(st.G.Last, k.A), st, in, "range-order", "Range may pass keys out of order or twice")
				}
				st.G.Last = k.A
				st.handled(k.A)
			}
		} else {
			e.undecided(st, in, "unexpected callback arguments")
		}
		if st.G.Calls == 0 {
			st.G.Calls = 1
		}
		p, g := st.clone(), st.clone()
		p.Unwind, g.Unwind = UPanic, UGoexit
		stop := st.clone()
		stop.G.Stopped = true
		set(st, mkBool(true))
		set(stop, mkBool(false))
		outs = append(outs, st, stop, p, g)
		return outs
	}
	// LoadOrStoreLazy
	e.check(st.G.Calls == 0, st, in, "lazy-once", "the function may be called more than once")
	e.check(!st.G.InsDone && st.G.N == 0 && !st.G.Wrote0(), st, in, "callback-dirty", "the function is called while the map is half changed")
	st.G.Calls++
	if st.G.Calls > 2 {
		return nil
	}
	p, g := st.clone(), st.clone()
	p.Unwind, g.Unwind = UPanic, UGoexit
	p.G.CbBusy, g.G.CbBusy = true, true
	set(st, Val{K: KVal, N: DCb})
	return []*State{st, p, g}
}

// Wrote0 reports whether nodes of the map were changed.
func (g *Ghost) Wrote0() bool {
	return g.N != 0 || g.InsDone || g.V != 0 || g.CasStore || g.LenDelta != 0
}

// extern models functions without source.
func (e *Eng) extern(st *State, in ssa.Instruction, fn *ssa.Function, args []Val, set setter) ([]*State, bool) {
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if og := fn.Origin(); og != nil && og.Object() != nil && og.Object().Pkg() != nil {
		pkg = og.Object().Pkg().Path()
	}
	name := fn.Name()
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		t := deref(r.Type())
		if n, ok := types.Unalias(t).(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	unit := Val{K: KTuple, X: &Ext{}}
	switch pkg {
	case "sync/atomic":
		return e.atomicOp(st, in, fn, name, recv, args, set), true
	case "sync":
		if recv == "Mutex" || recv == "RWMutex" { // RLock is not supported: nothing here is protected by shared locks
			e.noWait(st, in, "lock operation")
			switch name {
			case "Lock", "lockSlow":
				if e.lock(st, in, args[0], false) {
					set(st, unit)
					return one(st), true
				}
				return nil, true
			case "Unlock":
				if e.unlock(st, in, args[0]) {
					set(st, unit)
					return one(st), true
				}
				return nil, true
			case "TryLock":
				var outs []*State
				a, ok := e.mutexOf(st, in, args[0])
				if st.G.Solo == 0 || !ok || st.mayHold(a) {
					s := st.clone()
					set(s, mkBool(false))
					outs = append(outs, s)
				}
				if ok && !(st.Objs[a].Held == HHeld) {
					if e.lock(st, in, args[0], true) {
						set(st, mkBool(true))
						outs = append(outs, st)
					}
				}
				return outs, true
			}
		}
		e.undecided(st, in, "unsupported use of package sync: %s.%s", recv, name)
		return nil, true
	case "runtime":
		switch name {
		case "Gosched", "KeepAlive", "GC":
			e.noWaitIf(name == "Gosched", st, in, "runtime.Gosched")
			set(st, unit)
			return one(st), true
		}
	case "time":
		if name == "Sleep" {
			e.noWait(st, in, "time.Sleep")
			set(st, unit)
			return one(st), true
		}
	case "cmp":
		if len(args) == 2 && args[0].K == KKey && args[1].K == KKey {
			return e.cmpPkg(st, in, name, args, set), true
		}
	case "strings":
		if name == "Compare" && len(args) == 2 && args[0].K == KKey && args[1].K == KKey {
			return e.threeWay(st, args[0].A, args[1].A, set), true
		}
	case "math":
		if (name == "IsNaN") && len(args) == 1 && args[0].K == KKey {
			return e.cmpKey(st, token.NEQ, args[0].A, args[0].A, func(s *State, b bool) { set(s, mkBool(b)) }, nil), true
		}
	}
	if len(fn.Blocks) > 0 && fn.Pkg != nil && fn.Pkg.Pkg == e.Pkg {
		return nil, false
	}
	if len(fn.Blocks) > 0 && e.inPkg(fn) {
		return nil, false
	}
	// Pure external functions over scalars.
	if purePkg(pkg) {
		if !scalars(args) {
			e.undecided(st, in, "call of %s with a pointer", fn.String())
			return nil, true
		}
		set(st, e.externResult(st, fn, name, pkg, args))
		return one(st), true
	}
	if len(fn.Blocks) == 0 {
		e.undecided(st, in, "call of %s, which is not modelled", fn.String())
		return nil, true
	}
	return nil, false
}

func (e *Eng) inPkg(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil && f.Pkg.Pkg == e.Pkg {
			return true
		}
		if o := f.Object(); o != nil && o.Pkg() == e.Pkg {
			return true
		}
		if o := f.Origin(); o != nil && o.Object() != nil && o.Object().Pkg() == e.Pkg {
			return true
		}
	}
	return fn.Synthetic != "" && fn.Pkg == nil
}

// purePkg reports whether the functions of a package over scalars compute
// something or draw a random number, and do nothing else.
func purePkg(path string) bool {
	return strings.HasSuffix(path, "fastrand") || path == "math" || strings.HasPrefix(path, "math/")
}

func scalars(args []Val) bool {
	for _, a := range args {
		if a.K == KPtr || a.K == KSlice || a.K == KIface || a.K == KFunc {
			return false
		}
	}
	return true
}

func (e *Eng) externResult(st *State, fn *ssa.Function, name, pkg string, args []Val) Val {
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return Val{K: KTuple, X: &Ext{}}
	}
	if res.Len() > 1 {
		return e.unknown(st, res)
	}
	t := res.At(0).Type()
	if !isIntT(t) {
		return Val{K: KUnk}
	}
	lo, hi := intRange(t)
	switch pkg {
	case "math/bits":
		switch {
		case strings.HasPrefix(name, "TrailingZeros"), strings.HasPrefix(name, "LeadingZeros"), strings.HasPrefix(name, "OnesCount"), strings.HasPrefix(name, "Len"):
			lo, hi = 0, 64
			if strings.HasSuffix(name, "32") {
				hi = 32
			}
			if strings.HasSuffix(name, "16") {
				hi = 16
			}
			if strings.HasSuffix(name, "8") {
				hi = 8
			}
		}
	default:
		switch name {
		case "Uint32n", "Uint64n", "Intn", "Int31n", "Int63n", "Int32n", "Int64n", "IntN", "Int32N", "Int64N", "UintN", "Uint32N", "Uint64N", "N":
			if len(args) >= 1 && args[len(args)-1].K == KInt && args[len(args)-1].N > 0 {
				lo, hi = 0, args[len(args)-1].N-1
			} else if isUnsignedT(t) {
				lo = 0
			}
		case "Int", "Int31", "Int63":
			lo = 0
		}
	}
	return st.freshInt(lo, hi)
}

// threeWay models cmp.Compare and strings.Compare.
func (e *Eng) threeWay(st *State, a, b int32, set setter) []*State {
	var out []*State
	for _, s := range e.cmpKey(st, token.LSS, a, b, func(s *State, x bool) {
		s.Ret = []Val{mkBool(x)}
	}, nil) {
		r := s.Ret[0]
		s.Ret = nil
		if r.N == 1 {
			set(s, mkInt(-1))
			out = append(out, s)
			continue
		}
		for _, q := range e.cmpKey(s, token.EQL, a, b, func(s *State, x bool) {
			if x {
				set(s, mkInt(0))
			} else {
				set(s, mkInt(1))
			}
		}, nil) {
			out = append(out, q)
		}
	}
	return out
}

func (e *Eng) cmpPkg(st *State, in ssa.Instruction, name string, args []Val, set setter) []*State {
	a, b := args[0].A, args[1].A
	if !e.KeyFloat {
		switch name {
		case "Compare":
			return e.threeWay(st, a, b, set)
		case "Less":
			return e.cmpKey(st, token.LSS, a, b, func(s *State, x bool) { set(s, mkBool(x)) }, nil)
		}
	}
	// NaN is less than any non-NaN, and equal to itself.
	var out []*State
	for _, nanA := range []bool{false, true} {
		for _, nanB := range []bool{false, true} {
			s := st.clone()
			if !e.setNaN(s, a, nanA) || !e.setNaN(s, b, nanB) || !e.evidence(s) {
				continue
			}
			if !nanA && !nanB {
				var q []*State
				if name == "Less" {
					q = e.cmpKey(s, token.LSS, a, b, func(s *State, x bool) { set(s, mkBool(x)) }, nil)
				} else {
					q = e.threeWay(s, a, b, set)
				}
				out = append(out, q...)
				continue
			}
			r := int64(0)
			switch {
			case nanA && !nanB:
				r = -1
			case nanB && !nanA:
				r = 1
			}
			if name == "Less" {
				set(s, mkBool(r < 0))
			} else {
				set(s, mkInt(r))
			}
			out = append(out, s)
		}
	}
	return out
}

// noWait reports an operation which wait-free operations must not perform.
func (e *Eng) noWait(st *State, in ssa.Instruction, what string) { e.noWaitIf(true, st, in, what) }

func (e *Eng) noWaitIf(bad bool, st *State, in ssa.Instruction, what string) {
	if e.Mode == "Load" || e.Mode == "Range" || e.Mode == "Len" {
		e.check(!bad, st, in, "wait-free", "%s performs a %s", e.Mode, what)
	}
}

// atomicOp models sync/atomic.
func (e *Eng) atomicOp(st *State, in ssa.Instruction, fn *ssa.Function, name, recv string, args []Val, set setter) []*State {
	if len(args) == 0 || args[0].K != KPtr {
		e.undecided(st, in, "atomic operation on an unknown address")
		return nil
	}
	p := args[0]
	if !e.derefOK(st, in, p) {
		return nil
	}
	sig := fn.Signature
	op := name
	if recv == "" {
		for _, suf := range []string{"Pointer", "Uint64", "Uint32", "Int64", "Int32", "Uintptr"} {
			if strings.HasSuffix(name, suf) {
				op = strings.TrimSuffix(name, suf)
				break
			}
		}
	}
	var vt types.Type = types.Typ[types.UnsafePointer]
	if recv == "" {
		vt = deref(sig.Params().At(0).Type())
	} else if sig.Results().Len() == 1 && op == "Load" {
		vt = sig.Results().At(0).Type()
	} else if sig.Params().Len() > 0 {
		vt = sig.Params().At(sig.Params().Len() - 1).Type()
	}
	o := &st.Objs[p.A]
	e.noteAtomic(o, p.N, vt, recv != "" && recv != "Value", in)
	shared := o.Kind != OAlloc && !(o.Kind == OFresh && o.Facts&FPublished == 0)
	if op != "Load" && shared {
		e.noWait(st, in, "atomic write")
	}
	unit := Val{K: KTuple, X: &Ext{}}
	switch op {
	case "Load":
		return e.load(st, in, p, scalarOf(vt), true, set)
	case "Store":
		if o.Kind == OMap && e.L.mapRole(p.N) == RoleHL {
			return e.storeHL(st, in, args[1], set, unit)
		}
		outs := e.store(st, in, p, args[1], scalarOf(vt), true)
		for _, s := range outs {
			set(s, unit)
		}
		return outs
	case "CompareAndSwap":
		return e.cas(st, in, p, args[1], args[2], scalarOf(vt), func(s *State, b bool) { set(s, mkBool(b)) })
	case "Swap":
		return e.rmw(st, in, p, scalarOf(vt), func(s *State, old Val) Val { return args[1] }, false, set)
	case "Add":
		return e.atomicAdd(st, in, p, args[1], scalarOf(vt), set)
	case "Or", "And":
		tk := token.OR
		if op == "And" {
			tk = token.AND
		}
		// The functions and methods return the old value (the methods of the
		// integer types, too).
		return e.rmw(st, in, p, scalarOf(vt), func(s *State, old Val) Val { return e.arith(s, tk, old, args[1], vt) }, false, set)
	}
	e.undecided(st, in, "unsupported atomic operation %s", name)
	return nil
}

// Atomic is a kind of place which is accessed with atomic operations.
type Atomic struct {
	Root string // "map", "node", "optional", or the type of other memory
	Leaf int64
	Wide bool // always 64 bits wide
	Auto bool // aligned by the compiler: a type of sync/atomic
}

func (e *Eng) noteAtomic(o *Obj, off int64, t types.Type, auto bool, in ssa.Instruction) {
	a := Atomic{Leaf: off, Auto: auto}
	if k := basicKind(t); k == types.Int64 || k == types.Uint64 {
		a.Wide = true
	}
	switch o.Kind {
	case OMap:
		a.Root = "map"
	case OHeader, ONode, OFresh:
		a.Root = "node"
		if off >= extraBase {
			a.Root = "optional"
			a.Leaf -= extraBase
		}
	default:
		a.Root = "other"
		if o.Typ != nil {
			a.Root = o.Typ.String()
			if isNamed(o.Typ, e.L.Map) {
				a.Root = "map"
			}
		}
	}
	if _, ok := e.Atomics[a]; !ok {
		e.Atomics[a] = e.pos(in)
	}
}

// scalarOf hides that a type parameter like pointer is used as element.
func scalarOf(t types.Type) types.Type { return t }

func (e *Eng) storeHL(st *State, in ssa.Instruction, v Val, set setter, unit Val) []*State {
	e.wrote(st)
	e.check(v.K == KInt && v.N <= 0, st, in, "hl-monotone", "highestLevel is overwritten: a concurrent increase may be lost")
	set(st, unit)
	return one(st)
}

// rmw is an unconditional read-modify-write.
func (e *Eng) rmw(st *State, in ssa.Instruction, p Val, t types.Type, f func(*State, Val) Val, retNew bool, set setter) []*State {
	o := &st.Objs[p.A]
	ret := func(s *State, old, nw Val) {
		if retNew {
			set(s, nw)
		} else {
			set(s, old)
		}
	}
	switch {
	case o.Kind == OAlloc || o.Kind == OFresh:
		role, layer := e.L.nodeRole(p.N)
		if o.Kind == OFresh && role == RoleNext && o.Linked&(1<<layer) != 0 {
			break
		}
		if o.Kind == OFresh && o.Facts&FPublished != 0 && role == RoleFlags {
			c := o.Cells[p.N]
			nw := f(st, c)
			if c.K != KInt || nw.K != KInt {
				e.undecided(st, in, "unknown flags")
				return nil
			}
			outs := e.flagChange(st, in, p.A, c.N, nw.N)
			for _, s := range outs {
				ret(s, c, nw)
			}
			return outs
		}
		var outs []*State
		var old Val
		for _, s := range e.load(st, in, p, t, true, func(s *State, v Val) { old = v }) {
			nw := f(s, old)
			for _, q := range e.store(s, in, p, nw, t, true) {
				ret(q, old, nw)
				outs = append(outs, q)
			}
		}
		return outs
	case isNodeKind(o.Kind):
		role, _ := e.L.nodeRole(p.N)
		switch role {
		case RoleFlags:
			var outs []*State
			e.wrote(st)
			for _, w := range e.words(st, p.A) {
				s := st.clone()
				nw := f(s, mkInt(w))
				if nw.K != KInt {
					e.undecided(st, in, "unknown flags")
					return nil
				}
				if !e.observeWord(s, p.A, w) {
					continue
				}
				for _, q := range e.flagChange(s, in, p.A, w, nw.N) {
					ret(q, mkInt(w), nw)
					outs = append(outs, q)
				}
			}
			return outs
		case RoleValue:
			e.wrote(st)
			a := p.A
			var outs []*State
			var old Val
			for _, s := range e.load(st, in, p, t, true, func(s *State, v Val) { old = v }) {
				nw := f(s, old)
				for _, q := range e.valueSet(s, in, a, nw) {
					ret(q, old, nw)
					outs = append(outs, q)
				}
			}
			return outs
		}
		nw := f(st, Val{K: KUnk})
		e.check(false, st, in, "link-validated", "a field of a shared node is swapped without knowing its old value")
		_ = nw
		return nil
	case o.Kind == OMap:
		e.check(false, st, in, "map-overwrite", "a field of the map is overwritten")
		return nil
	}
	e.undecided(st, in, "unsupported atomic operation")
	return nil
}

func (e *Eng) atomicAdd(st *State, in ssa.Instruction, p, d Val, t types.Type, set setter) []*State {
	o := &st.Objs[p.A]
	if o.Kind == OMap {
		e.wrote(st)
		switch e.L.mapRole(p.N) {
		case RoleLength:
			if d.K != KInt {
				e.undecided(st, in, "unknown change of length")
				return nil
			}
			e.lenAdd(st, in, d.N)
			set(st, st.freshInt(0, maxI))
			return one(st)
		case RoleHL:
			e.check(false, st, in, "hl-monotone", "highestLevel is changed by an addition")
			return nil
		}
		e.check(false, st, in, "map-overwrite", "a field of the map is overwritten")
		return nil
	}
	return e.rmw(st, in, p, t, func(s *State, old Val) Val { return e.arith(s, token.ADD, old, d, t) }, true, set)
}

func (e *Eng) lenAdd(st *State, in ssa.Instruction, d int64) {
	switch d {
	case 0:
		return
	case 1:
		e.check(st.G.LenDelta == 0 && st.G.V == 0, st, in, "len-once", "length is incremented more than once by one operation")
	case -1:
		e.check(st.G.LenDelta == 0, st, in, "len-once", "length is decremented more than once by one operation")
		e.check(st.G.V != 0, st, in, "len-after-mark", "length is decremented before this operation has marked an entry")
	default:
		e.check(false, st, in, "len-once", "length changes by %d", d)
	}
	st.outdate(IvCurLen)
	if v := int64(st.G.LenDelta) + d; v >= -3 && v <= 3 {
		st.G.LenDelta = int8(v)
	}
}

// cas is a compare-and-swap.
func (e *Eng) cas(st *State, in ssa.Instruction, p, old, nw Val, t types.Type, set func(*State, bool)) []*State {
	o := &st.Objs[p.A]
	switch {
	case o.Kind == OAlloc:
		if p.N < 0 || int(p.N) >= len(o.Cells) {
			e.undecided(st, in, "compare-and-swap outside of an object")
			return nil
		}
		var outs []*State
		cur := o.Cells[p.N]
		for _, s := range e.compare(st, in, token.EQL, cur, old, t, func(s *State, b bool) { s.Ret = []Val{mkBool(b)} }, func(s *State) {}) {
			b := len(s.Ret) == 1 && s.Ret[0].N == 1
			s.Ret = nil
			if b {
				s.Objs[p.A].Cells[p.N] = nw
			}
			set(s, b)
			outs = append(outs, s)
		}
		return outs
	case isNodeKind(o.Kind):
		return e.casNode(st, in, p, old, nw, set)
	case o.Kind == OMap:
		e.wrote(st)
		switch e.L.mapRole(p.N) {
		case RoleHL:
			return e.casHL(st, in, old, nw, set)
		case RoleLength:
			var outs []*State
			if !st.current(old, IvCurLen) {
				s := st.clone()
				set(s, false)
				e.casFailed(s)
				outs = append(outs, s)
			}
			switch {
			case old.K == KIVar && nw.K == KIVar && old.A == nw.A:
				e.lenAdd(st, in, nw.N-old.N)
			case old.K == KInt && nw.K == KInt:
				e.lenAdd(st, in, nw.N-old.N)
			default:
				e.check(false, st, in, "len-write", "length is overwritten")
			}
			set(st, true)
			return append(outs, st)
		}
	}
	e.check(false, st, in, "map-overwrite", "unexpected compare-and-swap")
	return nil
}

func (e *Eng) casHL(st *State, in ssa.Instruction, old, nw Val, set func(*State, bool)) []*State {
	_, ohi, ok1 := st.ival(old)
	nlo, nhi, ok2 := st.ival(nw)
	if !ok1 || !ok2 {
		e.undecided(st, in, "unknown highestLevel")
		return nil
	}
	if nw.K == KIVar && nlo != nhi {
		if nhi-nlo < 0 || nhi-nlo > 64 {
			e.check(false, st, in, "hl-range", "highestLevel is set to a value that is not bounded")
			return nil
		}
		var outs []*State
		for i := nlo; i <= nhi; i++ {
			s := st.clone()
			if !s.narrow(nw.A, i-nw.N, i-nw.N) || !e.evidence(s) {
				continue
			}
			outs = append(outs, e.casHL(s, in, old, mkInt(i), set)...)
		}
		return outs
	}
	var outs []*State
	if !st.current(old, IvCurHL) {
		s := st.clone()
		set(s, false)
		e.casFailed(s)
		outs = append(outs, s)
	}
	if ohi < st.hl() {
		return outs // it has grown already
	}
	e.check(nlo >= ohi, st, in, "hl-monotone", "highestLevel is lowered to %d, it may have been %d", nlo, ohi)
	e.check(nlo >= 1 && nlo <= int64(e.L.Layers), st, in, "hl-range", "highestLevel is set to %d, the capacity is %d", nlo, e.L.Layers)
	if nlo > st.G.HL {
		st.G.HL = nlo
	}
	e.Raised = max(e.Raised, nlo)
	st.outdate(IvCurHL)
	set(st, true)
	return append(outs, st)
}
