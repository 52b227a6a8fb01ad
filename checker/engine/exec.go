package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is a violated or undecided obligation.
type Finding struct {
	Rule   string
	Msg    string
	Pos    token.Position
	Func   string
	Entry  string
	Trace  []string
	Detail string
}

// Eng analyses the operations of one map type.
type Eng struct {
	Prog *ssa.Program
	Pkg  *types.Package
	L    *Layout

	KeyFloat  bool // keys may be NaN
	NaNFirst  bool // NaNs come first in the order of the list
	Desc      bool // list order is descending
	UserOrder bool // the order is the function given to the constructor
	KeyParam  bool // the key type is a type argument
	KeyT      types.Type
	ValT      types.Type

	Entry       string // method being analysed
	TrackAbsent bool
	Mode        string // method name, or "ctor"

	Findings map[string]*Finding
	Obl      map[string]int // evaluated obligations per rule
	Sites    map[string]map[token.Pos]bool
	Funcs    map[*ssa.Function]bool
	Blocks   int
	States   int
	Deadline time.Time
	Budget   int
	Debug    func(w *worker)

	// global facts of the variant, combined over its methods
	LockFreeStore []*Finding          // values are replaced without the lock of the node
	Dirs          map[string]*Finding // lock orders used
	Atomics       map[Atomic]token.Position
	NeedLocked    []*Finding // returned values which are final only if they are not

	info     map[*ssa.Function]*FnInfo
	fnIDs    map[*ssa.Function]int
	globals  map[*ssa.Global]bool
	depth    int
	aborted  bool
	loopObs  map[*Loop]*loopObs
	retCheck func(st *State, in ssa.Instruction)
	exitFn   *ssa.Function

	// Cost: the steps of searches are checked to be those of a skip list.
	Cost    bool
	Heights uint64 // heights of entries that are linked, less one
	Raised  int64  // greatest value that the highest level is set to

	// Solo: loops which may repeat without progress are examined for repeating
	// when no other operation is in progress (see solo.go).
	Solo   bool
	mute   bool // while they are: nothing is reported
	heads  map[*Loop]map[string]*State
	missed map[*Loop]bool
	force  map[*Loop]bool
	stack  []*ssa.Function
}

type loopObs struct {
	loop  *Loop
	fi    *FnInfo
	edges map[edgeObs]*Finding
}

// NewEng returns an engine for the map type m.
func NewEng(prog *ssa.Program, l *Layout) *Eng {
	return &Eng{Prog: prog, L: l, Findings: map[string]*Finding{}, Obl: map[string]int{}, Funcs: map[*ssa.Function]bool{},
		Sites: map[string]map[token.Pos]bool{},
		info:  map[*ssa.Function]*FnInfo{}, fnIDs: map[*ssa.Function]int{}, globals: map[*ssa.Global]bool{}, loopObs: map[*Loop]*loopObs{}, Dirs: map[string]*Finding{}, Atomics: map[Atomic]token.Position{},
		Budget: 3000000}
}

func (e *Eng) fi(fn *ssa.Function) *FnInfo {
	if f, ok := e.info[fn]; ok {
		return f
	}
	f := newFnInfo(fn)
	e.info[fn] = f
	return f
}

func (e *Eng) pos(in ssa.Instruction) token.Position {
	return e.Prog.Fset.Position(instrPos(in))
}

// report records a finding.
func (e *Eng) report(st *State, in ssa.Instruction, rule, format string, args ...any) *Finding {
	msg := fmt.Sprintf(format, args...)
	f := e.finding(st, in, rule, msg)
	if e.mute && rule != "undecided" {
		return f
	}
	k := rule + "|" + f.Func + "|" + f.Pos.String() + "|" + msg
	if old, ok := e.Findings[k]; ok {
		return old
	}
	e.Findings[k] = f
	return f
}

func (e *Eng) finding(st *State, in ssa.Instruction, rule, msg string) *Finding {
	f := &Finding{Rule: rule, Msg: msg, Entry: e.Entry}
	if in != nil {
		f.Pos = e.pos(in)
		f.Func = in.Parent().Name()
	}
	if st != nil && e.Debug != nil {
		f.Detail = st.Dump()
	}
	if st != nil {
		n := 0
		for t := st.Trace; t != nil && n < 24; t = t.Prev {
			p := e.pos(t.Pos)
			f.Trace = append(f.Trace, fmt.Sprintf("%s:%d %s", shortFile(p.Filename), p.Line, t.Msg))
			n++
		}
	}
	return f
}

func shortFile(f string) string {
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			return f[i+1:]
		}
	}
	return f
}

// check evaluates an obligation.
func (e *Eng) check(ok bool, st *State, in ssa.Instruction, rule, format string, args ...any) bool {
	if e.mute {
		return ok
	}
	e.Obl[rule]++
	if in != nil {
		m := e.Sites[rule]
		if m == nil {
			m = map[token.Pos]bool{}
			e.Sites[rule] = m
		}
		m[instrPos(in)] = true
	}
	if !ok {
		e.report(st, in, rule, format, args...)
	}
	return ok
}

func (e *Eng) undecided(st *State, in ssa.Instruction, format string, args ...any) {
	e.report(st, in, "undecided", format, args...)
}

// Exit is a state at the end of an activation: its top frame is popped, the
// results are in Ret.
type Exit struct {
	St *State
}

type node struct {
	blk  *ssa.BasicBlock
	key  string
	sts  []*State
	sers []string
	join []int
	runs int
	// pending entries
	dirty  []bool
	queued bool
	back   bool // reached over a back edge
}

// run executes the function of the top frame and returns its exits.
func (e *Eng) run(st *State) []*State {
	fr := st.top()
	fi := fr.Fi
	fn := fi.Fn
	e.Funcs[fn] = true
	if len(e.stack) > 40 {
		e.undecided(st, nil, "call depth exceeded in %s", fn.Name())
		return nil
	}
	for _, f := range e.stack {
		if f == fn {
			e.undecided(st, firstInstr(fn), "recursive call of %s", fn.Name())
			return nil
		}
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	if len(fn.Blocks) == 0 {
		return nil
	}
	w := &worker{e: e, fi: fi, nodes: map[string]*node{}, consts: map[int]map[int]map[int64]bool{}}
	w.enter(st, nil, fn.Blocks[0])
	w.loop()
	w.saveHeads()
	if e.Debug != nil {
		e.Debug(w)
	}
	return e.merge(w.exits)
}

func firstInstr(fn *ssa.Function) ssa.Instruction {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			return in
		}
	}
	return nil
}

type worker struct {
	e      *Eng
	fi     *FnInfo
	nodes  map[string]*node
	pend   [][2][]*node // per block: pending nodes, and those reached over back edges only
	order  []int
	exits  []*State
	consts map[int]map[int]map[int64]bool // block -> register -> constants seen
	only   *Loop                          // solo: the loop that is examined
	bad    uint64
}

// prune drops dead registers of the top frame.
func prune(fr *Frame, live bitset) {
	for i := range fr.Regs {
		if fr.Regs[i].K != KUndef && !live.has(i) {
			fr.Regs[i] = Val{}
		}
	}
}

// enter moves a state over the edge from -> to.
func (w *worker) enter(st *State, from, to *ssa.BasicBlock) {
	e := w.e
	fr := st.top()
	if w.only != nil && !w.only.Blocks[to.Index] {
		return
	}
	if from != nil {
		// phis are evaluated in parallel
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		var vals []Val
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if w.fi.phiLive(to, phi) {
				vals = append(vals, e.get(st, phi.Edges[pi]))
			} else {
				vals = append(vals, Val{})
			}
		}
		i := 0
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			fr.Regs[w.fi.Idx[phi]] = vals[i]
			i++
		}
		if l := w.fi.Loops[to.Index]; l != nil && l.Blocks[from.Index] {
			ob, ok := w.backEdge(st, from, l)
			if ok && w.only == l && !w.again(st, from, ob) {
				return
			}
		}
	}
	// leave loops
	for len(fr.Anch) > 0 {
		l := fr.Anch[len(fr.Anch)-1].Head
		if l.Blocks[to.Index] && l.Head != to {
			break
		}
		fr.Anch = fr.Anch[:len(fr.Anch)-1]
	}
	prune(fr, e.condLive(fr, to))
	if l := w.fi.Loops[to.Index]; l != nil {
		w.widen(st, to)
		a := Anchor{Head: l}
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			a.Vals = append(a.Vals, fr.Regs[w.fi.Idx[phi]])
		}
		for _, c := range w.e.anchorCells(st, l) {
			a.Vals = append(a.Vals, c)
		}
		fr.Anch = append(fr.Anch, a)
	}
	w.add(st, to, from != nil && w.fi.Loops[to.Index] != nil && w.fi.Loops[to.Index].Blocks[from.Index])
}

// widen turns loop variables with too many different constants into intervals.
func (w *worker) widen(st *State, b *ssa.BasicBlock) {
	m := w.consts[b.Index]
	if m == nil {
		m = map[int]map[int64]bool{}
		w.consts[b.Index] = m
	}
	fr := st.top()
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r := w.fi.Idx[phi]
		v := fr.Regs[r]
		if v.K != KInt {
			continue
		}
		s := m[r]
		if s == nil {
			s = map[int64]bool{}
			m[r] = s
		}
		if len(s) < 40 {
			s[v.N] = true
			continue
		}
		if s[v.N] {
			continue
		}
		lo, hi := v.N, v.N
		above, below := true, true
		for c := range s {
			if c > v.N {
				above = false
			}
			if c < v.N {
				below = false
			}
		}
		tlo, thi := intRange(phi.Type())
		switch {
		case above:
			hi = thi
		case below:
			lo = tlo
		default:
			lo, hi = tlo, thi
		}
		fr.Regs[r] = st.freshInt(lo, hi)
	}
}

func (w *worker) add(st *State, b *ssa.BasicBlock, back bool) {
	e := w.e
	e.States++
	// Blocks with a single predecessor need no join.
	single := w.fi.Preds[b.Index] <= 1 && b.Index != 0
	if single {
		n := &node{blk: b, sts: []*State{st}, dirty: []bool{true}, join: []int{0}, sers: []string{""}}
		w.push(n, back)
		return
	}
	st = canonical(st)
	key := fmt.Sprintf("%d/", b.Index) + e.key(st)
	n := w.nodes[key]
	if n == nil {
		n = &node{blk: b, key: key}
		w.nodes[key] = n
	}
	ser := serialize(st)
	for i, old := range n.sts {
		if n.sers[i] == ser {
			return
		}
		j, _ := join(old, st, n.join[i])
		if j == nil {
			continue
		}
		js := serialize(j)
		if js == n.sers[i] {
			return
		}
		n.join[i]++
		if n.join[i] > 120 {
			e.undecided(st, nil, "no fixpoint in %s", w.fi.Fn.Name())
			return
		}
		// A join may lose what distinguishes them; it is the new state.
		n.sts[i], n.sers[i] = j, js
		if !n.dirty[i] {
			n.dirty[i] = true
			w.push(n, back)
		}
		return
	}
	if len(n.sts) >= 64 {
		e.undecided(st, nil, "too many incomparable states in %s", w.fi.Fn.Name())
		return
	}
	n.sts = append(n.sts, st)
	n.sers = append(n.sers, ser)
	n.join = append(n.join, 0)
	n.dirty = append(n.dirty, true)
	w.push(n, back)
}

func (w *worker) push(n *node, back bool) {
	if w.pend == nil {
		w.pend = make([][2][]*node, len(w.fi.Fn.Blocks))
		w.order = make([]int, 0, len(w.fi.Fn.Blocks))
		for i := range w.fi.Fn.Blocks {
			w.order = append(w.order, i)
		}
		sort.Slice(w.order, func(i, j int) bool { return w.fi.RPO[w.order[i]] < w.fi.RPO[w.order[j]] })
	}
	q := &w.pend[n.blk.Index]
	if n.queued {
		if n.back && !back {
			// move it
			for i, x := range q[1] {
				if x == n {
					q[1] = append(q[1][:i], q[1][i+1:]...)
					break
				}
			}
			n.back = false
			q[0] = append(q[0], n)
		}
		return
	}
	n.queued, n.back = true, back
	if back {
		q[1] = append(q[1], n)
	} else {
		q[0] = append(q[0], n)
	}
}

// next picks the next node: in topological order, but a loop is entered again
// only when nothing is left to do in it.
func (w *worker) next() *node {
	if w.pend == nil {
		return nil
	}
	pop := func(b, k int) *node {
		q := &w.pend[b]
		n := q[k][0]
		q[k] = q[k][1:]
		n.queued = false
		return n
	}
	for _, b := range w.order {
		q := &w.pend[b]
		if len(q[0]) > 0 {
			return pop(b, 0)
		}
		if len(q[1]) > 0 {
			busy := false
			for x := range w.fi.Loops[b].Blocks {
				if p := &w.pend[x]; len(p[0]) > 0 || x != b && len(p[1]) > 0 {
					busy = true
					break
				}
			}
			if !busy {
				return pop(b, 1)
			}
		}
	}
	// irreducible loops only
	for _, b := range w.order {
		for k := 0; k < 2; k++ {
			if len(w.pend[b][k]) > 0 {
				return pop(b, k)
			}
		}
	}
	return nil
}

func (w *worker) loop() {
	for n := w.next(); n != nil; n = w.next() {
		for i := 0; i < len(n.sts); i++ {
			if !n.dirty[i] {
				continue
			}
			n.dirty[i] = false
			e := w.e
			e.Blocks++
			if e.Blocks > e.Budget || e.Blocks%512 == 0 && !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
				if !e.aborted {
					e.aborted = true
					e.undecided(nil, firstInstr(w.fi.Fn), "analysis budget exhausted in %s", w.fi.Fn.Name())
				}
				return
			}
			n.runs++
			w.block(n.sts[i].clone(), n.blk)
		}
	}
}

// block executes a block.
func (w *worker) block(st *State, b *ssa.BasicBlock) {
	type item struct {
		st *State
		i  int
	}
	e := w.e
	work := []item{{st, 0}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		st, i := it.st, it.i
		for i < len(b.Instrs) {
			if e.aborted {
				return
			}
			in := b.Instrs[i]
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				i++
				continue
			case *ssa.Jump:
				w.enter(st, b, b.Succs[0])
				st = nil
			case *ssa.If:
				c := e.get(st, in.Cond)
				switch {
				case c.K == KBool && c.N == 1:
					st.trace(in, "true")
					w.enter(st, b, b.Succs[0])
				case c.K == KBool:
					st.trace(in, "false")
					w.enter(st, b, b.Succs[1])
				default:
					s2 := st.clone()
					st.trace(in, "true?")
					s2.trace(in, "false?")
					w.enter(st, b, b.Succs[0])
					w.enter(s2, b, b.Succs[1])
				}
				st = nil
			case *ssa.Return:
				if len(st.top().Defers) > 0 && st.Unwind == UNone {
					// cannot happen: RunDefers precedes
					st.top().Defers = nil
				}
				var ret []Val
				for _, r := range in.Results {
					ret = append(ret, e.get(st, r))
				}
				if len(st.Frames) == 1 && e.retCheck != nil {
					st.Ret = ret
					e.retCheck(st, in)
				}
				w.exit(st, ret)
				st = nil
			case *ssa.Panic:
				e.check(false, st, in, "panic", "explicit panic is reachable")
				st = nil
			default:
				outs := e.step(st, in)
				st = nil
				for k, o := range outs {
					if o.Unwind != UNone {
						w.unwind(o, in)
						continue
					}
					if k == len(outs)-1 {
						st = o
					} else {
						work = append(work, item{o, i + 1})
					}
				}
			}
			if st == nil {
				break
			}
			i++
		}
	}
}

func (st *State) trace(in ssa.Instruction, msg string) {
	if st.Trace != nil && st.Trace.Pos == in && st.Trace.Msg == msg {
		return
	}
	n := 0
	if st.Trace != nil {
		n = st.Trace.N
	}
	st.Trace = &Trace{Prev: st.Trace, Pos: in, Msg: msg, N: n + 1}
	if n > 200 {
		// cut
		t := st.Trace
		for i := 0; i < 40 && t != nil; i++ {
			t = t.Prev
		}
		if t != nil {
			c := *t
			c.Prev = nil
			_ = c
		}
	}
}

// exit leaves the activation.
func (w *worker) exit(st *State, ret []Val) {
	st.Ret = ret
	st.Frames = st.Frames[:len(st.Frames)-1]
	w.exits = append(w.exits, st)
}

// unwind runs the deferred calls of the top frame while panicking.
func (w *worker) unwind(st *State, in ssa.Instruction) {
	e := w.e
	cur := []*State{st}
	for len(cur) > 0 {
		var next []*State
		for _, s := range cur {
			fr := s.top()
			prune(fr, w.recoverLive())
			if len(fr.Defers) == 0 {
				if s.Unwind == UNone {
					// recovered: continue at the recover block
					if r := w.fi.Fn.Recover; r != nil {
						w.enter(s, nil, r)
					} else {
						var ret []Val
						res := w.fi.Fn.Signature.Results()
						for i := 0; i < res.Len(); i++ {
							ret = append(ret, e.zero(res.At(i).Type()))
						}
						w.exit(s, ret)
					}
					continue
				}
				if len(s.Frames) == 1 && e.retCheck != nil {
					e.retCheck(s, in)
				}
				w.exit(s, nil)
				continue
			}
			d := fr.Defers[len(fr.Defers)-1]
			fr.Defers = fr.Defers[:len(fr.Defers)-1]
			kind := s.Unwind
			s.Unwind = UNone
			fr.Unwind = kind
			fr.Recov = false
			outs := e.callVal(s, d.Call, d.Call.Common(), d.Fn, d.Args, nil)
			for _, o := range outs {
				f := o.top()
				if o.Unwind == UNone && !f.Recov {
					o.Unwind = kind
				}
				f.Unwind = UNone
				f.Recov = false
				next = append(next, o)
			}
		}
		cur = next
	}
}

func (w *worker) recoverLive() bitset {
	if r := w.fi.Fn.Recover; r != nil {
		return w.fi.LiveIn[r.Index]
	}
	return newBitset(w.fi.NRegs + 1)
}

// merge joins exits with equal keys.
func (e *Eng) merge(sts []*State) []*State {
	if len(sts) <= 1 {
		for i := range sts {
			sts[i] = canonical(sts[i])
		}
		return sts
	}
	groups := map[string][]*State{}
	var keys []string
	for _, s := range sts {
		s = canonical(s)
		k := e.key(s)
		g, ok := groups[k]
		if !ok {
			keys = append(keys, k)
		}
		done := false
		for i, o := range g {
			if j, _ := join(o, s, 0); j != nil {
				g[i] = j
				done = true
				break
			}
		}
		if !done {
			g = append(g, s)
		}
		groups[k] = g
	}
	sort.Strings(keys)
	var out []*State
	for _, k := range keys {
		out = append(out, groups[k]...)
	}
	return out
}

// get evaluates an operand.
func (e *Eng) get(st *State, v ssa.Value) Val {
	fr := st.top()
	if i, ok := fr.Fi.Idx[v]; ok {
		x := fr.Regs[i]
		if x.K == KIVar {
			if lo, hi, _ := st.ival(x); lo == hi {
				return mkInt(lo)
			}
		}
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return Val{K: KFunc, X: &Ext{Fn: v}}
	case *ssa.Global:
		for i := range st.Objs {
			if st.Objs[i].Kind == OGlobal && st.Objs[i].Site == ssa.Value(v) {
				return mkPtr(int32(i), 0)
			}
		}
		e.globals[v] = true
		return mkPtr(st.newObj(Obj{Kind: OGlobal, Site: v, Typ: deref(v.Type())}), 0)
	case *ssa.Builtin:
		return Val{K: KUnk}
	}
	return Val{K: KUnk}
}

func (e *Eng) set(st *State, v ssa.Value, x Val) {
	fr := st.top()
	if i, ok := fr.Fi.Idx[v]; ok {
		fr.Regs[i] = x
	}
}

func (e *Eng) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	t := c.Type()
	if types.Identical(t, e.KeyT) && e.KeyT != nil && !isIntT(t) || isTypeParam(t) {
		return Val{K: KUnk}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.Int:
		if isIntT(t) {
			if n, ok := constant.Int64Val(c.Value); ok {
				return mkInt(n)
			}
			if n, ok := constant.Uint64Val(c.Value); ok {
				return mkInt(int64(n))
			}
		}
	case constant.Float:
		if isIntT(t) {
			if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return mkInt(n)
			}
		}
	}
	return Val{K: KUnk}
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// zero returns the zero value of type t.
func (e *Eng) zero(t types.Type) Val {
	if e.ValT != nil && types.Identical(t, e.ValT) || e.KeyT != nil && types.Identical(t, e.KeyT) && !isIntT(t) || isTypeParam(t) {
		return Val{K: KVal, N: DZero}
	}
	if _, ok := opaqueNamed(t); ok {
		return Val{K: KUnk}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return nilPtr
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		}
		return Val{K: KUnk}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return Val{K: KSlice, X: &Ext{}}
	case *types.Signature:
		return Val{K: KFunc}
	case *types.Interface:
		return Val{K: KIface}
	case *types.Struct, *types.Array:
		return Val{K: KAgg, X: &Ext{Elems: e.zeroLeaves(t, nil)}}
	case *types.Tuple:
		var el []Val
		for i := 0; i < u.Len(); i++ {
			el = append(el, e.zero(u.At(i).Type()))
		}
		return Val{K: KTuple, X: &Ext{Elems: el}}
	}
	return Val{K: KUnk}
}

func (e *Eng) zeroLeaves(t types.Type, out []Val) []Val {
	if _, ok := opaqueNamed(t); ok {
		return append(out, e.zeroOpaque(t))
	}
	if isTypeParam(t) {
		return append(out, e.zero(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = e.zeroLeaves(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			out = e.zeroLeaves(u.Elem(), out)
		}
		return out
	}
	return append(out, e.zero(t))
}

// zeroOpaque is the content of a zero sync or sync/atomic variable.
func (e *Eng) zeroOpaque(t types.Type) Val {
	n, _ := opaqueNamed(t)
	if n.Obj().Pkg().Path() == "sync/atomic" {
		switch n.Obj().Name() {
		case "Int32", "Int64", "Uint32", "Uint64", "Uintptr":
			return mkInt(0)
		case "Bool":
			return mkBool(false)
		case "Pointer":
			return nilPtr
		}
	}
	return Val{K: KUnk}
}

// isAgg reports whether values of type t are KAgg.
func isAgg(t types.Type) bool {
	if _, ok := opaqueNamed(t); ok || isTypeParam(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// intRange returns the range of integer type t on 64-bit platforms.
func intRange(t types.Type) (int64, int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return minI, maxI
	}
	switch b.Kind() {
	case types.Int8:
		return -1 << 7, 1<<7 - 1
	case types.Int16:
		return -1 << 15, 1<<15 - 1
	case types.Int32:
		return -1 << 31, 1<<31 - 1
	case types.Uint8:
		return 0, 1<<8 - 1
	case types.Uint16:
		return 0, 1<<16 - 1
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, maxI // large values do not occur; conversions to signed types are checked
	}
	return minI, maxI
}
