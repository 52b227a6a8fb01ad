package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"skipverif/engine"
)

// The distribution of the heights. The functions that draw a height are
// interpreted over distributions: a random word is a vector of independent
// bits, a comparison splits the distribution exactly, and the paths are
// followed until what is left has a negligible probability. The result is the
// exact distribution of the function's result.

const minFactor, maxFactor = 1.0 / 16, 1.0 / 2

func (r *run) heights() {
	layers := 0
	for _, j := range r.a.order {
		if !adds(j.method) {
			continue
		}
		l, err := engine.NewLayout(j.in.Map, r.p.Key[j.in.Ctor.Key])
		if err != nil {
			continue
		}
		layers = l.Layers
		if j.heights != 0 && j.raised < int64(layers) {
			r.add(&engine.Finding{Rule: "height-raise", Entry: j.method, Msg: fmt.Sprintf("%s never raises the highest level to %d: the layers above are of no use if all entries are added by it", j.method, layers)}, r.names(j)...)
		}
		for k := 0; k < l.Layers; k++ {
			if j.heights != 0 && j.heights&(1<<k) == 0 {
				r.add(&engine.Finding{Rule: "height-all", Entry: j.method, Msg: fmt.Sprintf("%s never adds an entry of height %d: the layers above are of no use", j.method, k+1)}, r.names(j)...)
				break
			}
		}
	}
	funcs := map[*ssa.Function]bool{}
	for _, j := range r.a.order {
		for f := range j.funcs {
			funcs[f] = true
		}
	}
	draws := map[*ssa.Function]bool{}
	for f := range funcs {
		if callsRandom(f, map[*ssa.Function]bool{}) {
			draws[f] = true
		}
	}
	type result struct {
		fn *ssa.Function
		d  map[int64]*big.Float
	}
	var rs []result
	for f := range draws {
		if f.Signature.Results().Len() != 1 || !isInteger(f.Signature.Results().At(0).Type()) {
			continue
		}
		d, err := distribution(f)
		if err != nil {
			continue
		}
		ok := len(d) > 0
		for k := range d {
			ok = ok && k >= 1 && k <= int64(layers)
		}
		if ok {
			rs = append(rs, result{f, d})
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].fn.String() < rs[j].fn.String() })
	var shown []string
	for _, x := range rs {
		inner := false
		for _, y := range rs {
			inner = inner || y.fn != x.fn && calls(y.fn, x.fn)
		}
		if inner {
			continue
		}
		s := x.fn.String() + ":"
		above := big.NewFloat(1)
		for k := 1; k < layers; k++ {
			t := new(big.Float)
			for h, p := range x.d {
				if h > int64(k) {
					t.Add(t, p)
				}
			}
			q, _ := new(big.Float).Quo(t, above).Float64()
			s += fmt.Sprintf(" %.4g", q)
			if q < minFactor || q > maxFactor {
				r.add(&engine.Finding{Rule: "height-decay", Func: x.fn.String(), Pos: r.p.Prog.Fset.Position(x.fn.Pos()),
					Msg: fmt.Sprintf("of the entries that reach layer %d a fraction of %.3g reaches the next one instead of 1/16 to 1/2: searches do not take logarithmic time", k, q)})
				break
			}
			above = t
			if f, _ := t.Float64(); f < 1e-10 {
				break
			}
		}
		shown = append(shown, s)
	}
	r.cov["height_factors"] = shown
	r.cov["height_draws_decided"] = len(shown)
}

func adds(m string) bool {
	for _, x := range adders {
		if x == m {
			return true
		}
	}
	return false
}

func (r *run) names(j *job) []string {
	var out []string
	for _, in := range r.members(j) {
		out = append(out, instName(in))
	}
	return out
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func pkgOf(f *ssa.Function) string {
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func randomPkg(p string) bool {
	return strings.HasSuffix(p, "fastrand") || p == "math/rand" || p == "math/rand/v2"
}

func isRandom(f *ssa.Function) bool { return randomPkg(pkgOf(f)) }

// randomVar returns the package variable of a random package that v loads.
func randomVar(v ssa.Value) *ssa.Global {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && randomPkg(g.Pkg.Pkg.Path()) {
			return g
		}
	}
	return nil
}

func callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func callsRandom(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && randomVar(v) != nil {
				return true
			}
		}
	}
	for _, g := range callees(f) {
		if isRandom(g) || pkgOf(g) == pkgOf(f) && callsRandom(g, seen) {
			return true
		}
	}
	return false
}

func calls(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, h := range callees(f) {
			if h == g || rec(h) {
				return true
			}
		}
		return false
	}
	return rec(f)
}

// A bit is a constant or a bit of a drawn word (word<<8 | index, plus 2).
type bit int32

// dval is a value: a vector of bits, least significant first, or a real
// number that is uniformly distributed over an interval.
type dval struct {
	bits   []bit
	real   bool
	lo, hi float64
}

type dstate struct {
	fr     *dframe
	prob   *big.Float
	known  map[bit]bit
	words  int32
	jumped bool // at the start of a block
}

type dframe struct {
	fn   *ssa.Function
	up   *dframe
	call *ssa.Call
	blk  *ssa.BasicBlock
	pc   int
	regs map[ssa.Value]dval
}

func (s *dstate) clone() *dstate {
	n := &dstate{prob: new(big.Float).Set(s.prob), known: make(map[bit]bit, len(s.known)), words: s.words}
	for k, v := range s.known {
		n.known[k] = v
	}
	n.fr = s.fr.clone()
	return n
}

func (f *dframe) clone() *dframe {
	if f == nil {
		return nil
	}
	n := *f
	n.up = f.up.clone()
	n.regs = make(map[ssa.Value]dval, len(f.regs))
	for k, v := range f.regs {
		n.regs[k] = v
	}
	return &n
}

func (s *dstate) get(b bit) bit {
	if b >= 2 {
		if v, ok := s.known[b]; ok {
			return v
		}
	}
	return b
}

// value returns the number that v is, if it is known.
func (s *dstate) value(v dval) (uint64, bool) {
	if v.real || len(v.bits) == 0 {
		return 0, false
	}
	x := uint64(0)
	for i, b := range v.bits {
		switch s.get(b) {
		case 1:
			x |= 1 << i
		case 0:
		default:
			return 0, false
		}
	}
	return x, true
}

func width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	case types.Bool, types.UntypedBool:
		return 1
	}
	return 0
}

func signed(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func num(x uint64, w int) dval {
	v := dval{bits: make([]bit, w)}
	for i := range v.bits {
		v.bits[i] = bit(x >> i & 1)
	}
	return v
}

type notDecided string

func (e notDecided) Error() string { return string(e) }

// distribution computes the distribution of the result of fn.
func distribution(fn *ssa.Function) (d map[int64]*big.Float, err error) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(notDecided); ok {
				err = e
				return
			}
			err = fmt.Errorf("%v", x)
		}
	}()
	if len(fn.Blocks) == 0 {
		return nil, notDecided("no body")
	}
	d = map[int64]*big.Float{}
	init := &dstate{prob: big.NewFloat(1), known: map[bit]bit{}}
	init.fr = &dframe{fn: fn, blk: fn.Blocks[0], regs: map[ssa.Value]dval{}}
	live := map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}
	negligible := new(big.Float).SetMantExp(big.NewFloat(1), -90)
	steps := 0
	// Breadth first over blocks; equal states are merged.
	for todo := []*dstate{init}; len(todo) > 0; {
		next := map[string]*dstate{}
		var order []string
		for len(todo) > 0 {
			s := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if s.prob.Cmp(negligible) < 0 {
				continue
			}
			for {
				if steps++; steps > 400000 {
					return nil, notDecided("too many paths")
				}
				more, ret := s.step()
				todo = append(todo, more...)
				if ret != nil {
					x, ok := s.value(*ret)
					if !ok {
						return nil, notDecided("the result is not a number")
					}
					k := int64(x)
					if w := len(ret.bits); signed(fn.Signature.Results().At(0).Type()) && w < 64 && x>>(w-1) == 1 {
						k = int64(x) - 1<<w
					}
					if d[k] == nil {
						d[k] = new(big.Float)
					}
					d[k].Add(d[k], s.prob)
					break
				}
				if !s.jumped {
					continue
				}
				s.jumped = false
				k := s.canon(live)
				if o := next[k]; o != nil {
					o.prob.Add(o.prob, s.prob)
				} else {
					next[k] = s
					order = append(order, k)
				}
				break
			}
		}
		for _, k := range order {
			todo = append(todo, next[k])
		}
	}
	return d, nil
}

// canon drops what is dead and returns a name of the state.
func (s *dstate) canon(live map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool) string {
	var sb strings.Builder
	words := map[bit]int{}
	keep := map[bit]bit{}
	for f := s.fr; f != nil; f = f.up {
		if live[f.fn] == nil {
			live[f.fn] = liveness(f.fn)
		}
		fmt.Fprintf(&sb, "%p %d %d;", f.fn, f.blk.Index, f.pc)
		if f == s.fr {
			for v := range f.regs {
				if !live[f.fn][f.blk][v] {
					if phi, ok := v.(*ssa.Phi); !ok || phi.Block() != f.blk {
						delete(f.regs, v)
					}
				}
			}
		}
		var names []ssa.Value
		for v := range f.regs {
			names = append(names, v)
		}
		sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
		for _, v := range names {
			d := f.regs[v]
			d.bits = append([]bit(nil), d.bits...)
			f.regs[v] = d
			fmt.Fprintf(&sb, "%s=", v.Name())
			if d.real {
				fmt.Fprintf(&sb, "%v-%v,", d.lo, d.hi)
				continue
			}
			for i, b := range d.bits {
				b = s.get(b)
				d.bits[i] = b
				if b < 2 {
					sb.WriteByte('0' + byte(b))
					continue
				}
				if _, ok := words[b>>8]; !ok {
					words[b>>8] = len(words)
				}
				fmt.Fprintf(&sb, "[%d.%d]", words[b>>8], b&255)
			}
			sb.WriteByte(',')
		}
	}
	s.known = keep // all that is left has been replaced
	return sb.String()
}

func liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for change := true; change; {
		change = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := map[ssa.Value]bool{}
			for _, t := range b.Succs {
				for v := range in[t] {
					if phi, ok := v.(*ssa.Phi); !ok || phi.Block() != t {
						l[v] = true
					}
				}
				for k, p := range t.Preds {
					if p != b {
						continue
					}
					for _, x := range t.Instrs {
						if phi, ok := x.(*ssa.Phi); ok {
							l[phi.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				x := b.Instrs[k]
				if v, ok := x.(ssa.Value); ok {
					delete(l, v)
				}
				if _, ok := x.(*ssa.Phi); ok {
					continue
				}
				for _, o := range x.Operands(nil) {
					if *o != nil {
						l[*o] = true
					}
				}
			}
			if len(l) != len(in[b]) {
				in[b] = l
				change = true
			}
		}
	}
	return in
}

func (s *dstate) operand(v ssa.Value) dval {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			panic(notDecided("constant"))
		}
		if isFloatType(c.Type()) {
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return dval{real: true, lo: f, hi: f}
		}
		w := width(c.Type())
		val := c.Value
		if val.Kind() == constant.Float {
			val = constant.ToInt(val)
		}
		switch val.Kind() {
		case constant.Bool:
			if constant.BoolVal(val) {
				return num(1, 1)
			}
			return num(0, 1)
		case constant.Int:
			if x, ok := constant.Int64Val(val); ok {
				return num(uint64(x), w)
			}
			if x, ok := constant.Uint64Val(val); ok {
				return num(x, w)
			}
		}
		panic(notDecided("constant"))
	}
	if d, ok := s.fr.regs[v]; ok {
		return d
	}
	panic(notDecided("unknown value " + v.Name()))
}

// step executes an instruction. Other outcomes are returned as more states.
func (s *dstate) step() (more []*dstate, ret *dval) {
	f := s.fr
	in := f.blk.Instrs[f.pc]
	f.pc++
	jump := func(t *dstate, to *ssa.BasicBlock) {
		g := t.fr
		from := g.blk
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		vals := map[ssa.Value]dval{}
		n := 0
		for _, x := range to.Instrs {
			phi, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			vals[phi] = t.operand(phi.Edges[pi])
			n++
		}
		for k, v := range vals {
			g.regs[k] = v
		}
		g.blk, g.pc = to, n
		t.jumped = true
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Jump:
		jump(s, f.blk.Succs[0])
	case *ssa.If:
		v, ok := s.value(s.operand(x.Cond))
		if !ok {
			panic(notDecided("condition"))
		}
		jump(s, f.blk.Succs[1-int(v)])
	case *ssa.Return:
		if len(x.Results) != 1 {
			panic(notDecided("results"))
		}
		v := s.operand(x.Results[0])
		if f.up == nil {
			return nil, &v
		}
		s.fr = f.up
		s.fr.regs[f.call] = v
	case *ssa.Convert:
		f.regs[x] = s.convert(s.operand(x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		f.regs[x] = s.operand(x.X)
	case *ssa.UnOp:
		if randomVar(x) != nil {
			return nil, nil // a function, for calls only
		}
		v := s.operand(x.X)
		switch {
		case x.Op == token.NOT || x.Op == token.XOR:
			return s.bitwise(x, token.XOR, v, num(^uint64(0), len(v.bits))), nil
		case x.Op == token.SUB && !v.real:
			if k, ok := s.value(v); ok {
				f.regs[x] = num(-k, len(v.bits))
				return nil, nil
			}
		}
		panic(notDecided("operator"))
	case *ssa.BinOp:
		return s.binop(x), nil
	case *ssa.Call:
		return s.callFn(x), nil
	default:
		panic(notDecided(fmt.Sprintf("instruction %T", in)))
	}
	return nil, nil
}

func (s *dstate) convert(v dval, from, to types.Type) dval {
	if v.real || isFloatType(to) || width(to) == 0 || len(v.bits) == 0 {
		if k, ok := s.value(v); ok && isFloatType(to) && int64(k) >= 0 {
			return dval{real: true, lo: float64(k), hi: float64(k)}
		}
		if v.real && isFloatType(to) {
			return v
		}
		panic(notDecided("conversion"))
	}
	w := width(to)
	out := dval{bits: make([]bit, w)}
	for i := range out.bits {
		switch {
		case i < len(v.bits):
			out.bits[i] = v.bits[i]
		case signed(from):
			out.bits[i] = v.bits[len(v.bits)-1]
		}
	}
	return out
}

// fork follows the outcome in which the bit b is val, and the other one.
func (s *dstate) fork(b bit, val bit) (other *dstate) {
	other = s.clone()
	s.known[b] = val
	s.prob.Mul(s.prob, big.NewFloat(0.5))
	other.known[b] = 1 - val
	other.prob.Mul(other.prob, big.NewFloat(0.5))
	return other
}

// settle makes the value of v known, most significant bit first, in all ways.
// It stops as soon as stop reports that what is known suffices.
func (s *dstate) settle(v dval, order []int, stop func(*dstate) bool, done func(*dstate)) (more []*dstate) {
	for _, i := range order {
		if stop(s) {
			break
		}
		b := s.get(v.bits[i])
		if b < 2 {
			continue
		}
		o := s.fork(b, 0)
		more = append(more, o.settle(v, order, stop, done)...)
		more = append(more, o)
	}
	done(s)
	return more
}

func (s *dstate) binop(x *ssa.BinOp) []*dstate {
	a, b := s.operand(x.X), s.operand(x.Y)
	if a.real || b.real {
		return s.realop(x, a, b)
	}
	w := len(a.bits)
	_, oka := s.value(a)
	kb, okb := s.value(b)
	sg := signed(x.X.Type())
	switch x.Op {
	case token.SHL, token.SHR:
		if !okb {
			panic(notDecided("shift"))
		}
		out := dval{bits: make([]bit, w)}
		for i := range out.bits {
			j := i - int(min(kb, 100))
			if x.Op == token.SHR {
				j = i + int(min(kb, 100))
				if j >= w && sg {
					j = w - 1
				}
			}
			if j >= 0 && j < w {
				out.bits[i] = a.bits[j]
			}
		}
		s.fr.regs[x] = out
		return nil
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return s.bitwise(x, x.Op, a, b)
	case token.REM:
		if okb && kb > 0 && kb&(kb-1) == 0 && (!sg || s.get(a.bits[w-1]) == 0) {
			return s.bitwise(x, token.AND, a, num(kb-1, w))
		}
	case token.QUO:
		if okb && kb > 0 && kb&(kb-1) == 0 && (!sg || s.get(a.bits[w-1]) == 0) {
			out := dval{bits: make([]bit, w)}
			n := 0
			for kb>>n > 1 {
				n++
			}
			for i := 0; i+n < w; i++ {
				out.bits[i] = a.bits[i+n]
			}
			s.fr.regs[x] = out
			return nil
		}
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return s.compare(x, x.Op, a, b, sg)
	}
	if !oka || !okb {
		// Make the operands known in all ways, if there are few.
		n := 0
		for _, v := range []dval{a, b} {
			for _, c := range v.bits {
				if s.get(c) >= 2 {
					n++
				}
			}
		}
		if n > 6 {
			panic(notDecided("arithmetic on a random number"))
		}
		order := make([]int, w)
		for i := range order {
			order[i] = w - 1 - i
		}
		never := func(*dstate) bool { return false }
		var more []*dstate
		more = s.settle(a, order, never, func(t *dstate) {})
		all := append([]*dstate{s}, more...)
		for _, t := range all {
			if len(b.bits) == w {
				more = append(more, t.settle(b, order, never, func(*dstate) {})...)
			}
		}
		for _, t := range append([]*dstate{s}, more...) {
			t.arith(x)
		}
		return more
	}
	s.arith(x)
	return nil
}

func (s *dstate) arith(x *ssa.BinOp) {
	a, b := s.operand(x.X), s.operand(x.Y)
	w := len(a.bits)
	ka, oka := s.value(a)
	kb, okb := s.value(b)
	if !oka || !okb {
		panic(notDecided("arithmetic"))
	}
	sx := func(k uint64) int64 {
		if w < 64 && k>>(w-1) == 1 && signed(x.X.Type()) {
			return int64(k) - 1<<w
		}
		return int64(k)
	}
	var r uint64
	switch x.Op {
	case token.ADD:
		r = ka + kb
	case token.SUB:
		r = ka - kb
	case token.MUL:
		r = ka * kb
	case token.QUO, token.REM:
		if kb == 0 {
			panic(notDecided("division by zero"))
		}
		if signed(x.X.Type()) {
			if x.Op == token.QUO {
				r = uint64(sx(ka) / sx(kb))
			} else {
				r = uint64(sx(ka) % sx(kb))
			}
		} else if x.Op == token.QUO {
			r = ka / kb
		} else {
			r = ka % kb
		}
	default:
		panic(notDecided("operator"))
	}
	s.fr.regs[x] = num(r, w)
}

// bitwise computes an operation bit by bit, of which one operand is known
// wherever the other is not.
func (s *dstate) bitwise(x ssa.Value, op token.Token, a, b dval) []*dstate {
	out := dval{bits: make([]bit, len(a.bits))}
	for i := range out.bits {
		p, q := s.get(a.bits[i]), s.get(b.bits[i])
		if p < 2 && q >= 2 && op != token.AND_NOT {
			p, q = q, p
		}
		var r bit = -1
		switch op {
		case token.AND_NOT:
			if q < 2 {
				r = map[bit]bit{0: p, 1: 0}[q]
			} else if p == 0 {
				r = 0
			}
		case token.AND:
			if q < 2 {
				r = map[bit]bit{0: 0, 1: p}[q]
			} else if p == q {
				r = p
			}
		case token.OR:
			if q < 2 {
				r = map[bit]bit{0: p, 1: 1}[q]
			} else if p == q {
				r = p
			}
		case token.XOR:
			switch {
			case q == 0:
				r = p
			case q == 1 && p < 2:
				r = 1 - p
			case p == q:
				r = 0
			}
		}
		if r < 0 {
			// Split on the bits that are not known.
			c := p
			if c < 2 {
				c = q
			}
			o := s.fork(c, 0)
			more := append(o.bitwise(x, op, a, b), o)
			return append(more, s.bitwise(x, op, a, b)...)
		}
		out.bits[i] = r
	}
	s.fr.regs[x] = out
	return nil
}

// compare decides a comparison bit by bit from the most significant one.
func (s *dstate) compare(x ssa.Value, op token.Token, a, b dval, sg bool) []*dstate {
	w := len(a.bits)
	set := func(t *dstate, c int) {
		var r bool
		switch op {
		case token.EQL:
			r = c == 0
		case token.NEQ:
			r = c != 0
		case token.LSS:
			r = c < 0
		case token.LEQ:
			r = c <= 0
		case token.GTR:
			r = c > 0
		case token.GEQ:
			r = c >= 0
		}
		if r {
			t.fr.regs[x] = num(1, 1)
		} else {
			t.fr.regs[x] = num(0, 1)
		}
	}
	for i := w - 1; i >= 0; i-- {
		p, q := s.get(a.bits[i]), s.get(b.bits[i])
		if p == q {
			continue
		}
		if p < 2 && q < 2 {
			c := 1
			if p < q {
				c = -1
			}
			if sg && i == w-1 && w > 1 {
				c = -c
			}
			set(s, c)
			return nil
		}
		if p < 2 {
			p = q
		}
		o := s.fork(p, 0)
		more := append(o.compare(x, op, a, b, sg), o)
		return append(more, s.compare(x, op, a, b, sg)...)
	}
	set(s, 0)
	return nil
}

// realop handles numbers that are uniformly distributed over an interval.
func (s *dstate) realop(x *ssa.BinOp, a, b dval) []*dstate {
	if !a.real || !b.real {
		panic(notDecided("operator"))
	}
	op := x.Op
	v, c, val := a, b, x.X
	if a.lo == a.hi && b.lo != b.hi {
		v, c, val = b, a, x.Y
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
	}
	if c.lo != c.hi {
		panic(notDecided("operator"))
	}
	k := c.lo
	if v.lo == v.hi {
		panic(notDecided("operator"))
	}
	if op != token.LSS && op != token.LEQ && op != token.GTR && op != token.GEQ {
		panic(notDecided("operator"))
	}
	less := op == token.LSS || op == token.LEQ
	b2 := func(t bool) dval {
		if t {
			return num(1, 1)
		}
		return num(0, 1)
	}
	switch {
	case k <= v.lo:
		s.fr.regs[x] = b2(!less)
		return nil
	case k >= v.hi:
		s.fr.regs[x] = b2(less)
		return nil
	}
	o := s.clone()
	n := v.hi - v.lo
	s.prob.Mul(s.prob, big.NewFloat((k-v.lo)/n))
	s.fr.regs[val] = dval{real: true, lo: v.lo, hi: k}
	s.fr.regs[x] = b2(less)
	o.prob.Mul(o.prob, big.NewFloat((v.hi-k)/n))
	o.fr.regs[val] = dval{real: true, lo: k, hi: v.hi}
	o.fr.regs[x] = b2(!less)
	return []*dstate{o}
}

func (s *dstate) draw(n, w int) dval {
	s.words++
	v := dval{bits: make([]bit, w)}
	for i := 0; i < n; i++ {
		v.bits[i] = bit(s.words)<<8 | bit(i)
	}
	return v
}

func (s *dstate) callFn(x *ssa.Call) []*dstate {
	w := width(x.Type())
	var name, pkg string
	g := x.Call.StaticCallee()
	if v := randomVar(x.Call.Value); v != nil {
		name, pkg = v.Name(), v.Pkg.Pkg.Path()
	} else if g == nil {
		panic(notDecided("call of a function value"))
	} else {
		name, pkg = g.Name(), pkgOf(g)
		if o := g.Origin(); o != nil {
			name = o.Name()
		}
	}
	switch {
	case randomPkg(pkg):
		switch name {
		case "Uint32", "Uint64", "Uint":
			s.fr.regs[x] = s.draw(w, w)
			return nil
		case "Int31", "Int63", "Int", "Int32", "Int64":
			n := w
			if name[:3] == "Int" && signed(x.Type()) {
				n = w - 1
			}
			if name == "Int31" || name == "Int63" || name == "Int" || pkg == "math/rand/v2" {
				s.fr.regs[x] = s.draw(n, w)
				return nil
			}
		case "Uint32n", "Uint64n", "Intn", "Int31n", "Int63n", "Int32n", "Int64n", "IntN", "Int32N", "Int64N", "UintN", "Uint32N", "Uint64N", "N":
			k, ok := s.value(s.operand(x.Call.Args[len(x.Call.Args)-1]))
			if !ok || k == 0 || int64(k) < 0 {
				panic(notDecided("range of a random number"))
			}
			if k&(k-1) == 0 {
				n := 0
				for k>>n > 1 {
					n++
				}
				s.fr.regs[x] = s.draw(n, w)
				return nil
			}
			if k > 256 {
				panic(notDecided("range of a random number"))
			}
			s.prob.Quo(s.prob, new(big.Float).SetInt64(int64(k)))
			var more []*dstate
			for i := uint64(1); i < k; i++ {
				o := s.clone()
				o.fr.regs[x] = num(i, w)
				more = append(more, o)
			}
			s.fr.regs[x] = num(0, w)
			return more
		case "Float64", "Float32":
			s.fr.regs[x] = dval{real: true, lo: 0, hi: 1}
			return nil
		}
		panic(notDecided("random function " + name))
	case pkg == "math/bits" && len(x.Call.Args) == 1:
		v := s.operand(x.Call.Args[0])
		lead := strings.HasPrefix(name, "LeadingZeros") || strings.HasPrefix(name, "Len")
		if !lead && !strings.HasPrefix(name, "TrailingZeros") {
			panic(notDecided("math/bits." + name))
		}
		return s.zeros(x, v, lead, strings.HasPrefix(name, "Len"), w)
	case len(g.Blocks) > 0 && pkg == pkgOf(s.fr.fn):
		fr := &dframe{fn: g, up: s.fr, call: x, blk: g.Blocks[0], regs: map[ssa.Value]dval{}}
		depth := 0
		for u := s.fr; u != nil; u = u.up {
			depth++
		}
		if depth > 20 {
			panic(notDecided("recursion"))
		}
		for i, p := range g.Params {
			fr.regs[p] = s.operand(x.Call.Args[i])
		}
		s.fr = fr
		return nil
	}
	panic(notDecided("call of " + g.String()))
}

// zeros counts the leading or trailing zeros.
func (s *dstate) zeros(x *ssa.Call, v dval, lead, length bool, w int) []*dstate {
	n := len(v.bits)
	for i := 0; i < n; i++ {
		j := i
		if lead {
			j = n - 1 - i
		}
		b := s.get(v.bits[j])
		var more []*dstate
		if b >= 2 {
			o := s.fork(b, 1)
			more = append(o.zeros(x, v, lead, length, w), o)
			// s has the bit set; o goes on
			b = 1
		}
		if b == 1 {
			k := i
			if length {
				k = n - i
			}
			s.fr.regs[x] = num(uint64(k), w)
			return more
		}
	}
	k := n
	if length {
		k = 0
	}
	s.fr.regs[x] = num(uint64(k), w)
	return nil
}
