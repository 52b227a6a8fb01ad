// Package checks decides the properties of /verif/properties.jsonl with the
// abstract interpreter of package engine and a few rules of its own.
package checks

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"skipverif/load"
)

// printer describes the SSA form of functions up to the names of the map, node,
// key and value types, positions and the names of functions of the package.
// Two operations with equal descriptions are the same program for the
// analysis, so one result holds for both.
type printer struct {
	pkg  *types.Package
	in   *load.Inst
	node *types.Named
	key  types.Type
	val  types.Type
	fns  map[*ssa.Function]int
	work []*ssa.Function
	b    strings.Builder
	// flip: the list is descending, comparisons are printed turned around.
	flip bool
	// odd: keys are used for something else than comparisons.
	odd      bool
	keys     map[ssa.Value]bool
	keyField int
}

// fingerprint identifies the program that operation fn of in is for the
// analysis. Integer and string keys which are only compared are all the same,
// and so are ascending and descending lists up to the direction of comparisons.
func fingerprint(p *load.Program, in *load.Inst, node *types.Named, keyIndex int, fn *ssa.Function) string {
	q := &printer{pkg: p.Pkg.Types, in: in, node: node, key: p.Key[in.Ctor.Key], val: p.ValT, fns: map[*ssa.Function]int{}}
	float := in.Ctor.Float && !in.Ctor.Fn
	q.flip = in.Ctor.Desc && !in.Ctor.Fn && !float
	keyField := -1
	ns, _ := node.Underlying().(*types.Struct)
	for i := 0; i < ns.NumFields(); i++ {
		if types.Identical(ns.Field(i).Type(), q.key) && i == keyIndex {
			keyField = i
		}
	}
	q.keyField = keyField
	q.findKeys(fn, keyField)
	q.fn(fn)
	for len(q.work) > 0 {
		f := q.work[0]
		q.work = q.work[1:]
		q.body(f)
	}
	fmt.Fprintf(&q.b, "map %s\n", q.structs(in.Map, 0))
	fmt.Fprintf(&q.b, "node %s\n", q.structs(node, 0))
	if float || q.odd {
		fmt.Fprintf(&q.b, "key %s desc %v\n", q.key, in.Ctor.Desc)
	}
	if in.Ctor.Fn {
		fmt.Fprintf(&q.b, "order given\n")
	}
	if d := os.Getenv("FPDUMP"); d != "" {
		os.WriteFile(d+"/"+strings.NewReplacer("[", "_", "]", "", ", ", "_", "/", "_").Replace(instName(in))+"."+fn.Name(), []byte(q.b.String()), 0o644)
	}
	h := sha256.Sum256([]byte(q.b.String()))
	return fmt.Sprintf("%x", h[:12])
}

// structs prints the definition of a named struct type with its fields.
func (q *printer) structs(n *types.Named, depth int) string {
	s, ok := n.Underlying().(*types.Struct)
	if !ok || depth > 6 {
		return q.typ(n)
	}
	var b strings.Builder
	b.WriteString("struct{")
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		t := q.typ(f.Type())
		if n == q.node && i == q.keyField {
			t = "KEY"
		}
		if m, ok := types.Unalias(f.Type()).(*types.Named); ok && m.Obj().Pkg() == q.pkg && m.Origin() != q.node.Origin() && m.Origin() != q.in.Map.Origin() {
			t = q.structs(m, depth+1)
		}
		fmt.Fprintf(&b, "%s %s;", f.Name(), t)
	}
	b.WriteString("}")
	return b.String()
}

func (q *printer) typ(t types.Type) string { return q.typeRec(t, 0) }

func (q *printer) typeRec(t types.Type, d int) string {
	if d > 12 {
		return "..."
	}
	t = types.Unalias(t)
	switch {
	case types.Identical(t, q.key) && !isBasic(t):
		return "KEY"
	case types.Identical(t, q.val):
		return "VAL"
	}
	r := func(x types.Type) string { return q.typeRec(x, d+1) }
	switch u := t.(type) {
	case *types.Named:
		if u.Origin() == q.in.Map.Origin() {
			return "MAP"
		}
		if u.Origin() == q.node.Origin() {
			return "NODE"
		}
		s := u.Obj().Name()
		if u.Obj().Pkg() != nil {
			s = u.Obj().Pkg().Path() + "." + s
		}
		if a := u.TypeArgs(); a != nil {
			for i := 0; i < a.Len(); i++ {
				s += "," + r(a.At(i))
			}
		}
		if u.Obj().Pkg() == q.pkg {
			s += "=" + r(u.Underlying())
		}
		return s
	case *types.Pointer:
		return "*" + r(u.Elem())
	case *types.Slice:
		return "[]" + r(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), r(u.Elem()))
	case *types.Struct:
		s := "struct{"
		for i := 0; i < u.NumFields(); i++ {
			s += u.Field(i).Name() + " " + r(u.Field(i).Type()) + ";"
		}
		return s + "}"
	case *types.Signature:
		// The order and the callback of Range.
		if u.Params().Len() == 2 && u.Results().Len() == 1 && types.Identical(u.Params().At(0).Type(), q.key) && types.Identical(u.Results().At(0).Type(), types.Typ[types.Bool]) {
			switch {
			case types.Identical(u.Params().At(1).Type(), q.val):
				return "func(KEY,VAL)bool"
			case types.Identical(u.Params().At(1).Type(), q.key):
				return "func(KEY,KEY)bool"
			}
		}
		return "func" + r(u.Params()) + r(u.Results())
	case *types.Tuple:
		s := "("
		for i := 0; i < u.Len(); i++ {
			s += r(u.At(i).Type()) + ","
		}
		return s + ")"
	case *types.Chan:
		return "chan " + r(u.Elem())
	}
	return t.String()
}

func (q *printer) fn(f *ssa.Function) string {
	// Functions of other packages without type arguments are the same for everyone.
	if !q.own(f) {
		return "F:" + f.String()
	}
	id, ok := q.fns[f]
	if !ok {
		id = len(q.fns)
		q.fns[f] = id
		q.work = append(q.work, f)
	}
	return fmt.Sprintf("f%d", id)
}

// isKey reports whether v is known to be a key.
func (q *printer) isKey(v ssa.Value) bool {
	if v == nil {
		return false
	}
	return q.keys[v] && types.Identical(v.Type(), q.key) || !isBasic(q.key) && types.Identical(v.Type(), q.key)
}

func isBasic(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.Basic)
	return ok
}

// vtyp is the type of v, with keys told apart from other values of the type.
func (q *printer) vtyp(v ssa.Value) string {
	if q.isKey(v) {
		return "KEY"
	}
	if q.keys[v] {
		return "*KEY"
	}
	return q.typ(v.Type())
}

// findKeys computes which values are keys, or pointers to keys: what is given
// as key to the operation, stored in or loaded from the key of a node.
func (q *printer) findKeys(entry *ssa.Function, keyField int) {
	q.keys = map[ssa.Value]bool{}
	if len(entry.Params) > 1 && types.Identical(entry.Params[1].Type(), q.key) {
		q.keys[entry.Params[1]] = true
	}
	isPtr := func(v ssa.Value) bool {
		p, ok := v.Type().Underlying().(*types.Pointer)
		return ok && types.Identical(p.Elem(), q.key)
	}
	fns := []*ssa.Function{entry}
	seen := map[*ssa.Function]bool{entry: true}
	results := map[*ssa.Function]map[int]bool{}
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if !q.keys[v] && (types.Identical(v.Type(), q.key) || isPtr(v)) {
				q.keys[v] = true
				changed = true
			}
		}
		for k := 0; k < len(fns); k++ {
			f := fns[k]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						if g, ok := (*o).(*ssa.Function); ok && q.own(g) && !seen[g] {
							seen[g] = true
							fns = append(fns, g)
							changed = true
						}
					}
					switch in := in.(type) {
					case *ssa.FieldAddr:
						p, _ := in.X.Type().Underlying().(*types.Pointer)
						if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Origin() == q.node.Origin() && in.Field == keyField {
							mark(in)
						}
					case *ssa.UnOp:
						if q.keys[in.X] && in.Op == token.MUL {
							mark(in)
						}
					case *ssa.Store:
						if q.keys[in.Val] {
							if _, ok := in.Addr.(*ssa.Alloc); ok {
								mark(in.Addr)
							}
						}
					case *ssa.Phi:
						for _, x := range in.Edges {
							if q.keys[x] {
								mark(in)
							}
						}
					case *ssa.MakeClosure:
						g := in.Fn.(*ssa.Function)
						for i, x := range in.Bindings {
							if q.keys[x] {
								mark(g.FreeVars[i])
							}
						}
					case *ssa.Return:
						for i, x := range in.Results {
							if q.keys[x] && !results[f][i] {
								if results[f] == nil {
									results[f] = map[int]bool{}
								}
								results[f][i] = true
								changed = true
							}
						}
					case *ssa.Extract:
						if c, ok := in.Tuple.(*ssa.Call); ok && results[c.Call.StaticCallee()][in.Index] {
							mark(in)
						}
					}
					if c, ok := in.(ssa.CallInstruction); ok {
						g := c.Common().StaticCallee()
						if g != nil && q.own(g) {
							for i, x := range c.Common().Args {
								if q.keys[x] && i < len(g.Params) {
									mark(g.Params[i])
								}
							}
						}
						if v, ok := in.(*ssa.Call); ok && g != nil && results[g][0] && g.Signature.Results().Len() == 1 {
							mark(v)
						}
					}
				}
			}
		}
	}
}

func (q *printer) own(f *ssa.Function) bool {
	if f.Pkg != nil && f.Pkg.Pkg == q.pkg || f.Object() != nil && f.Object().Pkg() == q.pkg || f.Parent() != nil {
		return true
	}
	o := f.Origin()
	return o != nil && o != f
}

func (q *printer) body(f *ssa.Function) {
	fmt.Fprintf(&q.b, "func f%d", q.fns[f])
	for _, p := range f.Params {
		fmt.Fprintf(&q.b, " %s", q.vtyp(p))
	}
	fmt.Fprintf(&q.b, " -> %d\n", f.Signature.Results().Len())
	if f.Pkg == nil || f.Pkg.Pkg != q.pkg {
		if o := f.Object(); o != nil && o.Pkg() != nil && o.Pkg() != q.pkg {
			fmt.Fprintf(&q.b, "of %s.%s\n", o.Pkg().Path(), o.Name())
		}
	}
	num := map[ssa.Value]int{}
	for _, p := range f.Params {
		num[p] = len(num)
	}
	for _, p := range f.FreeVars {
		num[p] = len(num)
		fmt.Fprintf(&q.b, "free %s\n", q.vtyp(p))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				num[v] = len(num)
			}
		}
	}
	val := func(v ssa.Value) string {
		switch v := v.(type) {
		case nil:
			return "_"
		case *ssa.Const:
			s := "nil"
			if v.Value != nil {
				s = v.Value.ExactString()
			}
			return s + ":" + q.typ(v.Type())
		case *ssa.Function:
			return q.fn(v)
		case *ssa.Global:
			return "G:" + v.String()
		case *ssa.Builtin:
			return "B:" + v.Name()
		}
		if n, ok := num[v]; ok {
			return fmt.Sprintf("t%d", n)
		}
		return "?" + v.Name()
	}
	for _, b := range f.Blocks {
		fmt.Fprintf(&q.b, " b%d:", b.Index)
		for _, s := range b.Preds {
			fmt.Fprintf(&q.b, " <%d", s.Index)
		}
		for _, s := range b.Succs {
			fmt.Fprintf(&q.b, " >%d", s.Index)
		}
		q.b.WriteByte('\n')
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			q.b.WriteString("  ")
			if v, ok := in.(ssa.Value); ok {
				fmt.Fprintf(&q.b, "t%d %s = ", num[v], q.vtyp(v))
			}
			fmt.Fprintf(&q.b, "%T", in)
			switch in.(type) {
			case *ssa.Convert, *ssa.MultiConvert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Range, *ssa.Index, *ssa.Lookup, *ssa.Slice:
				for _, o := range in.Operands(nil) {
					if *o != nil && q.isKey(*o) {
						q.odd = true
					}
				}
			case ssa.CallInstruction:
				c := in.(ssa.CallInstruction).Common()
				if f := c.StaticCallee(); f == nil || !q.own(f) {
					for _, o := range c.Args {
						// The order and callbacks are given by the caller.
						if q.isKey(o) && (f != nil || c.IsInvoke()) {
							q.odd = true
						}
					}
				}
			}
			switch in := in.(type) {
			case *ssa.BinOp:
				op := in.Op
				if q.isKey(in.X) || q.isKey(in.Y) {
					switch op {
					case token.LSS, token.GTR, token.LEQ, token.GEQ:
						if q.flip {
							op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
						}
					case token.EQL, token.NEQ:
					default:
						q.odd = true
					}
					if _, ok := in.X.(*ssa.Const); ok {
						q.odd = true
					}
					if _, ok := in.Y.(*ssa.Const); ok {
						q.odd = true
					}
				}
				q.b.WriteString(op.String())
			case *ssa.UnOp:
				q.b.WriteString(in.Op.String())
				if in.CommaOk {
					q.b.WriteString("ok")
				}
			case *ssa.Alloc:
				fmt.Fprintf(&q.b, " heap=%v", in.Heap)
			case *ssa.FieldAddr:
				fmt.Fprintf(&q.b, " .%d", in.Field)
			case *ssa.Field:
				fmt.Fprintf(&q.b, " .%d", in.Field)
			case *ssa.Extract:
				fmt.Fprintf(&q.b, " #%d", in.Index)
			case *ssa.TypeAssert:
				fmt.Fprintf(&q.b, " %s %v", q.typ(in.AssertedType), in.CommaOk)
			case ssa.CallInstruction:
				if c := in.Common(); c.IsInvoke() {
					fmt.Fprintf(&q.b, " .%s", c.Method.Name())
				}
			}
			for _, o := range in.Operands(nil) {
				q.b.WriteByte(' ')
				q.b.WriteString(val(*o))
			}
			q.b.WriteByte('\n')
		}
	}
	if f.Recover != nil {
		fmt.Fprintf(&q.b, " recover b%d\n", f.Recover.Index)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
