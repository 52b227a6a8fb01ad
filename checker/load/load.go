// Package load type-checks the skip map package and builds its SSA form,
// together with ground instances of all its map types.
package load

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Methods are the operations every map type must offer.
var Methods = []string{"Store", "Load", "LoadAndDelete", "LoadOrStore", "LoadOrStoreLazy", "Delete", "Range", "Len"}

// Ctor describes a constructor.
type Ctor struct {
	Name string
	Args string // type arguments of the ground instance
	Par  string // value parameters of the call
	Key  string // key type of the instance
	Desc bool
	// Float: the built-in order must be NaN-aware. Fn: the order is given by a function.
	Float, Fn bool
}

// Ctors is the documented API: every constructor with its direction.
var Ctors = []Ctor{
	{Name: "NewFunc", Args: "[verifK, verifV]", Par: "nil", Key: "verifK", Fn: true},
	{Name: "New", Args: "[string, verifV]", Key: "string"},
	{Name: "New", Args: "[float64, verifV]", Key: "float64", Float: true},
	{Name: "NewDesc", Args: "[string, verifV]", Key: "string", Desc: true},
	{Name: "NewDesc", Args: "[float64, verifV]", Key: "float64", Desc: true, Float: true},
	{Name: "NewString", Args: "[verifV]", Key: "string"},
	{Name: "NewStringDesc", Args: "[verifV]", Key: "string", Desc: true},
	{Name: "NewFloat32", Args: "[verifV]", Key: "float32", Float: true, Fn: true},
	{Name: "NewFloat32Desc", Args: "[verifV]", Key: "float32", Desc: true, Float: true, Fn: true},
	{Name: "NewFloat64", Args: "[verifV]", Key: "float64", Float: true, Fn: true},
	{Name: "NewFloat64Desc", Args: "[verifV]", Key: "float64", Desc: true, Float: true, Fn: true},
	{Name: "NewInt", Args: "[verifV]", Key: "int"},
	{Name: "NewIntDesc", Args: "[verifV]", Key: "int", Desc: true},
	{Name: "NewInt64", Args: "[verifV]", Key: "int64"},
	{Name: "NewInt64Desc", Args: "[verifV]", Key: "int64", Desc: true},
	{Name: "NewInt32", Args: "[verifV]", Key: "int32"},
	{Name: "NewInt32Desc", Args: "[verifV]", Key: "int32", Desc: true},
	{Name: "NewUint64", Args: "[verifV]", Key: "uint64"},
	{Name: "NewUint64Desc", Args: "[verifV]", Key: "uint64", Desc: true},
	{Name: "NewUint32", Args: "[verifV]", Key: "uint32"},
	{Name: "NewUint32Desc", Args: "[verifV]", Key: "uint32", Desc: true},
	{Name: "NewUint", Args: "[verifV]", Key: "uint"},
	{Name: "NewUintDesc", Args: "[verifV]", Key: "uint", Desc: true},
}

// NCtors is the number of documented constructors.
const NCtors = 21

// Overlay returns the source of the file that instantiates everything. It is
// only type-checked and translated, never run.
func Overlay(pkg string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\ntype verifV chan int\ntype verifK chan int\n\n", pkg)
	for i, c := range Ctors {
		fmt.Fprintf(&b, "func verifUse%d(k %s, v verifV) {\n", i, c.Key)
		fmt.Fprintf(&b, "\tm := %s%s(%s)\n", c.Name, c.Args, c.Par)
		fmt.Fprintf(&b, "\tm.Store(k, v)\n\tvar b bool\n")
		fmt.Fprintf(&b, "\tv, b = m.Load(k)\n\tv, b = m.LoadAndDelete(k)\n\tv, b = m.LoadOrStore(k, v)\n")
		fmt.Fprintf(&b, "\tv, b = m.LoadOrStoreLazy(k, func() verifV { return v })\n\tb = m.Delete(k)\n")
		fmt.Fprintf(&b, "\tm.Range(func(key %s, value verifV) bool { return b })\n\tvar n int = m.Len()\n\t_, _, _ = v, b, n\n}\n\n", c.Key)
	}
	return b.String()
}

// Inst is an analysed instance of a map type.
type Inst struct {
	Ctor    *Ctor
	CtorFn  *ssa.Function
	Map     *types.Named
	Methods map[string]*ssa.Function
}

// Program is the loaded package.
type Program struct {
	Dir   string
	Prog  *ssa.Program
	Pkg   *packages.Package
	SPkg  *ssa.Package
	Insts []*Inst
	Key   map[string]types.Type
	ValT  types.Type
	Errs  []string
}

// Config for one type-checking run.
func config(dir string, env []string, overlay map[string][]byte) *packages.Config {
	return &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     dir,
		Env:     append(os.Environ(), env...),
		Overlay: overlay,
		Tests:   false,
	}
}

// Load loads the package in dir.
func Load(dir string, env ...string) (*Program, error) {
	p := &Program{Dir: dir, Key: map[string]types.Type{}}
	ov := map[string][]byte{filepath.Join(dir, "zz_verif_overlay.go"): []byte(Overlay(pkgName(dir)))}
	pkgs, err := packages.Load(config(dir, env, ov), ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages in %s", len(pkgs), dir)
	}
	p.Pkg = pkgs[0]
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			p.Errs = append(p.Errs, e.Error())
		}
	})
	if len(p.Errs) > 0 {
		return p, nil
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog, p.SPkg = prog, spkgs[0]
	sc := p.Pkg.Types.Scope()
	p.ValT = sc.Lookup("verifV").Type()
	p.Key["verifK"] = sc.Lookup("verifK").Type()
	for i := range Ctors {
		c := &Ctors[i]
		use := p.SPkg.Func(fmt.Sprintf("verifUse%d", i))
		if use == nil {
			return nil, fmt.Errorf("no instance function for %s", c.Name)
		}
		if p.Key[c.Key] == nil {
			p.Key[c.Key] = use.Params[0].Type()
		}
		in := &Inst{Ctor: c, Methods: map[string]*ssa.Function{}}
		for _, b := range use.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				fn := call.Common().StaticCallee()
				if fn == nil {
					continue
				}
				if fn.Signature.Recv() == nil && in.CtorFn == nil {
					in.CtorFn = fn
					if q, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
						in.Map, _ = types.Unalias(q.Elem()).(*types.Named)
					}
				} else if fn.Signature.Recv() != nil {
					in.Methods[fn.Object().Name()] = fn
				}
			}
		}
		if in.CtorFn == nil || in.Map == nil || len(in.Methods) != len(Methods) {
			return nil, fmt.Errorf("%s%s: constructor or methods not resolved", c.Name, c.Args)
		}
		p.Insts = append(p.Insts, in)
	}
	return p, nil
}

func pkgName(dir string) string { return "skipmap" }

// mapTypes is the documented type of the maps of each constructor.
var mapTypes = map[string]string{"NewFunc": "FuncMap", "New": "OrderedMap", "NewDesc": "OrderedMapDesc",
	"NewFloat32": "FuncMap", "NewFloat32Desc": "FuncMap", "NewFloat64": "FuncMap", "NewFloat64Desc": "FuncMap"}

func mapType(c *Ctor) string {
	t := mapTypes[c.Name]
	if t == "" {
		t = strings.TrimPrefix(c.Name, "New")
		if d, ok := strings.CutSuffix(t, "Desc"); ok {
			return d + "MapDesc"
		}
		return t + "Map"
	}
	return t
}

// APIOverlay returns a file that uses the whole documented API with the exact
// documented types.
func APIOverlay(pkg string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\ntype verifV chan int\ntype verifK chan int\n\n", pkg)
	use := func(i int, ctor, typ, key, val, par string) {
		fmt.Fprintf(&b, "func verifAPI%d() {\n", i)
		if par == "" {
			fmt.Fprintf(&b, "\tvar f func() *%s = %s\n\tm := f()\n", typ, ctor)
		} else {
			fmt.Fprintf(&b, "\tvar f func(func(a, b %s) bool) *%s = %s\n\tm := f(nil)\n", key, typ, ctor)
		}
		fmt.Fprintf(&b, "\tvar a interface {\n\t\tStore(%[1]s, %[2]s)\n\t\tLoad(%[1]s) (%[2]s, bool)\n\t\tLoadAndDelete(%[1]s) (%[2]s, bool)\n\t\tLoadOrStore(%[1]s, %[2]s) (%[2]s, bool)\n"+
			"\t\tLoadOrStoreLazy(%[1]s, func() %[2]s) (%[2]s, bool)\n\t\tDelete(%[1]s) bool\n\t\tRange(func(%[1]s, %[2]s) bool)\n\t\tLen() int\n\t} = m\n\t_ = a\n}\n\n", key, val)
	}
	n := 0
	for i := range Ctors {
		c := &Ctors[i]
		args := strings.Replace(c.Args, "verifV", "VV", 1)
		for _, v := range []string{"verifV", "struct{ a, b int }", "interface{}", "string", "struct{}", "[3]int"} {
			a := strings.Replace(args, "VV", v, 1)
			targs := a
			mt := mapType(c)
			if mt == "FuncMap" && c.Name != "NewFunc" {
				targs = "[" + c.Key + ", " + strings.TrimPrefix(a, "[")
			}
			use(n, c.Name+a, mt+targs, c.Key, v, c.Par)
			n++
		}
	}
	// New, NewDesc and NewFunc have keys of any ordered type, or of any type.
	kinds := []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "string"}
	for _, k := range kinds {
		fmt.Fprintf(&b, "type verifK%s %s\n\n", k, k)
		for _, key := range []string{k, "verifK" + k} {
			for _, c := range []string{"New", "NewDesc"} {
				mt := mapTypes[c]
				use(n, c+"["+key+", verifV]", mt+"["+key+", verifV]", key, "verifV", "")
				n++
			}
		}
	}
	for _, k := range []string{"[]int", "func()", "struct{ a []int }", "interface{}", "[2]string", "map[int]int"} {
		use(n, "NewFunc["+k+", verifV]", "FuncMap["+k+", verifV]", k, "verifV", "nil")
		n++
	}
	return b.String()
}

// CheckAPI type-checks the package with the documented API and returns the
// errors in it.
func CheckAPI(dir string, env ...string) []string {
	ov := map[string][]byte{filepath.Join(dir, "zz_verif_overlay.go"): []byte(APIOverlay(pkgName(dir)))}
	cfg := config(dir, env, ov)
	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return []string{err.Error()}
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			pos := e.Pos
			if i := strings.LastIndexByte(pos, '/'); i >= 0 {
				pos = pos[i+1:]
			}
			errs = append(errs, pos+" "+e.Msg)
		}
	}
	if len(pkgs) != 1 {
		errs = append(errs, fmt.Sprintf("%d packages", len(pkgs)))
	}
	return errs
}
