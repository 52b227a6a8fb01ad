package checks

import (
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"

	"skipverif/engine"
	"skipverif/load"
)

// alignment checks the offsets of all places accessed with 64-bit atomics.
func alignment(r *run) {
	arches := []string{"386", "arm", "mips", "mipsle"}
	n, auto := 0, 0
	seen := map[string]bool{}
	for _, j := range r.a.order {
		for _, m := range r.members(j) {
			l, err := engine.NewLayout(m.Map, r.p.Key[m.Ctor.Key])
			if err != nil {
				continue
			}
			for at, pos := range j.atomics {
				if !at.Wide {
					continue
				}
				id := fmt.Sprintf("%s/%v", m.Map, at)
				if seen[id] {
					continue
				}
				seen[id] = true
				if at.Auto {
					auto++
					continue
				}
				var ts []types.Type
				switch at.Root {
				case "map":
					ts = shapes(r.p, m.Map)
				case "node":
					ts = shapes(r.p, l.Node)
				default:
					r.add(&engine.Finding{Rule: "undecided", Pos: pos, Entry: j.method, Msg: "64-bit atomic access to memory of unknown layout: " + at.Root}, instName(m))
					continue
				}
				for _, arch := range arches {
					sz := types.SizesFor("gc", arch)
					for _, t := range ts {
						offs := leafOffsets(t, 0, sz, nil)
						if int(at.Leaf) >= len(offs) {
							r.add(&engine.Finding{Rule: "undecided", Pos: pos, Entry: j.method, Msg: "layout of " + t.String() + " not understood"}, instName(m))
							continue
						}
						n++
						if off := offs[at.Leaf]; off%8 != 0 {
							r.add(&engine.Finding{Rule: "align-64", Pos: pos, Entry: j.method, Func: l.Map.Obj().Name(),
								Msg: fmt.Sprintf("64-bit atomic access to a field at offset %d of %s on %s: it is not 64-bit aligned there", off, t, arch)}, instName(m))
						}
					}
				}
			}
		}
	}
	r.cov["offsets_computed"] = n
	r.cov["compiler_aligned_places"] = auto
	r.cov["architectures"] = arches
	if n+auto == 0 {
		r.fail("undecided", "", "no 64-bit atomic access was found")
	}
}

func (r *run) members(j *job) []*load.Inst {
	var out []*load.Inst
	for _, in := range r.p.Insts {
		for _, m := range j.members {
			if m == instName(in) {
				out = append(out, in)
			}
		}
	}
	return out
}

// shapes returns t with type arguments of several sizes.
func shapes(p *load.Program, t *types.Named) []types.Type {
	out := []types.Type{t}
	if t.TypeArgs() == nil || t.TypeArgs().Len() == 0 {
		return out
	}
	b := func(k types.BasicKind) types.Type { return types.Typ[k] }
	for _, k := range []types.Type{b(types.Int8), b(types.Int32), b(types.Int64), b(types.String)} {
		var args []types.Type
		for i := 0; i < t.TypeArgs().Len(); i++ {
			args = append(args, k)
		}
		if n, err := types.Instantiate(nil, t.Origin(), args, false); err == nil {
			out = append(out, n)
		}
	}
	// Any type at all.
	for i := int64(0); i < 4; i++ {
		var args []types.Type
		for k := 0; k < t.TypeArgs().Len(); k++ {
			args = append(args, types.NewArray(b(types.Int32), i))
		}
		if n, err := types.Instantiate(nil, t.Origin(), args, true); err == nil {
			out = append(out, n)
		}
	}
	return out
}

// leafOffsets appends the offsets of the leaves of t, in the order of engine.
// Arrays that come from type arguments are one leaf.
func leafOffsets(t types.Type, base int64, sz types.Sizes, out []int64) []int64 {
	if engine.Opaque(t) {
		return append(out, base)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := sz.Offsetsof(fs)
		for i, f := range fs {
			out = leafOffsets(f.Type(), base+offs[i], sz, out)
		}
		return out
	case *types.Array:
		if b, ok := u.Elem().(*types.Basic); ok && b.Kind() == types.Int32 && u.Len() < 4 {
			return append(out, base) // a type argument
		}
		s := sz.Sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			out = leafOffsets(u.Elem(), base+i*s, sz, out)
		}
		return out
	}
	return append(out, base)
}

// comparators makes sure that the order functions were evaluated.
func comparators(r *run) {
	n := 0
	for _, in := range r.p.Insts {
		if !in.Ctor.Float || !in.Ctor.Fn {
			continue
		}
		if j := r.a.byInst[r.a.jobID(in, "ctor", true)]; j != nil {
			n += j.obl["less-order"]
		}
	}
	r.cov["comparator_cases"] = n
}

// globals lists the package-level state.
func globals(r *run) {
	n := 0
	sc := r.p.Pkg.Types.Scope()
	for _, name := range sc.Names() {
		if _, ok := sc.Lookup(name).(*types.Var); ok {
			n++
		}
	}
	// Writes outside of the operations: any function of the package but init.
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(s.Addr); g != nil && g.Pkg == r.p.SPkg && f.Synthetic == "" && f.Name() != "init" {
						r.add(&engine.Finding{Rule: "global-write", Pos: r.p.Prog.Fset.Position(in.Pos()), Func: f.Name(), Msg: "writes the package-level variable " + g.Name() + ", which all maps share"})
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	for _, j := range r.a.order {
		for f := range j.funcs {
			if f.Pkg == r.p.SPkg || f.Origin() != nil && f.Origin().Pkg == r.p.SPkg {
				visit(f)
			}
		}
	}
	r.cov["package_variables"] = n
	r.cov["functions_searched_for_global_writes"] = len(seen)
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// api type-checks the documented API on every platform.
func api(r *run) {
	if r.on != "" {
		return // looks at all platforms by itself
	}
	out, err := exec.Command("go", "tool", "dist", "list").Output()
	if err != nil {
		r.fail("undecided", "", "go tool dist list: %v", err)
		return
	}
	plats := strings.Fields(string(out))
	sort.Strings(plats)
	r.cov["platforms"] = len(plats)
	var mu sync.Mutex
	errs := map[string][]string{}
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for _, pl := range plats {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			goos, arch, _ := strings.Cut(pl, "/")
			es := load.CheckAPI(r.p.Dir, "GOOS="+goos, "GOARCH="+arch, "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off")
			mu.Lock()
			defer mu.Unlock()
			for _, e := range es {
				errs[e] = append(errs[e], pl)
			}
		}()
	}
	wg.Wait()
	for _, e := range sortedKeys(errs) {
		ps := errs[e]
		sort.Strings(ps)
		if len(ps) > 6 {
			ps = append(ps[:6:6], fmt.Sprintf("and %d more", len(errs[e])-6))
		}
		r.fail("api", "", "on %s: %s", strings.Join(ps, ", "), e)
	}
}

func generated(r *run) { r.cov["analysed_package"] = "regenerated with gen.go from skipmap.tpl" }

// generatedFile matches the line that marks generated files.
var generatedFile = regexp.MustCompile(`(?m)^// Code generated .* DO NOT EDIT\.\s*$`)

var goGenerate = regexp.MustCompile(`(?m)^//go:generate go run ((?:[\w.-]+\.go\s*?)+)$`)

// generators returns the files of the generator, which the package documents
// with a go:generate directive.
func generators(dir string, ents []os.DirEntry) []string {
	for _, e := range ents {
		if b, err := os.ReadFile(filepath.Join(dir, e.Name())); err == nil && strings.HasSuffix(e.Name(), ".go") {
			if m := goGenerate.FindSubmatch(b); m != nil {
				return strings.Fields(string(m[1]))
			}
		}
	}
	return []string{"gen.go"}
}

// regenerate copies the package to a scratch directory, runs the generator
// there as an unprivileged user, and returns the directory.
func regenerate(repo string) (string, func(), error) {
	dir, err := os.MkdirTemp("", "skipverif-gen")
	if err != nil {
		return "", func() {}, err
	}
	clean := func() { os.RemoveAll(dir) }
	os.Chmod(dir, 0o755)
	work := filepath.Join(dir, "skipmap")
	if err := os.Mkdir(work, 0o777); err != nil {
		return "", clean, err
	}
	ents, err := os.ReadDir(repo)
	if err != nil {
		return "", clean, err
	}
	for _, e := range ents {
		if !e.Type().IsRegular() || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(repo, e.Name()))
		if err != nil {
			return "", clean, err
		}
		if err := os.WriteFile(filepath.Join(work, e.Name()), b, 0o666); err != nil {
			return "", clean, err
		}
	}
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
	bin := filepath.Join(dir, "gen")
	cmd := exec.Command("go", append([]string{"build", "-o", bin}, generators(work, ents)...)...)
	cmd.Dir, cmd.Env = work, env
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", clean, fmt.Errorf("the generator does not build: %v\n%s", err, out)
	}
	// The output of the generator replaces the generated files.
	for _, e := range ents {
		b, err := os.ReadFile(filepath.Join(work, e.Name()))
		if err == nil && strings.HasSuffix(e.Name(), ".go") && generatedFile.Match(b) {
			os.Remove(filepath.Join(work, e.Name()))
		}
	}
	const nobody = 65534
	exec1 := func(cred bool) ([]byte, error) {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin)
		cmd.Dir = work
		cmd.Env = []string{"HOME=" + work, "PATH=" + os.Getenv("PATH"), "TMPDIR=" + work}
		if cred {
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		}
		return cmd.CombinedOutput()
	}
	cred := os.Geteuid() == 0
	if cred {
		filepath.Walk(work, func(p string, _ os.FileInfo, err error) error { return os.Chown(p, nobody, nobody) })
		os.Chown(bin, nobody, nobody)
		os.Chmod(bin, 0o755)
	}
	out, err := exec1(cred)
	if err != nil {
		return "", clean, fmt.Errorf("the generator fails: %v\n%s", err, out)
	}
	return work, clean, nil
}
