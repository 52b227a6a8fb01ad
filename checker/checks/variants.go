package checks

import (
	"fmt"
	"go/build"
	"go/types"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"skipverif/engine"
	"skipverif/load"
)

// A variant is a build of the package that differs from the one of this
// machine: another platform, without cgo, or for a sanitizer.
type variant struct {
	goos, arch string
	cgo        bool
	tag        string // race, msan or asan
	p          *load.Program
	err        error
}

func (v *variant) String() string {
	s := v.goos + "/" + v.arch
	if v.tag != "" {
		s += " -" + v.tag
	} else if !v.cgo {
		s += " without cgo"
	}
	return s
}

func (v *variant) env() []string {
	cgo := "CGO_ENABLED=0"
	if v.cgo {
		cgo = "CGO_ENABLED=1"
	}
	flags := "GOFLAGS=-mod=readonly"
	if v.tag != "" {
		flags += " -tags=" + v.tag
	}
	return []string{"GOOS=" + v.goos, "GOARCH=" + v.arch, cgo, flags, "GOPROXY=off", "GOSUMDB=off"}
}

// files returns the names of the files that make up the package.
func (v *variant) files(dir string) string {
	c := build.Default
	c.GOOS, c.GOARCH, c.CgoEnabled = v.goos, v.arch, v.cgo
	if v.tag != "" {
		c.BuildTags = append(append([]string(nil), c.BuildTags...), v.tag)
	}
	p, err := c.ImportDir(dir, 0)
	if err != nil {
		return "error: " + err.Error()
	}
	fs := append(append(append([]string(nil), p.GoFiles...), p.CgoFiles...), p.SFiles...)
	sort.Strings(fs)
	return strings.Join(fs, " ")
}

// sanitizers are the platforms whose instrumented builds are considered.
var sanitizers = map[string][]string{
	"race": {"linux/amd64", "linux/arm64", "linux/ppc64le", "linux/s390x", "linux/loong64", "linux/riscv64", "freebsd/amd64", "netbsd/amd64", "darwin/amd64", "darwin/arm64", "windows/amd64"},
	"msan": {"linux/amd64", "linux/arm64", "linux/loong64", "freebsd/amd64"},
	"asan": {"linux/amd64", "linux/arm64", "linux/ppc64le", "linux/riscv64", "linux/loong64"},
}

// variants selects the builds of the package that may differ from the
// analysed one: one for every other set of files, one with 32-bit words, and
// all of them if the package asks for its platform.
func (r *run) variants(dir string) ([]*variant, error) {
	out, err := exec.Command("go", "tool", "dist", "list").Output()
	if err != nil {
		return nil, fmt.Errorf("go tool dist list: %v", err)
	}
	var all []*variant
	add := func(pl, tag string, cgo bool) {
		goos, arch, _ := strings.Cut(pl, "/")
		all = append(all, &variant{goos: goos, arch: arch, cgo: cgo, tag: tag})
	}
	plats := strings.Fields(string(out))
	sort.SliceStable(plats, func(i, j int) bool {
		return strings.HasPrefix(plats[i], "linux/") && !strings.HasPrefix(plats[j], "linux/")
	})
	for _, pl := range plats {
		add(pl, "", false)
	}
	for _, pl := range plats {
		add(pl, "", true)
	}
	for _, tag := range sortedKeys(sanitizers) {
		for _, pl := range sanitizers[tag] {
			add(pl, tag, true)
		}
	}
	here := &variant{goos: build.Default.GOOS, arch: build.Default.GOARCH, cgo: build.Default.CgoEnabled}
	sets := map[string]bool{here.files(dir): true}
	asks := r.o.Tier == "thorough"
	for _, o := range r.p.Pkg.TypesInfo.Uses {
		if o.Pkg() != nil && (o.Pkg().Path() == "runtime" && (o.Name() == "GOOS" || o.Name() == "GOARCH") || o.Pkg().Path() == "internal/goarch" || o.Pkg().Path() == "internal/goos") {
			asks = true
		}
	}
	var sel []*variant
	for _, v := range all {
		s := v.files(dir)
		small := v.goos == "linux" && v.arch == "386" && !v.cgo
		if !sets[s] || small || asks && v.tag == "" && !v.cgo {
			sel = append(sel, v)
		}
		sets[s] = true
	}
	r.cov["builds_considered"] = len(all)
	r.cov["builds_with_other_files"] = len(sets) - 1
	return sel, nil
}

// decideVariants compares the other builds of the package with the analysed
// one and analyses the operations that differ.
func (r *run) decideVariants(dir string) {
	vs, err := r.variants(dir)
	if err != nil {
		r.fail("undecided", "", "%v", err)
		return
	}
	base := prints(r.p)
	known := map[string]bool{describe(base): true}
	var differ []*variant
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	failed := map[string][]string{}
	var vp = map[*variant]map[string]string{}
	for _, v := range vs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			p, err := load.Load(dir, v.env()...)
			var fp map[string]string
			if err == nil && len(p.Errs) == 0 {
				fp = prints(p)
			}
			mu.Lock()
			defer mu.Unlock()
			switch {
			case err != nil:
				failed[err.Error()] = append(failed[err.Error()], v.String())
			case len(p.Errs) > 0:
				s := strings.Join(p.Errs, "; ")
				failed[s] = append(failed[s], v.String())
			default:
				v.p, vp[v] = p, fp
			}
			if fp != nil && known[describe(fp)] {
				v.p = nil
			}
		}()
	}
	wg.Wait()
	for _, e := range sortedKeys(failed) {
		sort.Strings(failed[e])
		// What does not build has no behaviour; only the API promises that it builds.
		if r.prop.ID == "A01" {
			r.fail("api", "", "the package does not build for %s: %s", strings.Join(failed[e], ", "), e)
		}
	}
	for _, v := range vs {
		if v.p == nil || known[describe(vp[v])] {
			v.p = nil
			continue
		}
		known[describe(vp[v])] = true
		differ = append(differ, v)
	}
	r.cov["builds_compared"] = len(vs)
	r.cov["builds_that_differ"] = len(differ)
	host, ha := r.p, r.a
	defer func() { r.p, r.a = host, ha }()
	for _, v := range differ {
		if time.Since(r.start) > r.limit() {
			r.fail("undecided", "", "no time left to analyse the package as built for %s", v)
			return
		}
		r.p = v.p
		r.on = " on " + v.String()
		a := newAnalysis(v.p, r.start.Add(r.limit()), ha.exact)
		a.solo, a.cost = ha.solo, ha.cost
		r.a = a
		// Operations that are the same on both need no other analysis.
		if vp[v]["init"] == base["init"] {
			for i, in := range v.p.Insts {
				for _, m := range append([]string{"ctor"}, load.Methods...) {
					k := fmt.Sprintf("%d.%s", i, m)
					if vp[v][k] != base[k] {
						continue
					}
					for _, nan := range []bool{true, false} {
						id := a.jobID(in, m, nan)
						if j := ha.byInst[id]; j != nil {
							a.byInst[id] = j
						}
					}
				}
			}
		}
		r.decideProgram(ha.exact)
		r.extra()
		r.on = ""
		v.p = nil
	}
}

// prints identifies the operations, the constructors and the initialisation of a program.
func prints(p *load.Program) map[string]string {
	out := map[string]string{}
	for i, in := range p.Insts {
		l, err := engine.NewLayout(in.Map, p.Key[in.Ctor.Key])
		if err != nil {
			out[fmt.Sprint(i)] = err.Error()
			continue
		}
		for _, m := range load.Methods {
			out[fmt.Sprintf("%d.%s", i, m)] = fingerprint(p, in, l.Node, l.KeyField(), in.Methods[m])
		}
		out[fmt.Sprintf("%d.ctor", i)] = fingerprint(p, in, l.Node, l.KeyField(), in.CtorFn)
	}
	if len(p.Insts) > 0 {
		if f := p.SPkg.Func("init"); f != nil {
			in := p.Insts[0]
			q := &printer{pkg: p.Pkg.Types, in: in, node: in.Map, key: types.Typ[types.Invalid], val: p.ValT, fns: map[*ssa.Function]int{}, keyField: -1, keys: map[ssa.Value]bool{}}
			q.fn(f)
			for len(q.work) > 0 {
				g := q.work[0]
				q.work = q.work[1:]
				q.body(g)
			}
			out["init"] = q.b.String()
		}
	}
	return out
}

func describe(m map[string]string) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%s=%s\n", k, m[k])
	}
	return b.String()
}
