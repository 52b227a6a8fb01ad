package checks

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"skipverif/engine"
	"skipverif/load"
)

// Options of one check.
type Options struct {
	Repo, Verif string
	Prop, Tier  string
	Seed        int
	Verbose     bool
}

type violation struct {
	f       *engine.Finding
	members []string
}

type run struct {
	o     Options
	prop  *Prop
	p     *load.Program
	a     *Analysis
	start time.Time
	viol  []violation
	seen  map[string]int
	cov   map[string]any
	assum []string
	on    string // the build that is analysed, if not the one of this machine
	jobs  []*job // of all builds
}

// Limit is the time after which an analysis is given up as undecided; the
// thorough one has more.
const Limit = 780 * time.Second

func (r *run) limit() time.Duration {
	if r.o.Tier == "thorough" {
		return 6 * Limit
	}
	return Limit
}

func (r *run) add(f *engine.Finding, members ...string) {
	k := f.Rule + "|" + f.Entry + "|" + f.Func + "|" + filepath.Base(f.Pos.Filename) + fmt.Sprint(f.Pos.Line) + "|" + f.Msg
	if i, ok := r.seen[k]; ok {
		r.viol[i].members = append(r.viol[i].members, members...)
		return
	}
	r.seen[k] = len(r.viol)
	r.viol = append(r.viol, violation{f, members})
}

func (r *run) fail(rule, entry, format string, args ...any) {
	r.add(&engine.Finding{Rule: rule, Entry: entry, Msg: fmt.Sprintf(format, args...)})
}

// Check decides one property and returns the exit code.
func Check(o Options) (code int) {
	r := &run{o: o, start: time.Now(), seen: map[string]int{}, cov: map[string]any{}}
	for _, p := range Props {
		if p.ID == o.Prop {
			r.prop = p
		}
	}
	if r.prop == nil {
		fmt.Printf("unknown property %s\n", o.Prop)
		return 2
	}
	defer func() {
		if x := recover(); x != nil {
			r.fail("undecided", "", "the check failed: %v", x)
			code = r.report()
		}
	}()
	dir := o.Repo
	if r.prop.ID == "G01" {
		d, clean, err := regenerate(o.Repo)
		defer clean()
		if err != nil {
			r.fail("generate", "", "%v", err)
			return r.report()
		}
		dir = d
	}
	r.decide(dir)
	return r.report()
}

func (r *run) decide(dir string) {
	p, err := load.Load(dir, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off")
	if err != nil {
		r.fail("load", "", "the package could not be analysed: %v", err)
		return
	}
	if len(p.Errs) > 0 {
		r.fail("load", "", "the package and its documented API do not type-check: %s", strings.Join(p.Errs, "; "))
		return
	}
	r.p = p
	ctors, maps := map[string]bool{}, map[string]bool{}
	for _, in := range p.Insts {
		ctors[in.Ctor.Name] = true
		maps[in.Map.Origin().Obj().Name()] = true
	}
	r.cov["constructors"] = len(ctors)
	r.cov["map_types"] = len(maps)
	if len(ctors) != load.NCtors || len(p.Insts) != len(load.Ctors) {
		r.fail("load", "", "%d constructors and %d instances resolved instead of %d and %d", len(ctors), len(p.Insts), load.NCtors, len(load.Ctors))
	}
	thorough := r.o.Tier == "thorough"
	a := newAnalysis(p, r.start.Add(r.limit()), thorough)
	a.solo, a.cost = r.prop.Solo, r.prop.Cost
	r.a = a
	r.decideProgram(thorough)
	r.extra()
	r.decideVariants(dir)
	r.coverage()
}

func (r *run) extra() {
	for _, x := range r.prop.Extra {
		x(r)
	}
}

// decideProgram analyses the loaded build.
func (r *run) decideProgram(thorough bool) {
	p, a := r.p, r.a
	insts := r.prop.Insts
	if insts == nil {
		insts = notFloat
	}
	n := 0
	must := func(err error) {
		if err != nil {
			r.fail("undecided", "", "%v", err)
		}
	}
	for _, in := range p.Insts {
		if r.prop.Ctors {
			must(a.need(in, "ctor", true))
		}
		if !insts(in.Ctor) {
			continue
		}
		for _, m := range r.prop.Methods {
			must(a.need(in, m, true))
			n++
		}
	}
	if r.on == "" {
		r.cov["operations"] = n
	}
	a.run()
	// Maps with floating-point keys may have NaNs at either end.
	float := map[*load.Inst]bool{}
	for _, in := range p.Insts {
		if isFloat(in.Ctor) && insts(in.Ctor) && len(r.collect(in, true)) > 0 {
			float[in] = true
			for _, m := range r.prop.Methods {
				must(a.need(in, m, false))
			}
		}
	}
	if len(float) > 0 {
		a.run()
	}
	for _, in := range p.Insts {
		if r.prop.Ctors {
			r.collectJob(in, a.byInst[a.jobID(in, "ctor", true)])
		}
		if !insts(in.Ctor) {
			continue
		}
		nan := true
		if float[in] && len(r.collect(in, false)) < len(r.collect(in, true)) {
			nan = false
		}
		for _, v := range r.collect(in, nan) {
			r.add(v.f, v.members...)
		}
	}
	r.jobs = append(r.jobs, a.order...)
}

func (r *run) collectJob(in *load.Inst, j *job) {
	if j == nil {
		return
	}
	for _, f := range j.findings {
		if r.prop.concerns(f) {
			r.add(f, instName(in)+r.on)
		}
	}
}

// collect returns the violations of an instance.
func (r *run) collect(in *load.Inst, nanFirst bool) []violation {
	var out []violation
	for _, m := range r.prop.Methods {
		j := r.a.byInst[r.a.jobID(in, m, nanFirst)]
		if j == nil {
			continue
		}
		for _, f := range j.findings {
			if r.prop.concerns(f) {
				out = append(out, violation{f, []string{instName(in) + r.on}})
			}
		}
	}
	for _, f := range r.a.combined(in, nanFirst) {
		if r.prop.concerns(f) {
			out = append(out, violation{f, []string{instName(in) + r.on}})
		}
	}
	return out
}

// coverage records what was analysed.
func (r *run) coverage() {
	obl := map[string]int{}
	sites := map[string]map[token.Pos]bool{}
	funcs := map[*ssa.Function]bool{}
	blocks, classes := 0, 0
	methods := map[string]int{}
	for _, j := range r.jobs {
		classes++
		methods[j.method]++
		blocks += j.blocks
		for k, n := range j.obl {
			if r.prop.concerns(&engine.Finding{Rule: k, Entry: j.method}) {
				obl[k] += n
			}
		}
		for k, m := range j.sites {
			if !r.prop.concerns(&engine.Finding{Rule: k, Entry: j.method}) {
				continue
			}
			if sites[k] == nil {
				sites[k] = map[token.Pos]bool{}
			}
			for p := range m {
				sites[k][p] = true
			}
		}
		for f := range j.funcs {
			funcs[f] = true
		}
	}
	total := 0
	for _, n := range obl {
		total += n
	}
	ns := map[string]int{}
	for k, m := range sites {
		ns[k] = len(m)
	}
	var fs []string
	for f := range funcs {
		fs = append(fs, f.String())
	}
	sort.Strings(fs)
	r.cov["analysed_classes"] = classes
	r.cov["analyses_per_operation"] = methods
	r.cov["block_transfers"] = blocks
	r.cov["obligations_evaluated"] = obl
	r.cov["obligation_sites"] = ns
	r.cov["functions"] = len(fs)
	if len(fs) > 12 {
		fs = fs[:12]
	}
	r.cov["sample_functions"] = fs
	if len(r.prop.Rules) > 0 && total == 0 && len(r.viol) == 0 {
		r.fail("undecided", "", "no obligation was found: the analysis does not cover the property")
	}
}

func (r *run) report() int {
	known := readKnown(filepath.Join(r.o.Verif, "known-findings.txt"))
	var bad []violation
	for _, v := range r.viol {
		if k := known.match(r.prop.ID, v.f); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop.ID, k)
			continue
		}
		bad = append(bad, v)
	}
	sort.SliceStable(bad, func(i, j int) bool {
		// Decided findings first.
		return (bad[i].f.Rule != "undecided") && bad[j].f.Rule == "undecided"
	})
	var b strings.Builder
	for _, v := range bad {
		f := v.f
		ms := uniq(v.members)
		fmt.Fprintf(&b, "%s", f.Rule)
		if f.Entry != "" {
			fmt.Fprintf(&b, " in %s", f.Entry)
		}
		if f.Pos.Filename != "" {
			fmt.Fprintf(&b, " at %s:%d (%s)", filepath.Base(f.Pos.Filename), f.Pos.Line, f.Func)
		}
		fmt.Fprintf(&b, ": %s", f.Msg)
		if len(ms) > 0 {
			fmt.Fprintf(&b, " [maps of %s]", strings.Join(ms, ", "))
		}
		b.WriteByte('\n')
		for i := len(f.Trace) - 1; i >= 0; i-- {
			fmt.Fprintf(&b, "      %s\n", f.Trace[i])
		}
	}
	wall := time.Since(r.start).Seconds()
	r.cov["explanation"] = "Abstract interpretation of the SSA form of the package for every operation, over all inputs, all states of the map that keep the protocol, and all interference of other goroutines that keep it. " +
		"Operations with the same SSA form up to type names and the direction of key comparisons are analysed once. Rule applied: " + r.prop.Text + "."
	r.cov["rules"] = append(append([]string{}, r.prop.Rules...), sortedKeys(r.prop.Only)...)
	ev := map[string]any{
		"property": r.prop.ID, "tier": r.o.Tier, "seed": r.o.Seed, "level": "other",
		"coverage":    r.cov,
		"assumptions": append([]string{"the models of sync, sync/atomic and fastrand in /verif/checker/engine", "the meta-theory of /verif/DESIGN.md that reduces the behaviour to the checked obligations", "go/types and go/ssa translate the package faithfully"}, r.assum...),
		"wall_s":      wall,
		"violations":  len(bad),
	}
	dir := filepath.Join(r.o.Verif, "evidence")
	os.MkdirAll(dir, 0o755)
	js, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, r.prop.ID+".json"), append(js, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("evidence:", err)
	}
	if len(bad) == 0 {
		fmt.Printf("%s holds: %v classes, %d block transfers, %.1f s\n", r.prop.ID, r.cov["analysed_classes"], r.cov["block_transfers"], wall)
		return 0
	}
	replay := filepath.Join(dir, "replay-"+r.prop.ID+".txt")
	head := fmt.Sprintf("property %s is violated\nreplay: sh %s/check.sh %s %s\n\n", r.prop.ID, r.o.Verif, r.prop.ID, r.o.Tier)
	os.WriteFile(replay, []byte(head+b.String()), 0o644)
	s := b.String()
	if len(s) > 20000 {
		s = s[:20000] + "...\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop.ID, replay)
	return 1
}

func uniq(s []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

type knownFinding struct{ prop, rule, entry, fn, text string }
type knownList []knownFinding

// readKnown reads the lines "known: property=ID rule=R entry=E func=F text".
func readKnown(file string) knownList {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out knownList
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: ")
		if !ok {
			continue
		}
		var k knownFinding
		for _, w := range strings.Fields(rest) {
			n, v, ok := strings.Cut(w, "=")
			switch {
			case ok && n == "property":
				k.prop = v
			case ok && n == "rule":
				k.rule = v
			case ok && n == "entry":
				k.entry = v
			case ok && n == "func":
				k.fn = v
			default:
				k.text += w + " "
			}
		}
		if k.prop != "" && k.rule != "" && k.fn != "" {
			out = append(out, k)
		}
	}
	return out
}

func (l knownList) match(prop string, f *engine.Finding) string {
	for _, k := range l {
		if k.prop == prop && k.rule == f.Rule && k.fn == f.Func && (k.entry == "" || k.entry == f.Entry) {
			return k.text
		}
	}
	return ""
}
