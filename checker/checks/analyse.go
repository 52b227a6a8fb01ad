package checks

import (
	"fmt"
	"go/token"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"skipverif/engine"
	"skipverif/load"
)

// job is the analysis of one operation (or constructor) of one class.
type job struct {
	in       *load.Inst
	method   string // or "ctor"
	nanFirst bool
	key      string
	members  []string // the instances it stands for
	weight   int
	done     sync.Once

	findings   []*engine.Finding
	obl        map[string]int
	sites      map[string]map[token.Pos]bool
	funcs      map[*ssa.Function]bool
	heights    uint64
	raised     int64
	blocks     int
	lockFree   []*engine.Finding
	needLocked []*engine.Finding
	dirs       map[string]*engine.Finding
	atomics    map[engine.Atomic]token.Position
	wall       time.Duration
}

// Analysis is a set of analysed operations.
type Analysis struct {
	P        *load.Program
	jobs     map[string]*job
	order    []*job
	byInst   map[string]*job // instance name + method (+ nan)
	deadline time.Time
	workers  int
	exact    bool // do not group equal operations
	cost     bool // check the steps of searches
	solo     bool // examine loops for endless repetition
	trace    bool
}

var weights = map[string]int{"LoadOrStoreLazy": 10, "Delete": 9, "LoadOrStore": 9, "LoadAndDelete": 8, "Store": 7, "Load": 2, "Range": 1, "Len": 1, "ctor": 1}

func newAnalysis(p *load.Program, deadline time.Time, exact bool) *Analysis {
	return &Analysis{P: p, jobs: map[string]*job{}, byInst: map[string]*job{}, deadline: deadline, workers: runtime.NumCPU(), exact: exact}
}

func instName(in *load.Inst) string { return in.Ctor.Name + in.Ctor.Args }

func (a *Analysis) jobID(in *load.Inst, method string, nanFirst bool) string {
	return fmt.Sprintf("%s.%s/%v", instName(in), method, nanFirst)
}

// need asks for the analysis of an operation.
func (a *Analysis) need(in *load.Inst, method string, nanFirst bool) error {
	id := a.jobID(in, method, nanFirst)
	if a.byInst[id] != nil {
		return nil
	}
	l, err := engine.NewLayout(in.Map, a.P.Key[in.Ctor.Key])
	if err != nil {
		return err
	}
	key := id
	if method != "ctor" && !a.exact {
		fn := in.Methods[method]
		key = method + "/" + fmt.Sprint(nanFirst) + "/" + fingerprint(a.P, in, l.Node, l.KeyField(), fn)
	}
	j := a.jobs[key]
	if j == nil {
		j = &job{in: in, method: method, nanFirst: nanFirst, key: key, weight: weights[method]}
		if in.Ctor.Float && !in.Ctor.Fn {
			j.weight *= 4
		}
		a.jobs[key] = j
		a.order = append(a.order, j)
	}
	j.members = append(j.members, instName(in))
	a.byInst[id] = j
	return nil
}

// run analyses everything that was asked for and not yet analysed.
func (a *Analysis) run() {
	todo := append([]*job(nil), a.order...)
	sort.SliceStable(todo, func(i, j int) bool { return todo[i].weight > todo[j].weight })
	ch := make(chan *job)
	var wg sync.WaitGroup
	for i := 0; i < a.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				j.done.Do(func() { a.analyse(j) })
			}
		}()
	}
	for _, j := range todo {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func (a *Analysis) analyse(j *job) {
	t0 := time.Now()
	defer func() { j.wall = time.Since(t0) }()
	in := j.in
	l, err := engine.NewLayout(in.Map, a.P.Key[in.Ctor.Key])
	if err != nil {
		j.findings = append(j.findings, &engine.Finding{Rule: "undecided", Msg: err.Error(), Entry: j.method})
		return
	}
	e := engine.NewEng(a.P.Prog, l)
	defer func() {
		if r := recover(); r != nil {
			j.findings = append(j.findings, &engine.Finding{Rule: "undecided", Msg: fmt.Sprintf("the analysis failed: %v", r), Entry: j.method})
			fmt.Fprintf(os.Stderr, "%s.%s: %v\n%s\n", instName(in), j.method, r, debug.Stack())
		}
		for _, f := range e.Findings {
			f.Entry = j.method
			j.findings = append(j.findings, f)
		}
		sort.Slice(j.findings, func(x, y int) bool { return less(j.findings[x], j.findings[y]) })
		j.obl, j.sites, j.funcs, j.blocks = e.Obl, e.Sites, e.Funcs, e.Blocks
		j.heights, j.raised = e.Heights, e.Raised
		j.lockFree, j.needLocked, j.dirs, j.atomics = e.LockFreeStore, e.NeedLocked, e.Dirs, e.Atomics
	}()
	e.Pkg = a.P.Pkg.Types
	e.Budget = 1200000
	e.Solo, e.Cost = a.solo, a.cost
	e.Deadline = a.deadline
	e.KeyT, e.ValT = a.P.Key[in.Ctor.Key], a.P.ValT
	e.KeyParam = strings.Contains(in.Ctor.Args, ",")
	e.NaNFirst = j.nanFirst
	e.Desc = in.Ctor.Desc
	e.UserOrder = in.Ctor.Fn && !in.Ctor.Float
	if j.method == "ctor" {
		e.KeyFloat = in.Ctor.Float
		e.Ctor(in.CtorFn)
		return
	}
	e.KeyFloat = in.Ctor.Float && !in.Ctor.Fn
	e.Method(in.Methods[j.method], j.method)
}

func less(a, b *engine.Finding) bool {
	if a.Rule != b.Rule {
		return a.Rule < b.Rule
	}
	if a.Pos.Filename != b.Pos.Filename {
		return a.Pos.Filename < b.Pos.Filename
	}
	if a.Pos.Line != b.Pos.Line {
		return a.Pos.Line < b.Pos.Line
	}
	return a.Msg < b.Msg
}

// combined returns the findings that concern several operations of an instance.
func (a *Analysis) combined(in *load.Inst, nanFirst bool) []*engine.Finding {
	var out, need []*engine.Finding
	free := false
	dirs := map[string]*engine.Finding{}
	for _, m := range load.Methods {
		j := a.byInst[a.jobID(in, m, nanFirst)]
		if j == nil {
			continue
		}
		free = free || len(j.lockFree) > 0
		need = append(need, j.needLocked...)
		for d, f := range j.dirs {
			if dirs[d] == nil {
				dirs[d] = f
			}
		}
	}
	if free {
		out = append(out, need...)
	}
	if dirs["up"] != nil && dirs["down"] != nil {
		out = append(out, dirs["up"], dirs["down"])
	}
	return out
}

// Classes lists the classes of operations.
func Classes(p *load.Program) {
	a := newAnalysis(p, time.Time{}, false)
	for _, in := range p.Insts {
		for _, m := range load.Methods {
			if err := a.need(in, m, true); err != nil {
				fmt.Println(err)
			}
		}
	}
	for _, j := range a.order {
		fmt.Println(j.method, j.key, j.members)
	}
}

// Matrix analyses everything once and prints which properties each finding decides.
func Matrix(dir string, only []string, float bool, maps string) int {
	p, err := load.Load(dir, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off")
	if err != nil || len(p.Errs) > 0 {
		fmt.Println(err, p)
		return 1
	}
	a := newAnalysis(p, time.Now().Add(Limit), false)
	a.solo, a.cost = true, true
	ms := load.Methods
	if len(only) > 0 {
		ms = only
	}
	var insts []*load.Inst
	for _, in := range p.Insts {
		if maps != "" && maps != in.Ctor.Name {
			continue
		}
		if isFloat(in.Ctor) && !float {
			continue
		}
		if err := a.need(in, "ctor", true); err != nil {
			fmt.Println(err)
			return 1
		}
		insts = append(insts, in)
		for _, m := range ms {
			a.need(in, m, true)
		}
	}
	a.run()
	seen := map[string]bool{}
	total := map[string]int{}
	show := func(in *load.Inst, f *engine.Finding) {
		var ps []string
		for _, q := range Props {
			if q.ID == "G01" || q.ID == "K01" && !isFloat(in.Ctor) || q.ID != "K01" && isFloat(in.Ctor) || f.Entry == "ctor" && !q.Ctors {
				continue
			}
			ok := f.Entry == "ctor"
			for _, m := range q.Methods {
				ok = ok || m == f.Entry
			}
			if ok && q.concerns(f) {
				ps = append(ps, q.ID)
				total[q.ID]++
			}
		}
		s := fmt.Sprintf("%s in %s at %s:%d (%s): %s", f.Rule, f.Entry, f.Pos.Filename, f.Pos.Line, f.Func, f.Msg)
		if seen[s] {
			return
		}
		seen[s] = true
		fmt.Println(s, ps)
	}
	for _, in := range insts {
		for _, m := range append([]string{"ctor"}, ms...) {
			for _, f := range a.byInst[a.jobID(in, m, true)].findings {
				show(in, f)
			}
		}
		for _, f := range a.combined(in, true) {
			show(in, f)
		}
	}
	fmt.Println("properties:", sortedKeys(total))
	return len(seen)
}
