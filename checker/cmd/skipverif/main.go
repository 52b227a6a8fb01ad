package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"skipverif/checks"
	"skipverif/engine"
	"skipverif/load"
)

func main() {
	dir := flag.String("repo", "/repo", "")
	ctor := flag.String("ctor", "NewInt", "")
	meth := flag.String("m", "", "")
	tr := flag.Bool("trace", false, "")
	budget := flag.Int("budget", 3000000, "")
	dbg := flag.Bool("dbg", false, "")
	flag.IntVar(&engine.DumpBlock, "dump", -1, "")
	prof := flag.String("prof", "", "")
	check := flag.String("check", "", "property to decide")
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "/verif", "")
	classes := flag.Bool("classes", false, "list the classes of operations")
	matrix := flag.Bool("matrix", false, "analyse once, list findings with their properties")
	float := flag.Bool("float", false, "with -matrix: also floating-point keys")
	maps := flag.String("maps", "", "with -matrix: only this constructor")
	flag.Parse()
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(8 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *matrix {
		var ms []string
		if *meth != "" {
			ms = strings.Split(*meth, ",")
		}
		checks.Matrix(*dir, ms, *float, *maps)
		return
	}
	if *check != "" {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		c := checks.Check(checks.Options{Repo: *dir, Verif: *verif, Prop: *check, Tier: *tier, Seed: seed})
		pprof.StopCPUProfile()
		os.Exit(c)
	}
	p, err := load.Load(*dir, "GOFLAGS=-mod=readonly", "GOPROXY=off")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, s := range p.Errs {
		fmt.Println("ERR", s)
	}
	if *classes {
		checks.Classes(p)
		return
	}
	for _, in := range p.Insts {
		if *ctor != "all" && in.Ctor.Name+in.Ctor.Args != *ctor && in.Ctor.Name != *ctor {
			continue
		}
		l, err := engine.NewLayout(in.Map, p.Key[in.Ctor.Key])
		if err != nil {
			fmt.Println(err)
			continue
		}
		e := engine.NewEng(p.Prog, l)
		e.Pkg = p.Pkg.Types
		e.Budget = *budget
		e.Solo, e.Cost = true, true
		if *dbg {
			e.DebugBlocks()
		}
		e.KeyT, e.ValT = p.Key[in.Ctor.Key], p.ValT
		e.Desc = in.Ctor.Desc
		e.KeyFloat = in.Ctor.Float && !in.Ctor.Fn
		e.NaNFirst = true
		for _, m := range load.Methods {
			if *meth != "" && *meth != m {
				continue
			}
			t0 := time.Now()
			b0 := e.Blocks
			e.Method(in.Methods[m], m)
			fmt.Printf("%s.%s: %v blocks %d\n", in.Map.Obj().Name(), m, time.Since(t0), e.Blocks-b0)
		}
		if *meth == "" {
			e.Ctor(in.CtorFn)
		}
		e.Finish()
		var ks []string
		for k := range e.Findings {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			f := e.Findings[k]
			fmt.Printf("  %s %s %s:%d [%s] %s\n", f.Rule, f.Entry, f.Pos.Filename, f.Pos.Line, f.Func, f.Msg)
			if *dbg {
				fmt.Println(f.Detail)
			}
			if *tr {
				for _, t := range f.Trace {
					fmt.Println("      ", t)
				}
			}
		}
	}
}
