package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"os"
)

func main() {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: os.Args[1], Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off")}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		panic(err)
	}
	for _, e := range pkgs[0].Errors {
		fmt.Println("ERR", e)
	}
	prog, ps := ssautil.Packages(pkgs, 0)
	prog.Build()
	_ = prog
	p := ps[0]
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		if fn.Pkg == p && (len(os.Args) < 3 || fn.Name() == os.Args[2]) {
			fn.WriteTo(os.Stdout)
		}
	}
	for _, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && f.Name() == os.Args[2] {
			f.WriteTo(os.Stdout)
		}
		if t, ok := m.(*ssa.Type); ok && t.Name() == os.Args[3] {
			n := t.Type().(*types.Named)
			for i := 0; i < n.NumMethods(); i++ {
				f := prog.FuncValue(n.Method(i))
				if f.Name() == os.Args[2] {
					f.WriteTo(os.Stdout)
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if c, ok := in.(ssa.CallInstruction); ok {
								cc := c.Common().StaticCallee()
								if cc != nil {
									fmt.Println(cc, cc.Synthetic, cc.Origin(), len(cc.Blocks))
								}
							}
						}
					}
				}
			}
		}
	}
}
