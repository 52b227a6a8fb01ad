package engine

import "fmt"

var DumpBlock = -1

// DebugBlocks prints how often blocks of the outermost activation were run.
func (e *Eng) DebugBlocks() {
	e.Debug = func(w *worker) {
		if len(e.stack) > 1 {
			return
		}
		type row struct{ keys, sts, runs, joins int }
		m := map[int]*row{}
		for _, n := range w.nodes {
			r := m[n.blk.Index]
			if r == nil {
				r = &row{}
				m[n.blk.Index] = r
			}
			r.keys++
			r.sts += len(n.sts)
			r.runs += n.runs
			for _, j := range n.join {
				r.joins += j
			}
		}
		if DumpBlock >= 0 {
			for k, n := range w.nodes {
				if n.blk.Index == DumpBlock {
					for _, x := range n.sts {
						fmt.Printf("KEY %x\n%s\n", k, x.Dump())
					}
				}
			}
		}
		for _, b := range w.fi.Fn.Blocks {
			if r := m[b.Index]; r != nil {
				fmt.Printf("   %s b%d %s keys %d states %d runs %d joins %d\n", w.fi.Fn.Name(), b.Index, b.Comment, r.keys, r.sts, r.runs, r.joins)
			}
		}
	}
}

func (st *State) Dump() string {
	s := fmt.Sprintf("G=%+v unw=%d\n", st.G, st.Unwind)
	for i, f := range st.Frames {
		s += fmt.Sprintf(" frame %d %s anch=%d defers=%d\n", i, f.Fi.Fn.Name(), len(f.Anch), len(f.Defers))
		for v, k := range f.Fi.Idx {
			if x := f.Regs[k]; x.K != KUndef {
				s += fmt.Sprintf("   %s(%s) = %s\n", v.Name(), v.Type(), st.show(x))
			}
		}
		for _, a := range f.Anch {
			s += fmt.Sprintf("   anchor b%d %v casF=%v\n", a.Head.Head.Index, len(a.Vals), a.CasF)
		}
	}
	for i, o := range st.Objs {
		if o.Kind == ODead {
			continue
		}
		s += fmt.Sprintf("  o%d kind=%d facts=%b lvl=%d%v held=%d unless=%v next=%v obs=%x linked=%x", i, o.Kind, o.Facts, o.Lvl, st.IV[o.Lvl], o.Held, o.Unless, o.Next, o.ObsSuc, o.Linked)
		if o.Owner != 0 {
			s += fmt.Sprintf(" owner=%d", o.Owner)
		}
		if len(o.Cells) > 0 {
			s += " cells="
			for _, c := range o.Cells {
				s += st.show(c) + ","
			}
		}
		s += " rel:"
		for j := range st.Objs {
			if j != i && st.rel(int32(i), int32(j)) != 0 && st.Objs[j].Kind != ODead {
				s += fmt.Sprintf(" %d:%x", j, st.rel(int32(i), int32(j)))
			}
		}
		s += "\n"
	}
	return s
}

func (st *State) show(v Val) string {
	switch v.K {
	case KInt:
		return fmt.Sprint(v.N)
	case KIVar:
		return fmt.Sprintf("iv%d%v+%d", v.A, st.IV[v.A], v.N)
	case KBool:
		return fmt.Sprintf("b%d", v.N)
	case KPtr:
		return fmt.Sprintf("&o%d.%d", v.A, v.N)
	}
	if v.X != nil && len(v.X.Elems) > 0 {
		s := "{"
		for _, x := range v.X.Elems {
			s += st.show(x) + " "
		}
		return s + "}"
	}
	return fmt.Sprintf("k%d/%d/%d", v.K, v.A, v.N)
}
