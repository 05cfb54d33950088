package lang

import (
	"github.com/gabivlj/candice/internals/verifh/irx"
	"github.com/gabivlj/candice/internals/verifh/pipe"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// ToIR converts a scalar.
func ToIR(v *Val) *irx.Val {
	switch {
	case v.T == F32:
		return irx.F32V(v.G)
	case v.T == F64:
		return irx.F64V(v.F)
	case v.T.W == 1:
		return irx.BoolV(v.B)
	case v.T.IsInt():
		return irx.IntV(v.T.W, v.U)
	}
	panic("ToIR " + v.T.name)
}

// Same reports whether the compiled value g is the expected scalar v.
func Same(g *irx.Val, v *Val) bool {
	if v == nil || v.T.K == 'v' {
		return g.K == irx.Void
	}
	switch {
	case v.T == F32:
		return g.K == irx.F32 && rt.SameF32(g.G, v.G)
	case v.T == F64:
		return g.K == irx.F64 && rt.SameF64(g.F, v.F)
	case v.T.IsInt() && v.T.W == 1:
		return g.K == irx.Bool && g.B == v.B
	case v.T.IsInt():
		return g.K == irx.Int && g.W == v.T.W && g.U == v.U
	}
	panic("Same " + v.T.name)
}

func logVal(l string, g *irx.Val) {
	switch g.K {
	case irx.Int, irx.Bool:
		rt.Log(l, g.Bits())
	case irx.F64:
		rt.Log(l, rt.F64bits(g.F))
	case irx.F32:
		rt.Log(l, rt.F32bits(g.G))
	}
}

// Build compiles p, which must be accepted and give a well-formed module.
func (p *Prog) Build() *irx.M {
	src := p.Src()
	r := pipe.Compile(src)
	if r.Stage != "compiled" {
		for _, e := range r.Errs {
			rt.Log("diagnostic", e.Error())
		}
		rt.Log("src", src)
	}
	rt.Assert(r.Stage == "compiled", "a valid program is accepted")
	bad := irx.Check(r.M)
	if bad != "" {
		rt.Log("src", src)
		rt.Log("reason", bad)
	}
	rt.Assert(bad == "", "the IR is well-formed")
	mm := irx.New(r.M)
	mm.Ext = func(_ *irx.M, name string, _ []*irx.Val) *irx.Val { return &irx.Val{K: irx.Void} }
	return mm
}

// RunOK runs name, which must not trap, and keeps the events that pass keep.
func RunOK(p *Prog, mm *irx.M, name string, args ...*irx.Val) *irx.Val {
	got, trap := mm.Run(name, args...)
	if trap != "" {
		rt.Log("src", p.Src())
		rt.Log("trap", trap)
	}
	rt.Assert(trap == "", "the compiled program runs without a trap")
	return got
}

// Check compiles p with the real compiler, runs function fn of the emitted IR
// on args and compares its result and its observations with the evaluator.
func (p *Prog) Check(fn *Fn, args ...*Val) {
	src := p.Src()
	r := pipe.Compile(src)
	if r.Stage != "compiled" {
		for _, e := range r.Errs {
			rt.Log("diagnostic", e.Error())
		}
		rt.Log("src", src)
	}
	rt.Assert(r.Stage == "compiled", "a valid program is accepted")
	bad := irx.Check(r.M)
	if bad != "" {
		rt.Log("src", src)
		rt.Log("reason", bad)
	}
	rt.Assert(bad == "", "the IR is well-formed")
	want, m := Run(p, fn, args)
	rt.Assume(m.UB == "")
	var ia []*irx.Val
	for _, a := range args {
		ia = append(ia, ToIR(a))
	}
	mm := irx.New(r.M)
	mm.Ext = func(_ *irx.M, name string, _ []*irx.Val) *irx.Val { return &irx.Val{K: irx.Void} }
	got, trap := mm.Run(fn.Name, ia...)
	if trap != "" {
		rt.Log("src", src)
		rt.Log("trap", trap)
	}
	rt.Assert(trap == "", "the compiled program runs without a trap")
	ok := Same(got, want)
	var evs []irx.Event
	for _, e := range mm.Events {
		if e.Name == "printf" || len(e.Name) > 3 && e.Name[:3] == "ob_" {
			evs = append(evs, e)
		}
	}
	same := len(evs) == len(m.Events)
	if same {
		for i, e := range evs {
			if e.Name == "printf" && m.Events[i].Name == e.Name {
				shape, eq := samePieces(e.Out, m.Events[i].Out)
				if !shape {
					rt.Log("src", src)
					rt.Log("printed", show(e.Out))
					rt.Log("to print", show(m.Events[i].Out))
				}
				rt.Assert(shape, "the text printed has its defined form")
				ok = rt.And(ok, eq)
				continue
			}
			if e.Name != m.Events[i].Name || len(e.Args) != 1 {
				same = false
				break
			}
			ok = rt.And(ok, Same(e.Args[0], m.Events[i].V))
		}
	}
	if !same {
		rt.Log("src", src)
		rt.Log("observations", len(evs))
		rt.Log("expected", len(m.Events))
	}
	rt.Assert(same, "the same observations happen in the same order")
	logVal("result", got)
	rt.Assert(ok, "every result and observation has its defined value")
	rt.Cover("end")
}
