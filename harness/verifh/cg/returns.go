package cg

import (
	. "github.com/gabivlj/candice/internals/verifh/lang"
	"github.com/gabivlj/candice/internals/verifh/pipe"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// returnsL: do the statements return on every path? A loop body may not run,
// an if without else and a switch without default may do nothing.
func returnsL(b []*S) bool {
	for _, s := range b {
		if returnsS(s) {
			return true
		}
	}
	return false
}

func returnsS(s *S) bool {
	all := s.HasE
	switch s.Op {
	case "ret", "unreachable":
		return true
	case "blk":
		return returnsL(s.B)
	case "if", "switch":
		for _, b := range s.Bs {
			all = all && returnsL(b)
		}
		return all && returnsL(s.Else)
	}
	return false
}

// rgen generates bodies whose branches return or don't.
type rgen struct {
	tag   uint64
	conds int
	value bool
}

func (g *rgen) ob() *S {
	g.tag++
	return Ob(Lit(g.tag, I32))
}

func (g *rgen) ret() *S {
	if !g.value {
		return Ret(nil)
	}
	g.tag++
	return Ret(Bin("+", V("x", I32), Lit(g.tag, I32)))
}

func (g *rgen) cond() *E {
	g.conds++
	switch g.conds % 3 {
	case 1:
		return Bin("==", V("x", I32), Lit(uint64(g.conds), I32))
	case 2:
		return Bin(">", V("y", I32), Lit(2, I32))
	}
	return Bin("<", V("x", I32), V("y", I32))
}

// leaf is a block that only observes, returns, is unreachable, or returns
// after an observation.
func (g *rgen) leaf(n int) []*S {
	switch rt.Choose("leaf", n) {
	case 0:
		return []*S{g.ret()}
	case 1:
		return []*S{g.ob()}
	case 2:
		return []*S{Unreach()}
	}
	return []*S{}
}

// branch is a leaf, or for i == nest a compound statement.
func (g *rgen) branch(i, nest, depth int, loop bool) []*S {
	if i == nest && depth > 1 {
		b := []*S{g.compound(depth-1, loop)}
		if rt.Choose("after nested", 2) == 1 {
			b = append(b, g.ret())
		}
		return b
	}
	if depth > 1 {
		return g.leaf(2)
	}
	return g.leaf(3)
}

func (g *rgen) compound(depth int, loop bool) *S {
	arms := []int{1, 2, 2, 3, 2, 3, 1, 1, 1, 1, 1}
	k := rt.Choose("compound", len(arms))
	nest := 0
	if depth > 1 {
		nest = rt.Choose("nested in", arms[k])
	}
	br := func(i int) []*S { return g.branch(i, nest, depth, loop || k >= 6 && k <= 8) }
	switch k {
	case 0:
		return If(g.cond(), br(0), nil)
	case 1:
		return If(g.cond(), br(0), append([]*S{}, br(1)...))
	case 2, 3:
		c, d := g.cond(), g.cond()
		bs := [][]*S{br(0), br(1)}
		if k == 2 {
			return IfChain([]*E{c, d}, bs, nil)
		}
		return IfChain([]*E{c, d}, bs, append([]*S{}, br(2)...))
	case 4, 5:
		lits := []*E{Lit(1, I32), Lit(5, I32)}
		bs := [][]*S{br(0), br(1)}
		if k == 4 {
			return Switch(V("x", I32), lits, bs, nil)
		}
		return Switch(V("x", I32), lits, bs, append([]*S{}, br(2)...))
	case 6:
		return While(Bin("<", V("x", I32), V("y", I32)), append(br(0), If(g.cond(), []*S{Break()}, nil), g.ret())...)
	case 7:
		return Loop(append(br(0), If(g.cond(), []*S{Break()}, []*S{g.ret()}))...)
	case 8:
		return For(Decl("i", Lit(0, I32)), Bin("<", V("i", I32), Lit(2, I32)), Ex(Un("++", V("i", I32))), br(0)...)
	case 9:
		return Blk(br(0)...)
	}
	// the first of one case, only a default
	return Switch(V("y", I32), nil, nil, append([]*S{}, br(0)...))
}

func (g *rgen) body(depth int) []*S {
	var out []*S
	full := depth == 1 || rt.Tier() > 0
	if full && rt.Choose("before", 2) == 1 {
		out = append(out, g.ob())
	}
	out = append(out, g.compound(depth, false))
	n := 3
	if !full {
		n = 1
	}
	switch rt.Choose("after", n) {
	case 1:
		out = append(out, g.ob())
	case 2:
		out = append(out, g.ob(), g.ret())
	}
	return out
}

// judge checks that p is accepted exactly when its body returns on all paths,
// and then that it runs as defined.
func judge(p *Prog, fn *Fn, accept bool) {
	if !accept {
		r, _ := pipe.Front(p.Src())
		rt.Log("src", p.Src())
		rt.Assert(r.Stage != "compiled", "a body with a path that doesn't return is rejected")
		rt.Cover("rejected")
		rt.Cover("end")
		return
	}
	rt.Cover("accepted")
	p.Check(fn, Sym("x", I32), Sym("y", I32))
}

func returnsIn(depth int) {
	g := &rgen{value: true}
	p := &Prog{}
	f := &Fn{Name: "f", Params: params(I32, "x", "y"), Ret: I32}
	n := 4
	if depth > 1 && rt.Tier() == 0 {
		n = 2
	}
	kind := rt.Choose("kind", n) * 4 / n
	switch kind {
	case 0:
		f.Body = g.body(depth)
		p.Fns = append(p.Fns, f)
		judge(p, f, returnsL(f.Body))
	case 1:
		// an anonymous function
		l := &Fn{Params: params(I32, "x", "y"), Ret: I32, Body: g.body(depth)}
		e := Lambda(l)
		f.Body = []*S{Decl("l", e), Ret(CallV(V("l", e.T), V("x", I32), V("y", I32)))}
		p.Fns = append(p.Fns, f)
		judge(p, f, returnsL(l.Body))
	case 2:
		// a block expression
		e := BlockE(I32, g.body(depth)...)
		f.Body = []*S{Decl("v", e), Ob(V("v", I32)), Ret(V("v", I32))}
		p.Fns = append(p.Fns, f)
		judge(p, f, returnsL(e.B))
	case 3:
		// no value: every body is accepted
		g.value = false
		v := &Fn{Name: "v", Params: params(I32, "x", "y"), Ret: Void, Body: g.body(depth)}
		p.Fns = append(p.Fns, v, f)
		f.Body = []*S{Ex(Call(v, V("x", I32), V("y", I32))), Ret(V("x", I32))}
		judge(p, f, true)
	}
}

// H_C09_paths: bodies made of one compound statement.
func H_C09_paths() { returnsIn(1) }

// H_C09_nested: bodies with a compound statement inside a compound statement.
func H_C09_nested() {
	returnsIn(2)
}

// H_C09_types: the value returned has the type that is declared.
func H_C09_types() {
	types := []string{"i32", "i64", "u8", "f32", "f64", "*i32", "*u8", "[2]i32", "S", "T", "i1", "(i32, i32)", "(i32, i64)", "func(i32) i32", "func(i32) i64", ""}
	vals := []string{"vi32", "vi64", "vu8", "vf32", "vf64", "vp", "vpu", "va", "vs", "vt", "vi1", "vi32, vi32", "vi32, vi64", "vf", "vg", ""}
	i, j := rt.Choose("declared", len(types)), rt.Choose("returned", len(vals))
	decl := "vi32 : i32 = 1; vi64 : i64 = 1 as i64; vu8 : u8 = 1 as u8; vf32 := 1.5; vf64 := 1.5 as f64; vp := &vi32; vpu := &vu8; " +
		"va := [2]i32{1, 2}; vs := @S{x: 1}; vt := @T{x: 1}; vi1 := 1 == 1; vf := ga; vg := gb;\n"
	pre := "struct S { x i32 }\nstruct T { x i32 }\nfunc ga(x i32) i32 { return x; }\nfunc gb(x i32) i64 { return 1 as i64; }\n"
	ret := "return " + vals[j] + ";"
	if j == len(vals)-1 {
		ret = "return;"
	}
	body := ret
	if rt.Choose("nested", 2) == 1 {
		body = "if vi32 == 1 { " + ret + " } else { " + ret + " }"
	}
	src := ""
	switch rt.Choose("kind", 2) {
	case 0:
		src = pre + "func f() " + types[i] + " {\n" + decl + body + "\n}\nfunc main() i32 { return 0; }\n"
	case 1:
		src = pre + "func main() i32 {\nl := func() " + types[i] + " {\n" + decl + body + "\n};\nreturn 0; }\n"
	}
	verdict(src, i == j, "a return statement")
}
