package cg

import (
	. "github.com/gabivlj/candice/internals/verifh/lang"
	"github.com/gabivlj/candice/internals/verifh/pipe"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

func constLit(t *Ty) *E {
	if t.IsFloat() {
		return []*E{FLit("1.5", 1.5, t), FLit("0.25", 0.25, t)}[rt.Choose("literal", 2)]
	}
	if t == I1 {
		return Lit(uint64(rt.Choose("literal", 2)), t)
	}
	vs := []uint64{1, 6, 100}
	return Lit(vs[rt.Choose("literal", len(vs))], t)
}

func constOps(t *Ty) []string {
	switch {
	case t.IsFloat():
		return fltOps
	case t == I1:
		return []string{"&", "|", "^"}
	}
	return append(append([]string{}, intOps...), shiftOps...)
}

// constTree is a constant expression over literals.
func constTree(t *Ty, depth int) *E {
	if depth == 0 {
		return constLit(t)
	}
	switch rt.Choose("node", 4) {
	case 0:
		return constLit(t)
	case 1:
		ops := constOps(t)
		op := ops[rt.Choose("op", len(ops))]
		l := constTree(t, depth-1)
		if op == "<<" || op == ">>" {
			return Bin(op, l, Lit(uint64(1+rt.Choose("amount", 2)), []*Ty{I32, I8, I64}[rt.Choose("amount type", 3)]))
		}
		return Bin(op, l, constTree(t, depth-1))
	case 2:
		if t == I1 {
			rt.Assume(false)
		}
		return Un([]string{"-", "+"}[rt.Choose("sign", 2)], constTree(t, depth-1))
	}
	from := allNums[rt.Choose("from", len(allNums))]
	if from.IsFloat() && t == I1 {
		rt.Assume(false)
	}
	return Cast(t, constTree(from, depth-1))
}

// H_C10_value: a constant (global, local, or an initialised global variable)
// has the value of its expression; constants may use constants.
func H_C10_value() {
	t := allNums[rt.Choose("type", len(allNums))]
	e := constTree(t, 1+rt.Tier())
	b := newB(t)
	switch rt.Choose("where", 5) {
	case 0:
		b.p.Globals = append(b.p.Globals, Const("K", e))
		b.add(Ret(V("K", t)))
	case 1:
		b.add(Const("K", e), Ret(V("K", t)))
	case 2:
		b.p.Globals = append(b.p.Globals, DeclT("g", t, e))
		b.add(Ret(V("g", t)))
	case 3:
		// a constant from constants
		b.p.Globals = append(b.p.Globals, Const("K", e))
		if t == I1 {
			b.p.Globals = append(b.p.Globals, Const("L", Bin("^", V("K", t), V("K", t))))
		} else {
			b.p.Globals = append(b.p.Globals, Const("L", Bin("+", V("K", t), Bin("*", V("K", t), V("K", t)))))
		}
		b.add(Ret(V("L", t)))
	case 4:
		b.p.Globals = append(b.p.Globals, Const("K", e), DeclT("g", t, V("K", t)))
		b.add(Assign(V("g", t), V("K", t)), Ob(V("K", t)), Ret(V("g", t)))
	}
	b.checkSym()
}

// H_C10_deep: deeper constant expressions over one integer type.
func H_C10_deep() {
	t := []*Ty{I8, U8, I32, U64}[rt.Choose("type", 4)]
	o1, o2 := constOps(t)[rt.Choose("op1", 10)], constOps(t)[rt.Choose("op2", 10)]
	vs := []uint64{1, 3, 100, 5}
	lit := func(i int, op string) *E {
		if op == "<<" || op == ">>" {
			return Lit(2, I32)
		}
		return Lit(vs[i], t)
	}
	var e *E
	if rt.Choose("right nested", 2) == 1 {
		if o1 == "<<" || o1 == ">>" {
			rt.Assume(false)
		}
		e = Bin(o1, Lit(100, t), Bin(o2, Lit(7, t), lit(1, o2)))
	} else {
		e = Bin(o2, Bin(o1, Lit(100, t), lit(1, o1)), lit(3, o2))
	}
	b := newB(t)
	b.p.Globals = append(b.p.Globals, Const("K", e))
	b.add(Ob(V("K", t)), Ret(V("K", t)))
	b.checkSym()
}

// mutations of K, a constant of the given type, as statements.
var mutations = []string{
	"K = 3;", "++K;", "--K;", "x := ++K;", "K, v = v, 3;", "v, K = 3, v;",
	"for i := 0; v < 3; ++K { ++v; }", "for K = 0; v < 3; ++v { }", "for i := 0; v < 3; K = v { ++v; }", "g(--K);", "g(: i32 { K = 2; return 1; });", "if v == 1 { K = 4; }",
	"while1", "switch v { case 1 { K = 1; } }", "h := func(a i32) i32 { K = 2; return a; };", "h := func(a i32) i32 { ++K; return a; };",
	"h := func(a i32) i32 { return --K; };", "return ++K;", "v = ++K;", "{ { K = 1; } }", "x := [2]i32{1, ++K};", "v = v + --K;", "h := func(a i32) i32 { l := func(b i32) i32 { K = b; return 1; }; return l(a); };",
	"K, K = v, v;", "w := [2]i32{0, 0}; w[0], K = v, v;", "g(++K + 1);", "h := func(a i32) i32 { v, K = a, a; return a; };",
}

// H_C10_immutable: no program that assigns to, increments or decrements
// a constant is accepted; the same statement on a variable of
// the same name is.
func H_C10_immutable() {
	m := mutations[rt.Choose("mutation", len(mutations))]
	if m == "while1" {
		m = "for v < 3 { ++v; K = v; }"
	}
	kind := rt.Choose("constant", 8)
	pre, in := "", ""
	reject := true
	switch kind {
	case 0:
		pre = "const K := 5;\n"
	case 1:
		in = "const K := 5;\n"
	case 2:
		pre = "const J := 5;\nconst K := J + 1;\n"
	case 3:
		// a constant hides a variable
		pre = "K : i32 = 1;\n"
		in = "const K := 5;\n"
	case 4:
		// a variable hides a constant
		pre = "const K := 5;\n"
		in = "K := 5;\n"
		reject = false
	case 5:
		in = "K := 5;\n"
		reject = false
	case 6:
		in = "const K, J := two();\n"
	case 7:
		in = "const J, K := two();\n"
	}
	src := "func two() i32, i32 { return 1, 2; }\n" + pre + "func g(z i32) i32 { return z; }\nfunc f(v i32) i32 {\n" + in + m + "\nreturn 0;\n}\nfunc main() i32 { return 0; }\n"
	rt.Case(m)
	r, _ := pipe.Front(src)
	rt.Log("src", src)
	for _, e := range r.Errs {
		rt.Log("diagnostic", e.Error())
	}
	if reject {
		rt.Assert(r.Stage == "semantic", "a program that changes a constant is rejected")
	} else {
		rt.Assert(r.Stage == "compiled", "a program that changes a variable is accepted")
	}
	rt.Cover("end")
}

// H_C10_use: constants of every kind are usable wherever a value is, and keep
// their value, also inside anonymous functions, loops and nested scopes.
func H_C10_use() {
	t := allNums[rt.Choose("type", len(allNums))]
	var v *E
	if t.IsFloat() {
		v = FLit("2.5", 2.5, t)
	} else if t == I1 {
		v = Lit(1, t)
	} else {
		v = Lit(77, t)
	}
	b := newB(t, Field{"c", I1}, Field{"x", t})
	if rt.Choose("global", 2) == 1 {
		b.p.Globals = append(b.p.Globals, Const("K", v))
	} else {
		b.add(Const("K", v))
	}
	k := V("K", t)
	var capK []string
	if b.p.Globals == nil {
		capK = []string{"K"}
	}
	switch rt.Choose("use", 10) {
	case 0:
		b.add(If(V("c", I1), []*S{Ob(k)}, nil), Ret(k))
	case 1:
		l := &Fn{Name: "l", Params: params(t, "z"), Ret: t, Cap: capK, Body: []*S{Ob(k), Ret(k)}}
		e := Lambda(l)
		b.add(Decl("l", e), Ob(CallV(V("l", e.T), k)), Ret(k))
	case 2:
		b.add(For(Decl("n", Lit(0, I32)), Bin("<", V("n", I32), Lit(2, I32)), Ex(Un("++", V("n", I32))), Ob(k)), Ret(k))
	case 3:
		// hidden by a variable in an inner scope
		b.add(Blk(Decl("K", V("x", t)), Assign(V("K", t), V("x", t)), Ob(V("K", t))), Ret(k))
	case 4:
		at := Arr(2, t)
		b.add(Decl("ar", ArrLit(at, k, V("x", t))), Assign(Idx(V("ar", at), Lit(1, I32)), k), Ret(Idx(V("ar", at), Lit(1, I32))))
	case 5:
		st := Struct("St", Field{"v", t})
		b.p.Types = append(b.p.Types, st)
		b.add(Decl("s", StructLit(st, []string{"v"}, k)), Ret(Fld(V("s", st), "v")))
	case 6:
		b.add(Decl("y", k), Assign(V("y", t), V("x", t)), Ob(V("y", t)), Ret(k))
	case 8:
		// the address of a constant is the address of a copy
		pt := Ptr(t)
		b.add(Decl("q", Addr(k)), Assign(Deref(V("q", pt)), V("x", t)), Ob(k), Ret(k))
	case 9:
		// a constant out of a constant inside an anonymous function
		l := &Fn{Name: "l", Params: params(t, "z"), Ret: t, Cap: capK, Body: []*S{Const("L", k), Ob(V("L", t)), Ret(V("L", t))}}
		e := Lambda(l)
		b.add(Decl("l", e), Ob(CallV(V("l", e.T), k)), Ret(k))
	case 7:
		b.add(Ret(b.form(chooseForm("form"), k)))
	}
	b.checkSym()
}
