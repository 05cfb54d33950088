package cg

import (
	. "github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

var scalars = append([]*Ty{I1}, Nums...)

// H_C20_scalar: one argument of every scalar type, read from every kind of
// place, for all values.
func H_C20_scalar() {
	t := scalars[rt.Choose("type", len(scalars))]
	b := newB(Void, params(t, "a")...)
	k := chooseForm("form")
	if t == I1 && k == fGlobal {
		rt.Assume(false)
	}
	b.add(Print(b.form(k, V("a", t))), Ret(nil))
	b.checkSym()
}

// H_C20_several: arguments of two types and a string between them, for all
// values: one space between arguments, in order.
func H_C20_several() {
	t := scalars[rt.Choose("type 1", len(scalars))]
	u := scalars[rt.Choose("type 2", len(scalars))]
	b := newB(Void, Field{"a", t}, Field{"b", u})
	strs := []*E{nil, Str("is", "is"), Str("", ""), Str("100% %d %s", "100% %d %s")}
	s := strs[rt.Choose("string", len(strs))]
	args := []*E{V("a", t), V("b", u)}
	switch n := rt.Choose("place of the string", 3); {
	case s == nil:
	case n == 0:
		args = append([]*E{s}, args...)
	case n == 1:
		args = []*E{args[0], s, args[1]}
	default:
		args = append(args, s)
	}
	if s == nil {
		args = append(args, args[0])
	}
	b.add(Print(args...), Ret(nil))
	b.checkSym()
}

// H_C20_results: arguments that are results of operators, calls, casts and
// literals.
func H_C20_results() {
	t := Ints[rt.Choose("type", len(Ints))]
	b := newB(Void, params(t, "a", "b")...)
	a, c := V("a", t), V("b", t)
	var e *E
	switch rt.Choose("expression", 12) {
	case 0:
		e = Bin("+", a, c)
	case 1:
		e = Bin("<", a, c)
	case 2:
		e = Un("!", Bin("==", a, c))
	case 3:
		e = Un("-", a)
	case 4:
		e = Cast(I1, Bin("&", a, Lit(1, t)))
	case 5:
		e = Cast(scalars[rt.Choose("target", len(scalars))], a)
	case 6:
		e = CastB(scalars[rt.Choose("target", len(scalars))], a)
	case 7:
		e = Lit(100, t)
	case 8:
		e = Bin("&&", Bin("<", a, c), Bin("!=", c, Lit(0, t)))
	case 9:
		e = Un("++", a)
	case 10:
		e = Sizeof(t)
	case 11:
		e = FLit("2.5", 2.5, []*Ty{F32, F64}[rt.Choose("float", 2)])
	}
	b.add(Print(e, a, c), Ret(nil))
	b.checkSym()
}

// H_C20_once: every argument is evaluated once, from left to right, before
// anything is printed.
func H_C20_once() {
	t := Ints[rt.Choose("type", len(Ints))]
	n := 1 + rt.Choose("arguments", 4)
	b := newB(Void, params(t, "a")...)
	id := &Fn{Name: "see", Params: params(t, "z"), Ret: t, Body: []*S{Ob(V("z", t)), Ret(Bin("+", V("z", t), Lit(1, t)))}}
	b.p.Fns = append(b.p.Fns, id)
	var args []*E
	for i := 0; i < n; i++ {
		args = append(args, Call(id, Bin("+", V("a", t), Lit(uint64(i), t))))
	}
	b.add(Print(args...), Print(args[0]), Ret(nil))
	b.checkSym()
}

// H_C20_aggregate: structs are printed as their name, pointers and functions
// as addresses, strings as their characters, arrays and unions not at all, and
// the other arguments are not disturbed.
func H_C20_aggregate() {
	t := Nums[rt.Choose("type", len(Nums))]
	b := newB(Void, params(t, "a")...)
	st := Struct("Pair", Field{"x", t}, Field{"y", I8})
	un := Union("Either", Field{"x", t}, Field{"y", I64})
	b.p.Types = append(b.p.Types, st, un)
	b.add(Decl("s", StructLit(st, []string{"x", "y"}, V("a", t), Lit(1, I8))))
	b.add(DeclT("u", un, V("a", t)))
	b.add(Decl("w", Str("words", "words")))
	b.add(Decl("p", Addr(V("s", st))))
	g := &Fn{Name: "g", Params: params(t, "z"), Ret: t, Body: []*S{Ret(V("z", t))}}
	b.p.Fns = append(b.p.Fns, g)
	at := Arr(3, t)
	b.add(Decl("l", ArrLit(at, V("a", t), V("a", t), V("a", t))))
	all := []*E{V("l", at), Idx(V("l", at), Lit(1, I32)), V("s", st), V("u", un), V("w", Ptr(I8)), V("p", Ptr(st)), FnRef(g), Addr(V("u", un)),
		Deref(V("p", Ptr(st))), Fld(V("p", Ptr(st)), "x"), Fld(V("s", st), "y"), V("a", t)}
	i, j := rt.Choose("first", len(all)), rt.Choose("second", len(all))
	b.add(Print(all[i], all[j], V("a", t)), Ret(nil))
	b.checkSym()
}

// H_C20_sequence: prints happen when and as often as their statements run.
func H_C20_sequence() {
	t := Ints[rt.Choose("type", len(Ints))]
	n := 3
	if rt.Tier() > 0 {
		n = 5
	}
	b := newB(Void, params(t, "n", "a")...)
	i := V("i", t)
	b.add(Print(Str("start", "start")))
	b.add(For(Decl("i", Lit(0, t)), Bin("<", i, V("n", t)), Assign(i, Bin("+", i, Lit(1, t))),
		If(Bin("==", i, V("a", t)), []*S{Print(Str("found", "found"), i), Ret(nil)}, nil),
		Print(i)))
	b.add(Print(Str("end", "end"), V("n", t)), Ret(nil))
	v, w := Sym("n", t), Sym("a", t)
	rt.Assume(v.Num() <= int64(n))
	b.check(v, w)
}
