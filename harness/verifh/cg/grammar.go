package cg

import (
	. "github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// level of the binary operators: higher binds tighter, all associate to the
// left.
func level(op string) int {
	switch op {
	case "&&", "||":
		return 1
	case "==", "!=", "<", ">", "<=", ">=":
		return 2
	case "+", "-":
		return 3
	case "&", "|", "^", "<<", ">>":
		return 4
	}
	return 5
}

var allOps = []string{"&&", "||", "==", "!=", "<", ">", "<=", ">=", "+", "-", "&", "|", "^", "<<", ">>", "*", "/", "%"}

// group parses operands and operators by their levels.
func group(xs []*E, ops []string) *E {
	if len(ops) == 0 {
		return xs[0]
	}
	// the last operator of the lowest level is applied last
	k := 0
	for i := range ops {
		if level(ops[i]) <= level(ops[k]) {
			k = i
		}
	}
	return Bin(ops[k], group(xs[:k+1], ops[:k]), group(xs[k+1:], ops[k+1:]))
}

// wellTyped: arithmetic on i8, comparisons of the same type, conditions of
// both.
func wellTyped(e *E) bool {
	if e.Op != "bin" {
		return true
	}
	l, r := e.A[0], e.A[1]
	if !wellTyped(l) || !wellTyped(r) {
		return false
	}
	switch level(e.S) {
	case 1:
		return l.T == r.T
	case 2:
		return l.T == r.T && l.T == I8
	}
	return l.T == I8 && r.T == I8
}

func joined(xs []string, ops []string, space string) string {
	s := xs[0]
	for i, o := range ops {
		s += space + o + space + xs[i+1]
	}
	return s
}

// result returns e, or its truth as a number.
func (b *bld) result(e *E) {
	b.f.Ret = e.T
	b.add(Ret(e))
}

func operators(n int) {
	names := []string{"a", "b", "c", "d", "e"}[:n+1]
	var ops []string
	for i := 0; i < n; i++ {
		ops = append(ops, allOps[rt.Choose("operator", len(allOps))])
	}
	var xs []*E
	for _, s := range names {
		xs = append(xs, V(s, I8))
	}
	e := group(xs, ops)
	if !wellTyped(e) {
		rt.Assume(false)
	}
	b := newB(e.T, params(I8, names...)...)
	b.add(Ret(Text(joined(names, ops, " "), e)))
	b.checkSym()
}

// H_C04_two: every pair of binary operators without parentheses.
func H_C04_two() { operators(2) }

// H_C04_three: every three binary operators without parentheses.
func H_C04_three() { operators(3) }

// H_C04_parens: every pair of binary operators with both groupings in
// parentheses.
func H_C04_parens() {
	o1, o2 := allOps[rt.Choose("operator", len(allOps))], allOps[rt.Choose("operator", len(allOps))]
	x, y, z := V("a", I8), V("b", I8), V("c", I8)
	var e *E
	s := ""
	if rt.Choose("grouping", 2) == 0 {
		e = Bin(o2, Bin(o1, x, y), z)
		s = "(a " + o1 + " b) " + o2 + " c"
	} else {
		e = Bin(o1, x, Bin(o2, y, z))
		s = "a " + o1 + " (b " + o2 + " c)"
	}
	if !wellTyped(e) {
		rt.Assume(false)
	}
	b := newB(e.T, params(I8, "a", "b", "c")...)
	b.add(Ret(Text(s, e)))
	b.checkSym()
}

// H_C04_prefix: prefix operators, casts, calls, indexes, fields and literals
// as the operands of every binary operator.
func H_C04_prefix() {
	op := allOps[rt.Choose("operator", len(allOps))]
	b := newB(I8, params(I8, "a", "b", "w")...)
	st := Struct("S", Field{"x", I8}, Field{"y", I8})
	b.p.Types = append(b.p.Types, st)
	at := Arr(2, I8)
	b.add(Decl("l", ArrLit(at, V("a", I8), V("b", I8))))
	b.add(Decl("s", StructLit(st, []string{"x", "y"}, V("a", I8), V("b", I8))))
	b.add(Decl("p", Addr(V("s", st))), Decl("q", Addr(V("a", I8))))
	g := &Fn{Name: "g", Params: params(I8, "x", "y"), Ret: I8, Body: []*S{Ret(Bin("-", V("x", I8), V("y", I8)))}}
	b.p.Fns = append(b.p.Fns, g)
	a, w := V("a", I8), V("w", I8)
	wide := Cast(I16, w)
	forms := []*E{
		Text("-a", Un("-", a)),
		Text("- -a", Un("-", Un("-", a))),
		Text("*q", Deref(V("q", Ptr(I8)))),
		Text("-*q", Un("-", Deref(V("q", Ptr(I8))))),
		Text("l[1]", Idx(V("l", at), Lit(1, I32))),
		Text("-l[1]", Un("-", Idx(V("l", at), Lit(1, I32)))),
		Text("s.y", Fld(V("s", st), "y")),
		Text("-s.y", Un("-", Fld(V("s", st), "y"))),
		Text("p.y", Fld(V("p", Ptr(st)), "y")),
		Text("*&a", Deref(Addr(a))),
		Text("*&s.y", Deref(Addr(Fld(V("s", st), "y")))),
		Text("g(a, b)", Call(g, a, V("b", I8))),
		Text("-g(a + b, b)", Un("-", Call(g, Bin("+", a, V("b", I8)), V("b", I8)))),
		Text("-a as i8", Cast(I8, Un("-", a))),
		Text("w as i16 as i8", Cast(I8, wide)),
		Text("l[1 - 1]", Idx(V("l", at), Lit(0, I32))),
		Text("g(a, b) as i16 as i8", Cast(I8, Cast(I16, Call(g, a, V("b", I8))))),
		Text("@cast(i8, a + b)", CastB(I8, Bin("+", a, V("b", I8)))),
		Text("(a + b)", Bin("+", a, V("b", I8))),
		Text("'a'", Raw("'a'", 'a', I8)),
	}
	f := forms[rt.Choose("operand", len(forms))]
	var e *E
	s := ""
	if rt.Choose("side", 2) == 0 {
		e, s = Bin(op, f.A[0], w), f.S+" "+op+" w"
	} else {
		e, s = Bin(op, w, f.A[0]), "w "+op+" "+f.S
	}
	b.result(Text(s, e))
	b.checkSym()
}

// H_C04_not: ! and comparisons.
func H_C04_not() {
	b := newB(I1, params(I8, "a", "b")...)
	a, c := V("a", I8), V("b", I8)
	lt := Bin("<", a, c)
	switch rt.Choose("expression", 7) {
	case 0:
		b.add(Ret(Text("!(a < b)", Un("!", lt))))
	case 1:
		b.add(Ret(Text("!(a < b) && a < b", Bin("&&", Un("!", lt), lt))))
	case 2:
		b.add(Ret(Text("!(a < b) == (a == b)", Bin("==", Un("!", lt), Bin("==", a, c)))))
	case 3:
		b.add(Ret(Text("!!(a < b)", Un("!", Un("!", lt)))))
	case 4:
		b.add(Ret(Text("!a || b == a", Bin("||", Un("!", a), Bin("==", c, a)))))
	case 5:
		b.add(Ret(Text("a < b || !(a == b) && b < a", Bin("&&", Bin("||", lt, Un("!", Bin("==", a, c))), Bin("<", c, a)))))
	case 6:
		b.add(Ret(Text("a + b < b && b - a > a", Bin("&&", Bin("<", Bin("+", a, c), c), Bin(">", Bin("-", c, a), a)))))
	}
	b.checkSym()
}

// H_C04_cast: as binds tighter than every binary operator, and less than the
// prefix operators.
func H_C04_cast() {
	op := allOps[rt.Choose("operator", len(allOps))]
	b := newB(I16, Field{"a", I8}, Field{"w", I16})
	ca := Cast(I16, V("a", I8))
	w := V("w", I16)
	var e *E
	switch rt.Choose("side", 4) {
	case 0:
		e = Text("a as i16 "+op+" w", Bin(op, ca, w))
	case 1:
		e = Text("w "+op+" a as i16", Bin(op, w, ca))
	case 2:
		e = Text("-a as i16 "+op+" w", Bin(op, Cast(I16, Un("-", V("a", I8))), w))
	case 3:
		e = Text("w "+op+" -a as i16", Bin(op, w, Cast(I16, Un("-", V("a", I8)))))
	}
	b.result(e)
	b.checkSym()
}

// H_C04_lists: the elements of calls, literals, returned lists and
// assignments are whole expressions.
func H_C04_lists() {
	o1, o2 := allOps[rt.Choose("operator", len(allOps))], allOps[rt.Choose("operator", len(allOps))]
	if level(o1) < 3 || level(o2) < 3 {
		rt.Assume(false)
	}
	b := newB(I8, params(I8, "a", "b", "c")...)
	x, y, z := V("a", I8), V("b", I8), V("c", I8)
	e1, e2 := Text("a "+o1+" b", Bin(o1, x, y)), Text("b "+o2+" c", Bin(o2, y, z))
	sub := Bin("-", V("x", I8), V("y", I8))
	g := &Fn{Name: "g", Params: params(I8, "x", "y"), Ret: I8, Body: []*S{Ret(sub)}}
	b.p.Fns = append(b.p.Fns, g)
	switch rt.Choose("place", 7) {
	case 0:
		b.add(Ret(Call(g, e1, e2)))
	case 1:
		at := Arr(2, I8)
		b.add(Decl("l", ArrLit(at, e1, e2)), Ret(Call(g, Idx(V("l", at), Lit(0, I32)), Idx(V("l", at), Lit(1, I32)))))
	case 2:
		st := Struct("S", Field{"x", I8}, Field{"y", I8})
		b.p.Types = append(b.p.Types, st)
		b.add(Decl("s", StructLit(st, []string{"x", "y"}, e1, e2)), Ret(Call(g, Fld(V("s", st), "x"), Fld(V("s", st), "y"))))
	case 3:
		h := &Fn{Name: "h", Params: params(I8, "a", "b", "c"), Ret: List(I8, I8), Body: []*S{Ret(Comma(e1, e2))}}
		b.p.Fns = append(b.p.Fns, h)
		b.add(MDecl([]string{"m", "n"}, Call(h, x, y, z)), Ret(Call(g, V("m", I8), V("n", I8))))
	case 4:
		b.add(MDecl([]string{"m", "n"}, Comma(e1, e2)), Ret(Call(g, V("m", I8), V("n", I8))))
	case 5:
		b.add(Assign(Comma(x, z), Comma(e1, e2)), Ret(Call(g, x, z)))
	case 6:
		b.add(Decl("v", e1), Assign(V("v", I8), e2), Ob(e1), Ret(V("v", I8)))
	}
	b.checkSym()
}
