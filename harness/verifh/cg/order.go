package cg

import (
	. "github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

const nEffects = 4

// effect is an expression with the value r that stores v in the place x.
func (b *bld) effect(k int, x, v, r *E) *E {
	t := x.T
	switch k {
	case 0:
		f := b.fn(&Fn{Name: b.fresh("set"), Params: []Field{{"p", Ptr(t)}, {"v", t}, {"r", r.T}}, Ret: r.T,
			Body: []*S{Assign(Deref(V("p", Ptr(t))), V("v", t)), Ret(V("r", r.T))}})
		return Call(f, Addr(x), v, r)
	case 1:
		return BlockE(r.T, Assign(x, v), Ret(r))
	case 2:
		n := b.fresh("y")
		return BlockE(r.T, Decl(n, Addr(x)), Assign(Idx(V(n, Ptr(t)), Lit(0, I32)), v), Ret(r))
	case 3:
		f := b.fn(&Fn{Name: b.fresh("set"), Params: []Field{{"p", Ptr(t)}, {"v", t}}, Ret: Void, Body: []*S{Assign(Deref(V("p", Ptr(t))), V("v", t)), Ret(nil)}})
		return BlockE(r.T, Ex(Method(f, Addr(x), v)), Ret(r))
	}
	panic("effect")
}

// operandsInOrder makes a place, and the operands: the place, an expression
// that changes it, and the place.
func (b *bld) operandsInOrder(t *Ty) (x, e *E) {
	x = b.place(rt.Choose("place", nPlaces), V("a", t))
	e = b.effect(rt.Choose("effect", nEffects), x, V("b", t), V("c", t))
	return
}

// H_C17_order: an argument has the value it has when it is evaluated,
// whatever the arguments after it do.
func H_C17_order() {
	t := []*Ty{I32, U8, F64}[rt.Choose("type", 3)]
	b := newB(t, params(t, "a", "b", "c")...)
	x, e := b.operandsInOrder(t)
	g := b.fn(&Fn{Name: "g", Params: params(t, "x", "y", "z"), Ret: t, Body: []*S{Ob(V("x", t)), Ob(V("y", t)), Ret(V("z", t))}})
	args := []*E{x, e, x}
	var r *E
	switch rt.Choose("call", 4) {
	case 0:
		r = Call(g, args...)
	case 1:
		r = Method(g, args...)
	case 2:
		b.add(Decl("h", FnRef(g)))
		r = CallV(V("h", FnRef(g).T), args...)
	case 3:
		r = Call(g, Bin("+", x, e), x, e)
	}
	b.add(Ob(r), Ret(x))
	b.checkSym()
}

// H_C18_interfere: a value of a list is the one it has when it is evaluated,
// whatever the values after it do.
func H_C18_interfere() {
	t := []*Ty{I32, U8}[rt.Choose("type", 2)]
	b := newB(t, params(t, "a", "b", "c")...)
	switch rt.Choose("statement", 3) {
	case 0:
		x, e := b.operandsInOrder(t)
		b.add(MDecl([]string{"r", "s", "u"}, Comma(x, e, x)))
	case 1:
		x, e := b.operandsInOrder(t)
		b.add(Decl("r", zeroOf(t)), Decl("s", zeroOf(t)), Decl("u", zeroOf(t)))
		b.add(Assign(Comma(V("r", t), V("s", t), V("u", t)), Comma(x, e, x)))
	case 2:
		fb := b.f
		g := &Fn{Name: "g", Params: params(t, "a", "b", "c"), Ret: List(t, t, t)}
		b.f = g
		x, e := b.operandsInOrder(t)
		b.add(Ret(Comma(x, e, x)))
		b.f = fb
		b.fn(g)
		b.add(MDecl([]string{"r", "s", "u"}, Call(g, V("a", t), V("b", t), V("c", t))))
	}
	b.add(Ob(V("r", t)), Ob(V("s", t)), Ret(V("u", t)))
	b.checkSym()
}

// H_C18_same: places that are the same take the values in order.
func H_C18_same() {
	t := []*Ty{I32, F32, U64}[rt.Choose("type", 3)]
	b := newB(t, params(t, "a", "b", "c")...)
	x := b.place(rt.Choose("place", nPlaces), V("a", t))
	y := b.place(rt.Choose("other", 3), V("a", t))
	vs := []*E{V("b", t), V("c", t), Bin("+", x, V("c", t)), Bin("+", V("b", t), V("c", t))}
	n := 2 + rt.Choose("places", 3)
	var ps []*E
	for i := 0; i < n; i++ {
		if rt.Choose("same", 2) == 1 {
			ps = append(ps, x)
		} else {
			ps = append(ps, y)
		}
	}
	if rt.Choose("call", 2) == 1 {
		l := Comma(vs[:n]...)
		k := &Fn{Name: "k", Params: append(params(t, "b", "c"), Field{"a", t}), Ret: l.T}
		vs[2] = Bin("+", V("a", t), V("c", t))
		k.Body = []*S{Ret(Comma(vs[:n]...))}
		b.fn(k)
		b.add(Assign(Comma(ps...), Call(k, V("b", t), V("c", t), V("a", t))))
	} else {
		b.add(Assign(Comma(ps...), Comma(vs[:n]...)))
	}
	b.add(Ob(x), Ret(y))
	b.checkSym()
}

// H_C20_interfere: @print writes the value an argument has when it is
// evaluated, whatever the arguments after it do.
func H_C20_interfere() {
	t := Nums[rt.Choose("type", len(Nums))]
	b := newB(Void, params(t, "a", "b", "c")...)
	x, e := b.operandsInOrder(t)
	b.add(Print(x, e, x), Ret(nil))
	b.checkSym()
}

// H_C11_interfere: the left operand has the value from before the right one is
// evaluated.
func H_C11_interfere() {
	t := []*Ty{I32, U8, F64, I16}[rt.Choose("type", 4)]
	ops := opsOf(t)
	op := ops[rt.Choose("op", len(ops))]
	b := newB(t, params(t, "a", "b", "c")...)
	x, e := b.operandsInOrder(t)
	b.add(Ob(Bin(op, x, e)), Ret(x))
	b.checkSym()
}

// H_C12_interfere: the same for comparisons and logical operators.
func H_C12_interfere() {
	t := []*Ty{I32, U8, F64, I16}[rt.Choose("type", 4)]
	op := []string{"==", "!=", "<", ">", "<=", ">=", "&&", "||"}[rt.Choose("op", 8)]
	b := newB(t, params(t, "a", "b", "c")...)
	if t == F64 && (op == "&&" || op == "||") {
		rt.Assume(false)
	}
	x, e := b.operandsInOrder(t)
	b.add(Ob(Bin(op, x, e)), Ret(x))
	b.checkSym()
}

// H_C15_order: the elements and fields of a literal have the values from when
// they are evaluated, in the order they are written, and go where they belong.
func H_C15_order() {
	t := []*Ty{I32, U8, F64}[rt.Choose("type", 3)]
	b := newB(t, params(t, "a", "b", "c")...)
	x, e := b.operandsInOrder(t)
	var parts []*E
	if rt.Choose("literal", 2) == 0 {
		at := Arr(3, t)
		b.add(Decl("l", ArrLit(at, x, e, x)))
		parts = []*E{Idx(V("l", at), Lit(0, I32)), Idx(V("l", at), Lit(1, I32)), Idx(V("l", at), Lit(2, I32))}
	} else {
		st := Struct("Three", Field{"u", t}, Field{"v", t}, Field{"w", t})
		b.p.Types = append(b.p.Types, st)
		orders := [][]string{{"u", "v", "w"}, {"u", "w", "v"}, {"v", "u", "w"}, {"v", "w", "u"}, {"w", "u", "v"}, {"w", "v", "u"}}
		b.add(Decl("l", StructLit(st, orders[rt.Choose("order", 6)], x, e, x)))
		for _, n := range []string{"u", "v", "w"} {
			parts = append(parts, Fld(V("l", st), n))
		}
	}
	b.add(Ob(parts[0]), Ob(parts[1]), Ob(parts[2]), Ret(x))
	b.checkSym()
}
