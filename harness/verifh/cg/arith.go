package cg

import (
	. "github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

var intOps = []string{"+", "-", "*", "/", "%", "&", "|", "^"}
var fltOps = []string{"+", "-", "*", "/"}
var shiftOps = []string{"<<", ">>"}

func opsOf(t *Ty) []string {
	if t.IsFloat() {
		return fltOps
	}
	return intOps
}

// H_C11_binary: every arithmetic and bitwise operator on every numeric type,
// with each operand read from every kind of place, for all operand values.
func H_C11_binary() {
	t := Nums[rt.Choose("type", len(Nums))]
	ops := opsOf(t)
	op := ops[rt.Choose("op", len(ops))]
	k1, k2 := chooseForm("left form"), chooseForm("right form")
	b := newB(t, params(t, "a", "b")...)
	l := b.form(k1, V("a", t))
	r := b.form(k2, V("b", t))
	b.add(Ret(Bin(op, l, r)))
	b.checkSym()
}

// H_C11_shift: shifts of every integer type by every signed type.
func H_C11_shift() {
	t := Ints[rt.Choose("type", len(Ints))]
	at := Ints[rt.Choose("amount type", 4)]
	op := shiftOps[rt.Choose("op", 2)]
	k1, k2 := chooseForm("left form"), chooseForm("amount form")
	b := newB(t, Field{"a", t}, Field{"b", at})
	l := b.form(k1, V("a", t))
	r := b.form(k2, V("b", at))
	b.add(Ret(Bin(op, l, r)))
	b.checkSym()
}

// H_C11_literal: an operand is a literal of the type.
func H_C11_literal() {
	t := Nums[rt.Choose("type", len(Nums))]
	side := rt.Choose("literal on the right", 2) == 1
	b := newB(t, params(t, "a")...)
	var lit *E
	if t.IsFloat() {
		ls := []*E{FLit("1.5", 1.5, t), FLit("0.0", 0, t), FLit("1024.25", 1024.25, t)}
		lit = ls[rt.Choose("literal", len(ls))]
	} else {
		vs := []uint64{0, 1, 2, 7, 127}
		lit = Lit(vs[rt.Choose("literal", len(vs))], t)
	}
	ops := opsOf(t)
	if t.K == 'i' {
		ops = append(append([]string{}, ops...), shiftOps...)
	}
	op := ops[rt.Choose("op", len(ops))]
	if side {
		b.add(Ret(Bin(op, V("a", t), lit)))
	} else {
		b.add(Ret(Bin(op, lit, V("a", t))))
	}
	b.checkSym()
}

// H_C11_nested: two operators over three operands, both associations.
func H_C11_nested() {
	t := Nums[rt.Choose("type", len(Nums))]
	if t.IsFloat() {
		rt.Assume(false)
	}
	o1 := intOps[rt.Choose("op1", len(intOps))]
	o2 := intOps[rt.Choose("op2", len(intOps))]
	if rt.Tier() == 0 && t.W == 64 && (o1 == "/" || o1 == "%" || o2 == "/" || o2 == "%") {
		rt.Assume(false)
	}
	b := newB(t, params(t, "a", "b", "c")...)
	x, y, z := V("a", t), V("b", t), V("c", t)
	if rt.Choose("right nested", 2) == 0 {
		b.add(Ret(Bin(o2, Bin(o1, x, y), z)))
	} else {
		b.add(Ret(Bin(o1, x, Bin(o2, y, z))))
	}
	b.checkSym()
}

// H_C11_prefix: -, ++ and -- on every numeric type and place; the updated
// place is read again afterwards.
func H_C11_prefix() {
	t := Nums[rt.Choose("type", len(Nums))]
	op := []string{"-", "++", "--", "+"}[rt.Choose("op", 4)]
	k := chooseForm("form")
	b := newB(t, params(t, "a")...)
	pl := b.form(k, V("a", t))
	if op == "-" || op == "+" {
		b.add(Decl("r", Un(op, pl)))
	} else {
		if k == fCall || k == fBlock || k == fLambda {
			rt.Assume(false)
		}
		if rt.Choose("statement", 2) == 1 {
			b.add(Ex(Un(op, pl)))
			b.add(Decl("r", pl))
		} else {
			b.add(Decl("r", Un(op, pl)))
		}
	}
	b.add(Ob(V("r", t)))
	b.add(Ob(pl))
	if op == "++" || op == "--" {
		b.add(Ob(Un(op, pl)))
		b.add(Ob(Bin("+", Un(op, pl), pl)))
	}
	b.add(Ret(Bin("+", V("r", t), V("a", t))))
	b.checkSym()
}

// H_C11_bits: bitwise operators on i1.
func H_C11_bits() {
	op := []string{"&", "|", "^"}[rt.Choose("op", 3)]
	k1, k2 := chooseForm("left form"), chooseForm("right form")
	b := newB(I1, params(I1, "a", "b")...)
	b.add(Ret(Bin(op, b.form(k1, V("a", I1)), b.form(k2, V("b", I1)))))
	b.checkSym()
}

// observedPlace is a place of type t that holds v and whose evaluation is
// observed, and an expression that reads it back.
func (b *bld) observedPlace(k int, v *E) (*E, *E) {
	t := v.T
	pick := func(pt *Ty) *Fn {
		g := &Fn{Name: b.fresh("pick"), Params: params(pt, "z"), Ret: pt, Body: []*S{Ob(Lit(55, I32)), Ret(V("z", pt))}}
		b.p.Fns = append(b.p.Fns, g)
		return g
	}
	n := b.fresh("x")
	switch k {
	case 0:
		b.add(Decl(n, v))
		return Deref(Call(pick(Ptr(t)), Addr(V(n, t)))), V(n, t)
	case 1:
		at := Arr(2, t)
		b.add(Decl(n, ArrLit(at, v, v)))
		return Idx(V(n, at), Call(pick(I32), Lit(1, I32))), Idx(V(n, at), Lit(1, I32))
	case 2:
		st := Struct(b.fresh("St"), Field{"u", I8}, Field{"v", t})
		b.p.Types = append(b.p.Types, st)
		b.add(Decl(n, StructLit(st, []string{"u", "v"}, Lit(1, I8), v)))
		return Fld(Call(pick(Ptr(st)), Addr(V(n, st))), "v"), Fld(V(n, st), "v")
	}
	st := Struct(b.fresh("St"), Field{"u", I8}, Field{"v", t})
	b.p.Types = append(b.p.Types, st)
	b.add(Decl(n, Alloc(st, Lit(2, I32))))
	x := Fld(Idx(V(n, Ptr(st)), Lit(1, I32)), "v")
	b.add(Assign(x, v))
	return Fld(Idx(V(n, Ptr(st)), Call(pick(I64), Lit(1, I64))), "v"), x
}

// H_C11_once: ++ and -- evaluate their place once, as do reads of it.
func H_C11_once() {
	t := Nums[rt.Choose("type", len(Nums))]
	op := []string{"++", "--", "+", "-"}[rt.Choose("op", 4)]
	b := newB(t, params(t, "a")...)
	pl, rd := b.observedPlace(rt.Choose("place", 4), V("a", t))
	switch rt.Choose("use", 3) {
	case 0:
		if op == "+" || op == "-" {
			rt.Assume(false)
		}
		b.add(Ex(Un(op, pl)))
	case 1:
		b.add(Decl("r", Un(op, pl)), Ob(V("r", t)))
	case 2:
		b.add(Decl("r", Bin("*", Un(op, pl), Un(op, pl))), Ob(V("r", t)))
	}
	b.add(Ret(rd))
	b.checkSym()
}

// H_C11_order: operands are evaluated once each, from left to right.
func H_C11_order() {
	t := []*Ty{I32, U8, F64, I64}[rt.Choose("type", 4)]
	ops := []string{"+", "-", "*"}
	if t.IsInt() {
		ops = append(ops, "&", "|", "^")
	}
	b := newB(t, params(t, "a", "b", "c")...)
	o1, o2 := ops[rt.Choose("op1", len(ops))], ops[rt.Choose("op2", len(ops))]
	var e *E
	l, m, r := b.leaf("a", t, 1), b.leaf("b", t, 2), b.leaf("c", t, 3)
	if rt.Choose("right nested", 2) == 1 {
		e = Bin(o1, l, Bin(o2, m, r))
	} else {
		e = Bin(o2, Bin(o1, l, m), r)
	}
	b.add(Ret(e))
	b.checkSym()
}
