package cg

import (
	. "github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

func castAs(k int, t *Ty, e *E) *E {
	if k == 1 {
		return CastB(t, e)
	}
	return Cast(t, e)
}

// H_C13_pairs: a cast between any two numeric types, in both syntaxes, of a
// value read from every kind of place.
func H_C13_pairs() {
	from := allNums[rt.Choose("from", len(allNums))]
	to := allNums[rt.Choose("to", len(allNums))]
	if from.IsFloat() && to == I1 {
		rt.Assume(false)
	}
	k := chooseForm("form")
	syn := rt.Choose("syntax", 2)
	b := newB(to, params(from, "a")...)
	x := b.form(k, V("a", from))
	b.add(Ret(castAs(syn, to, x)))
	b.checkSym()
}

// H_C13_chain: two casts in a row, directly or through a variable.
func H_C13_chain() {
	from := allNums[rt.Choose("from", len(allNums))]
	mid := allNums[rt.Choose("middle", len(allNums))]
	to := allNums[rt.Choose("to", len(allNums))]
	if from.IsFloat() && mid == I1 || mid.IsFloat() && to == I1 {
		rt.Assume(false)
	}
	if from.IsFloat() && mid.IsFloat() && to.IsFloat() {
		rt.Assume(false)
	}
	if rt.Tier() == 0 && (from.IsFloat() || mid.IsFloat() || to.IsFloat()) && (from.W == 64 || mid.W == 64 || to.W == 64) {
		rt.Assume(false)
	}
	b := newB(to, params(from, "a")...)
	if rt.Choose("variable", 2) == 1 {
		b.add(DeclT("m", mid, Cast(mid, V("a", from))))
		b.add(Ret(Cast(to, V("m", mid))))
	} else {
		b.add(Ret(Cast(to, Cast(mid, V("a", from)))))
	}
	b.checkSym()
}

// H_C13_in: casts of and inside operations: operands cast to a common type,
// and the result of an operation cast.
func H_C13_in() {
	a := Ints[rt.Choose("left", len(Ints))]
	c := Ints[rt.Choose("right", len(Ints))]
	t := Ints[rt.Choose("common", len(Ints))]
	op := []string{"+", "*", "-", ">>"}[rt.Choose("op", 4)]
	if rt.Tier() == 0 && op == "*" && t.W == 64 {
		rt.Assume(false)
	}
	b := newB(I64, Field{"a", a}, Field{"b", c})
	r := Cast(t, V("b", c))
	if op == ">>" {
		r = Cast(I32, V("b", c))
	}
	b.add(Ret(Cast(I64, Bin(op, Cast(t, V("a", a)), r))))
	b.checkSym()
}

// H_C13_literal: a literal cast to any type has the converted value.
func H_C13_literal() {
	to := allNums[rt.Choose("to", len(allNums))]
	var e *E
	switch rt.Choose("literal", 8) {
	case 0:
		e = Raw("0", 0, I32)
	case 1:
		e = Raw("1", 1, I32)
	case 2:
		e = Raw("255", 255, I32)
	case 3:
		e = Raw("70000", 70000, I32)
	case 4:
		e = Raw("2147483647", 2147483647, I32)
	case 5:
		e = FLit("3.75", 3.75, F32)
	case 6:
		e = Raw("'A'", 65, I8)
	case 7:
		e = Un("-", Raw("5", 5, I32))
	}
	if to == I1 && e.T.IsFloat() {
		rt.Assume(false)
	}
	b := newB(to)
	switch rt.Choose("where", 3) {
	case 0:
		b.add(Ret(castAs(rt.Choose("syntax", 2), to, e)))
	case 1:
		b.add(DeclT("v", to, castAs(rt.Choose("syntax", 2), to, e)), Ret(V("v", to)))
	case 2:
		b.p.Globals = append(b.p.Globals, DeclT("g", to, Cast(to, e)))
		b.add(Ret(V("g", to)))
	}
	b.checkSym()
}

// H_C13_pointer: a pointer cast to another pointer type and back designates
// the same object, and an array cast to a pointer its first element.
func H_C13_pointer() {
	t := Nums[rt.Choose("type", len(Nums))]
	u := Nums[rt.Choose("via", len(Nums))]
	b := newB(t, params(t, "a")...)
	switch rt.Choose("kind", 3) {
	case 0:
		b.add(Decl("x", V("a", t)), Decl("p", Addr(V("x", t))), Decl("q", castAs(rt.Choose("syntax", 2), Ptr(u), V("p", Ptr(t)))),
			Decl("r", Cast(Ptr(t), V("q", Ptr(u)))), Ob(Bin("==", V("r", Ptr(t)), V("p", Ptr(t)))), Ret(Deref(V("r", Ptr(t)))))
		if u == I8 || t == I8 {
			rt.Assume(false)
		}
	case 1:
		at := Arr(3, t)
		b.add(Decl("x", ArrLit(at, zeroOf(t), V("a", t), zeroOf(t))), Decl("p", castAs(rt.Choose("syntax", 2), Ptr(t), V("x", at))),
			Assign(Idx(V("p", Ptr(t)), Lit(2, I32)), V("a", t)), Ob(Idx(V("x", at), Lit(2, I32))), Ret(Idx(V("p", Ptr(t)), Lit(1, I32))))
		if u != t {
			rt.Assume(false)
		}
	case 2:
		// through an integer
		if u != I64 && u != U64 {
			rt.Assume(false)
		}
		b.add(Decl("x", V("a", t)), Decl("p", Cast(Ptr(t), Cast(u, Addr(V("x", t))))), Assign(Deref(V("p", Ptr(t))), V("a", t)), Ret(V("x", t)))
	}
	b.checkSym()
}
