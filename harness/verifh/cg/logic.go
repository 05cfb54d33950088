package cg

import (
	. "github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

var cmpOps = []string{"==", "!=", "<", ">", "<=", ">="}
var allNums = append([]*Ty{I1}, Nums...)

// H_C12_compare: every comparison of every numeric type, operands read from
// every kind of place, for all operand values.
func H_C12_compare() {
	t := allNums[rt.Choose("type", len(allNums))]
	op := cmpOps[rt.Choose("op", len(cmpOps))]
	k1, k2 := chooseForm("left form"), chooseForm("right form")
	b := newB(I1, params(t, "a", "b")...)
	l := b.form(k1, V("a", t))
	r := b.form(k2, V("b", t))
	b.add(Ret(Bin(op, l, r)))
	b.checkSym()
}

// leaf is a condition that observes its evaluation.
func (b *bld) leaf(name string, t *Ty, tag uint64) *E {
	g := &Fn{Name: b.fresh("leaf"), Params: params(t, "z"), Ret: t, Body: []*S{Ob(Lit(tag, I32)), Ret(V("z", t))}}
	b.p.Fns = append(b.p.Fns, g)
	return Call(g, V(name, t))
}

// logic builds a tree of && || ! == over observed leaves.
func (b *bld) logic(depth int, n *int) *E {
	k := 0
	if depth > 0 {
		k = rt.Choose("node", 6)
	}
	switch k {
	case 1:
		l := b.logic(depth-1, n)
		return Bin("&&", l, b.logic(depth-1, n))
	case 2:
		l := b.logic(depth-1, n)
		return Bin("||", l, b.logic(depth-1, n))
	case 3:
		return Un("!", b.logic(depth-1, n))
	case 4:
		l := b.logic(depth-1, n)
		return Bin("==", l, b.logic(depth-1, n))
	case 5:
		nm := b.fresh("bl")
		return BlockE(I1, Decl(nm, b.logic(depth-1, n)), Ret(V(nm, I1)))
	}
	*n++
	names := []string{"a", "b", "c", "a"}
	return b.leaf(names[(*n-1)%4], I1, uint64(*n))
}

// use places a condition in one of the contexts conditions appear in.
func (b *bld) use(ctx int, c *E) {
	switch ctx {
	case 0:
		b.add(Ret(c))
	case 1:
		b.add(If(c, []*S{Ob(Lit(100, I32)), Ret(Lit(1, I1))}, []*S{Ob(Lit(101, I32))}), Ret(Lit(0, I1)))
	case 2:
		b.add(IfChain([]*E{b.leaf("c", I1, 50), c}, [][]*S{{Ob(Lit(100, I32))}, {Ob(Lit(101, I32))}}, []*S{Ob(Lit(102, I32))}), Ret(Lit(0, I1)))
	case 3:
		b.add(Decl("n", Lit(0, I32)), While(c, Ob(Lit(100, I32)), Ex(Un("++", V("n", I32))), If(Bin("==", V("n", I32), Lit(2, I32)), []*S{Break()}, nil)), Ret(Lit(1, I1)))
	case 4:
		b.add(For(Decl("n", Lit(0, I32)), c, Ex(Un("++", V("n", I32))), Ob(V("n", I32)), If(Bin("==", V("n", I32), Lit(1, I32)), []*S{Break()}, nil)), Ret(Lit(1, I1)))
	case 5:
		b.add(Ob(c), Decl("v", c), Ret(V("v", I1)))
	case 6:
		at := Arr(2, I1)
		b.add(Decl("ar", ArrLit(at, c, Lit(0, I1))), Assign(Idx(V("ar", at), Lit(1, I32)), Bin("&&", c, V("a", I1))), Ob(Idx(V("ar", at), Lit(1, I32))), Ret(Idx(V("ar", at), Lit(0, I32))))
	}
}

// H_C12_short: && and || evaluate their right operand exactly when it decides,
// in every context a condition appears in.
func H_C12_short() {
	b := newB(I1, params(I1, "a", "b", "c")...)
	n := 0
	ctx := rt.Choose("context", 7)
	c := b.logic(2, &n)
	b.use(ctx, c)
	b.checkSym()
}

// H_C12_truth: conditions of every type: zero and null are false, everything
// else is true, under !, &&, || and as conditions.
func H_C12_truth() {
	t := append([]*Ty{Ptr(I32)}, allNums...)[rt.Choose("type", len(allNums)+1)]
	k := chooseForm("form")
	b := newB(I1, params(I1, "a", "c")...)
	var x *E
	if t.K == 'p' {
		b.add(Decl("it", Lit(7, I32)), Decl("pp", Addr(V("it", I32))), If(V("a", I1), []*S{Assign(V("pp", t), Cast(t, Lit(0, I64)))}, nil))
		if k == fGlobal {
			rt.Assume(false)
		}
		x = b.form(k, V("pp", t))
	} else {
		b.f.Params = append(b.f.Params, Field{"x", t})
		x = b.form(k, V("x", t))
	}
	use := rt.Choose("use", 9)
	if t.K == 'p' && use < 4 || use == 8 {
		// pointers are not conditions by themselves
		x = Un("!", Un("!", x))
	}
	switch use {
	case 0:
		b.add(If(x, []*S{Ret(Lit(1, I1))}, nil), Ret(Lit(0, I1)))
	case 1:
		b.add(If(V("c", I1), []*S{Ret(V("a", I1))}, nil), IfChain([]*E{V("c", I1), x}, [][]*S{{Ret(Lit(0, I1))}, {Ret(Lit(1, I1))}}, nil), Ret(Lit(0, I1)))
	case 2:
		b.add(While(x, Ret(Lit(1, I1))), Ret(Lit(0, I1)))
	case 3:
		b.add(For(Decl("n", Lit(0, I32)), x, Ex(Un("++", V("n", I32))), Ret(Lit(1, I1))), Ret(Lit(0, I1)))
	case 4:
		b.add(Ret(Un("!", x)))
	case 5:
		b.add(Ret(Bin("&&", x, x)))
	case 6:
		b.add(Ret(Bin("||", x, x)))
	case 7:
		b.add(Ret(Un("!", Un("!", x))))
	case 8:
		b.add(If(Un("!", x), []*S{Ret(Lit(1, I1))}, nil), Ret(Lit(0, I1)))
	}
	b.checkSym()
}

// H_C12_pointers: == and != of pointers to locals, elements, fields and heap,
// and the order of pointers into one array.
func H_C12_pointers() {
	t := []*Ty{I1, I8, U8, I32, U64, F64, F32}[rt.Choose("type", 7)]
	if t == I8 {
		rt.Assume(false) // *i8 compares as a string
	}
	b := newB(I1, params(I1, "c")...)
	at := Arr(3, t)
	st := Struct("Sp", Field{"u", t}, Field{"v", t})
	b.p.Types = append(b.p.Types, st)
	z := zeroOf(t)
	b.add(Decl("x", z), Decl("y", z), Decl("ar", ArrLit(at, z, z, z)), Decl("s", StructLit(st, []string{"u", "v"}, z, z)), Decl("h", Alloc(t, Lit(3, I32))))
	pl := []*E{V("x", t), V("y", t), Idx(V("ar", at), Lit(0, I32)), Idx(V("ar", at), Lit(2, I32)), Fld(V("s", st), "u"), Fld(V("s", st), "v"), Idx(V("h", Ptr(t)), Lit(1, I32)), Idx(V("h", Ptr(t)), Lit(2, I32))}
	i, j, k := rt.Choose("p", len(pl)), rt.Choose("q", len(pl)), rt.Choose("r", 3)
	op := cmpOps[rt.Choose("op", len(cmpOps))]
	b.add(Decl("p", Addr(pl[i])), Decl("q", Addr(pl[j])))
	b.add(If(V("c", I1), []*S{Assign(V("q", Ptr(t)), Addr(pl[k*3]))}, nil))
	b.add(Ret(Bin(op, V("p", Ptr(t)), V("q", Ptr(t)))))
	b.checkSym()
}
