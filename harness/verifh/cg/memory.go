package cg

import (
	. "github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// nest builds types by wrapping a leaf in arrays, structs and pointers.
type nest struct {
	b     *bld
	leaf  *Ty
	count int
}

func (n *nest) typ(depth int) *Ty {
	if depth == 0 {
		return n.leaf
	}
	switch rt.Choose("wrap", 3) {
	case 0:
		return Arr(2, n.typ(depth-1))
	case 1:
		in := n.typ(depth - 1)
		st := Struct(n.b.fresh("S"), Field{"u", I8}, Field{"v", in}, Field{"w", I16})
		n.b.p.Types = append(n.b.p.Types, st)
		return st
	}
	return Ptr(n.typ(depth - 1))
}

func (n *nest) leafVal() *E {
	n.count++
	switch n.count % 3 {
	case 0:
		return V("a", n.leaf)
	case 1:
		return V("b", n.leaf)
	}
	return V("c", n.leaf)
}

// val is an expression of type t with fresh contents.
func (n *nest) val(t *Ty) *E {
	switch t.K {
	case 'a':
		return ArrLit(t, n.val(t.E), n.val(t.E))
	case 's':
		return StructLit(t, []string{"u", "v", "w"}, Lit(3, I8), n.val(t.F[1].T), Lit(4, I16))
	case 'p':
		x := n.b.fresh("x")
		n.b.add(Decl(x, n.val(t.E)))
		return Addr(V(x, t.E))
	}
	return n.leafVal()
}

// leaves lists the expressions of the leaves of e.
func (n *nest) leaves(e *E) []*E {
	t := e.T
	switch t.K {
	case 'a':
		return append(n.leaves(Idx(e, Lit(0, I32))), n.leaves(Idx(e, Lit(1, I32)))...)
	case 's':
		return append(append([]*E{Fld(e, "u")}, n.leaves(Fld(e, "v"))...), Fld(e, "w"))
	case 'p':
		if t.E.K == 's' {
			return append(append([]*E{Fld(e, "u")}, n.leaves(Fld(e, "v"))...), Fld(e, "w"))
		}
		if t.E.K == 'a' || n.count%2 == 0 {
			return n.leaves(Deref(e))
		}
		return n.leaves(Idx(e, Lit(0, I32)))
	}
	return []*E{e}
}

func (n *nest) obAll(e *E) []*S {
	var out []*S
	for _, l := range n.leaves(e) {
		out = append(out, Ob(l))
	}
	return out
}

// innerLeaf is a leaf of the wrapped type (not padding).
func (n *nest) innerLeaf(e *E) *E {
	ls := n.leaves(e)
	var in []*E
	for _, l := range ls {
		if l.T == n.leaf && !(l.Op == "fld" && (l.S == "u" || l.S == "w")) {
			in = append(in, l)
		}
	}
	return in[rt.Choose("leaf", len(in))]
}

// subs lists the aggregate parts of e, itself first.
func (n *nest) subs(e *E) []*E {
	switch e.T.K {
	case 'a':
		return append([]*E{e}, append(n.subs(Idx(e, Lit(0, I32))), n.subs(Idx(e, Lit(1, I32)))...)...)
	case 's':
		return append([]*E{e}, n.subs(Fld(e, "v"))...)
	case 'p':
		if e.T.E.K == 's' {
			return append([]*E{e}, n.subs(Fld(e, "v"))...)
		}
		return append([]*E{e}, n.subs(Deref(e))...)
	}
	return []*E{e}
}

func newNest(depth int) (*bld, *nest, *Ty) {
	leaf := []*Ty{I32, F64, I1, U8}[rt.Choose("leaf type", 4)]
	b := newB(I32, params(leaf, "a", "b", "c")...)
	n := &nest{b: b, leaf: leaf}
	return b, n, n.typ(depth)
}

// H_C15_write: a write through a chain of indexing, field access and
// dereferences changes that leaf and no other.
func H_C15_write() {
	d := 1 + rt.Choose("depth", 4)
	b, n, t := newNest(d)
	b.add(Decl("m", n.val(t)))
	l := n.innerLeaf(V("m", t))
	b.add(Assign(l, V("c", n.leaf)))
	b.add(n.obAll(V("m", t))...)
	b.add(Ret(Lit(0, I32)))
	b.checkSym()
}

// H_C15_copy: structs and arrays are copied by assignment, declaration,
// arguments and results: writing to the copy leaves the original alone.
func H_C15_copy() {
	d := 1 + rt.Choose("depth", 3)
	b, n, t := newNest(d)
	b.add(Decl("m", n.val(t)))
	m := V("m", t)
	z := V("z", t)
	switch rt.Choose("copied by", 9) {
	case 0:
		b.add(Decl("z", m))
	case 1:
		b.add(Decl("z", n.val(t)), Assign(z, m))
	case 2:
		id := &Fn{Name: "id", Params: []Field{{"q", t}}, Ret: t, Body: []*S{Ret(V("q", t))}}
		b.p.Fns = append(b.p.Fns, id)
		b.add(Decl("z", Call(id, m)))
	case 3:
		// the callee writes to its parameter
		wr := &Fn{Name: "wr", Params: []Field{{"q", t}, {"c", n.leaf}}, Ret: Void}
		wr.Body = append([]*S{Assign(n.innerLeaf(V("q", t)), V("c", n.leaf))}, n.obAll(V("q", t))...)
		b.p.Fns = append(b.p.Fns, wr)
		b.add(Ex(Call(wr, m, V("c", n.leaf))), Decl("z", m))
	case 4:
		at := Arr(2, t)
		b.add(Decl("ar", ArrLit(at, m, m)), Decl("z", Idx(V("ar", at), Lit(1, I32))))
	case 5:
		st := Struct("W", Field{"p", I8}, Field{"q", t})
		b.p.Types = append(b.p.Types, st)
		b.add(Decl("w", StructLit(st, []string{"q", "p"}, m, Lit(1, I8))), Decl("z", Fld(V("w", st), "q")))
	case 6:
		b.add(Decl("h", Alloc(t, Lit(2, I32))), Assign(Idx(V("h", Ptr(t)), Lit(1, I32)), m), Decl("z", Idx(V("h", Ptr(t)), Lit(1, I32))))
	case 7:
		b.add(Decl("z", BlockE(t, Decl("y", m), Ret(V("y", t)))))
	case 8:
		b.add(Decl("q", Addr(m)), Decl("z", Deref(V("q", Ptr(t)))))
	}
	b.add(Assign(n.innerLeaf(z), V("c", n.leaf)))
	b.add(n.obAll(m)...)
	b.add(n.obAll(z)...)
	b.add(Ret(Lit(0, I32)))
	b.checkSym()
}

// H_C15_part: assigning one aggregate part to another copies exactly that part.
func H_C15_part() {
	d := 1 + rt.Choose("depth", 3)
	b, n, t := newNest(d)
	b.add(Decl("m", n.val(t)), Decl("k", n.val(t)))
	sm, sk := n.subs(V("m", t)), n.subs(V("k", t))
	i := rt.Choose("part", len(sm))
	var cand []*E
	for _, e := range sk {
		if e.T == sm[i].T {
			cand = append(cand, e)
		}
	}
	b.add(Assign(sm[i], cand[rt.Choose("source", len(cand))]))
	b.add(n.obAll(V("m", t))...)
	b.add(n.obAll(V("k", t))...)
	b.add(Ret(Lit(0, I32)))
	b.checkSym()
}

// H_C15_alias: a pointer to a part sees and makes the changes of that part.
func H_C15_alias() {
	d := 1 + rt.Choose("depth", 3)
	b, n, t := newNest(d)
	b.add(Decl("m", n.val(t)))
	sm := n.subs(V("m", t))
	i := rt.Choose("part", len(sm))
	pt := sm[i].T
	b.add(Decl("q", Addr(sm[i])))
	q := V("q", Ptr(pt))
	l := n.innerLeaf(Deref(q))
	switch rt.Choose("through", 4) {
	case 0:
		b.add(Assign(l, V("c", n.leaf)))
	case 1:
		// another function writes through the pointer
		wr := &Fn{Name: "wr", Params: []Field{{"q", Ptr(pt)}, {"c", n.leaf}}, Ret: Void, Body: []*S{Assign(l, V("c", n.leaf))}}
		b.p.Fns = append(b.p.Fns, wr)
		b.add(Ex(Call(wr, q, V("c", n.leaf))))
	case 2:
		// a copy of the pointer held in a struct
		st := Struct("W", Field{"p", I8}, Field{"q", Ptr(pt)})
		b.p.Types = append(b.p.Types, st)
		b.add(Decl("w", StructLit(st, []string{"p", "q"}, Lit(1, I8), q)), Assign(n.innerLeaf(Deref(Fld(V("w", st), "q"))), V("c", n.leaf)))
	case 3:
		// a pointer to the pointer
		b.add(Decl("qq", Addr(q)), Assign(n.innerLeaf(Deref(Deref(V("qq", Ptr(Ptr(pt)))))), V("c", n.leaf)))
	}
	b.add(n.obAll(V("m", t))...)
	b.add(n.obAll(Deref(q))...)
	b.add(Ret(Lit(0, I32)))
	b.checkSym()
}

// H_C15_index: an element is selected by an index of any integer type, in any
// position of a chain, for every index in range.
func H_C15_index() {
	t := []*Ty{I32, F64, U8, I1}[rt.Choose("element", 4)]
	it := Ints[rt.Choose("index type", len(Ints))]
	b := newB(t, Field{"a", t}, Field{"i", it}, Field{"j", it})
	at := Arr(5, t)
	i, j := V("i", it), V("j", it)
	z := zeroOf(t)
	switch rt.Choose("shape", 6) {
	case 0:
		b.add(Decl("ar", ArrLit(at, z, z, z, z, z)), Assign(Idx(V("ar", at), i), V("a", t)), Ret(Idx(V("ar", at), j)))
	case 1:
		aat := Arr(3, Arr(2, t))
		b.add(Decl("ar", ArrLit(aat, ArrLit(aat.E, z, z), ArrLit(aat.E, z, z), ArrLit(aat.E, z, z))), Assign(Idx(Idx(V("ar", aat), i), j), V("a", t)), Ret(Idx(Idx(V("ar", aat), Lit(2, I32)), Lit(1, I32))))
	case 2:
		p := V("p", Ptr(t))
		b.add(Decl("p", Alloc(t, Lit(5, I32))))
		for k := 0; k < 5; k++ {
			b.add(Assign(Idx(p, Lit(uint64(k), I32)), z))
		}
		b.add(Assign(Idx(p, i), V("a", t)), Ret(Idx(p, j)))
	case 3:
		// in the middle of an array
		p := V("p", Ptr(t))
		b.add(Decl("ar", ArrLit(at, z, z, z, z, z)), Decl("p", Addr(Idx(V("ar", at), Lit(2, I32)))), Assign(Idx(p, i), V("a", t)), Ret(Idx(V("ar", at), j)))
	case 4:
		// pointer arithmetic
		p := V("p", Ptr(t))
		op := []string{"+", "-"}[rt.Choose("op", 2)]
		b.add(Decl("ar", ArrLit(at, z, z, z, z, z)), Decl("p", Addr(Idx(V("ar", at), Lit(2, I32)))), Assign(Deref(Bin(op, p, i)), V("a", t)), Ret(Idx(V("ar", at), j)))
		if t == I8 {
			rt.Assume(false)
		}
	case 5:
		st := Struct("S", Field{"u", t}, Field{"v", at})
		b.p.Types = append(b.p.Types, st)
		b.add(Decl("s", StructLit(st, []string{"u", "v"}, z, ArrLit(at, z, z, z, z, z))), Decl("p", Addr(V("s", st))), Assign(Idx(Fld(V("p", Ptr(st)), "v"), i), V("a", t)), Ob(Fld(V("s", st), "u")), Ret(Idx(Fld(V("s", st), "v"), j)))
	}
	b.checkSym()
}

// H_C15_wide: large unsigned indices are not negative.
func H_C15_wide() {
	it := []*Ty{U8, I16, U16, I32, U32, U64}[rt.Choose("index type", 6)]
	t := []*Ty{U8, I16}[rt.Choose("element", 2)]
	n := 131
	at := Arr(n, t)
	b := newB(t, Field{"i", it})
	b.add(Decl("ar", ArrLit(at)), Assign(Idx(V("ar", at), Lit(127, I32)), Lit(7, t)), Assign(Idx(V("ar", at), Lit(128, I32)), Lit(9, t)), Assign(Idx(V("ar", at), Lit(129, I32)), Lit(11, t)))
	switch rt.Choose("through", 3) {
	case 0:
		b.add(Ret(Idx(V("ar", at), V("i", it))))
	case 1:
		b.add(Decl("p", Addr(Idx(V("ar", at), Lit(0, I32)))), Ret(Idx(V("p", Ptr(t)), V("i", it))))
	case 2:
		b.add(Decl("p", Addr(Idx(V("ar", at), Lit(0, I32)))), Ret(Deref(Bin("+", V("p", Ptr(t)), V("i", it)))))
	}
	i := Sym("i", it)
	rt.Assume(i.U >= 127)
	rt.Assume(i.U <= 129)
	b.check(i)
}

// H_C15_temps: parts of values that are no variables: results of calls and
// blocks, literals, casts and pointer sums, with every form of index.
func H_C15_temps() {
	t := []*Ty{I32, F64, U8, I1, Ptr(I32)}[rt.Choose("element", 5)]
	b := newB(I32, Field{"a", I32}, Field{"b", I32}, Field{"i", I32}, Field{"c", I1})
	at := Arr(3, t)
	st := Struct("S", Field{"u", I8}, Field{"v", at}, Field{"w", t})
	b.p.Types = append(b.p.Types, st)
	var x, y *E
	switch {
	case t == I32:
		x, y = V("a", I32), V("b", I32)
	case t == I1:
		x, y = V("c", I1), Bin("<", V("a", I32), V("b", I32))
	case t.K == 'p':
		b.add(Decl("ia", V("a", I32)), Decl("ib", V("b", I32)))
		x, y = Addr(V("ia", I32)), Addr(V("ib", I32))
	default:
		x, y = Cast(t, V("a", I32)), Cast(t, V("b", I32))
	}
	b.add(Decl("x", x), Decl("y", y))
	x, y = V("x", t), V("y", t)
	arr := ArrLit(at, x, y, x)
	lit := StructLit(st, []string{"u", "v", "w"}, Lit(3, I8), arr, y)
	mk := &Fn{Name: "mk", Params: params(t, "x", "y"), Ret: st, Body: []*S{Ret(lit)}}
	mka := &Fn{Name: "mka", Params: params(t, "x", "y"), Ret: at, Body: []*S{Ret(arr)}}
	idp := &Fn{Name: "idp", Params: params(Ptr(st), "p"), Ret: Ptr(st), Body: []*S{Ret(V("p", Ptr(st)))}}
	b.p.Fns = append(b.p.Fns, mk, mka, idp)
	hst := Ptr(st)
	heap := func() *E {
		b.add(Decl("h", Alloc(st, Lit(3, I32))), Assign(Idx(V("h", hst), Lit(1, I32)), lit), Assign(Idx(V("h", hst), Lit(2, I32)), lit))
		return V("h", hst)
	}
	var base *E // of type at or st
	switch rt.Choose("base", 14) {
	case 0:
		base = Call(mk, x, y)
	case 1:
		base = Call(mka, x, y)
	case 2:
		base = Fld(Call(mk, x, y), "v")
	case 3:
		base = lit
	case 4:
		base = arr
	case 5:
		base = BlockE(st, Decl("q", lit), Ret(V("q", st)))
	case 6:
		b.add(Decl("s", lit))
		base = Deref(Call(idp, Addr(V("s", st))))
	case 7:
		b.add(Decl("s", lit))
		base = Fld(Call(idp, Addr(V("s", st))), "v")
	case 8:
		base = Idx(Bin("+", heap(), Lit(1, I32)), Lit(1, I32))
	case 9:
		base = Fld(Bin("+", heap(), Lit(2, I32)), "v")
	case 10:
		base = Deref(Bin("-", Bin("+", heap(), Lit(2, I32)), Lit(1, I32)))
	case 11:
		b.add(Decl("s", lit), Decl("bp", Cast(Ptr(U64), Addr(V("s", st)))))
		base = Idx(Cast(hst, V("bp", Ptr(U64))), Lit(0, I32))
	case 13:
		// pointers to arrays
		ida := &Fn{Name: "ida", Params: params(Ptr(at), "p"), Ret: Ptr(at), Body: []*S{Ret(V("p", Ptr(at)))}}
		b.p.Fns = append(b.p.Fns, ida)
		b.add(Decl("s", arr), Decl("ps", Addr(V("s", at))))
		switch rt.Choose("pointer to array", 4) {
		case 0:
			base = Idx(Call(ida, Addr(V("s", at))), Lit(0, I32))
		case 1:
			base = Idx(Cast(Ptr(at), V("ps", Ptr(at))), Lit(0, I32))
		case 2:
			base = Deref(V("ps", Ptr(at)))
		case 3:
			base = Idx(V("ps", Ptr(at)), Lit(0, I32))
		}
	case 12:
		l := &Fn{Name: "l", Params: params(t, "x", "y"), Ret: st, Body: []*S{Ret(lit)}}
		e := Lambda(l)
		b.add(Decl("l", e))
		base = CallV(V("l", e.T), x, y)
	}
	var r *E
	if base.T == st {
		if rt.Choose("field", 2) == 1 {
			r = Fld(base, "w")
		} else {
			base = Fld(base, "v")
		}
	}
	if r == nil {
		ix := b.form(chooseForm("index form"), V("i", I32))
		r = Idx(base, ix)
	}
	if t.K == 'p' {
		r = Deref(r)
	}
	switch rt.Choose("use", 3) {
	case 0:
		b.add(Ob(r))
	case 1:
		b.add(Decl("r", r), Ob(V("r", r.T)))
	case 2:
		b.add(Ob(Bin("==", r, r)))
	}
	b.add(Ret(Lit(0, I32)))
	b.checkSym()
}
