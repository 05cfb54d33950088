package cg

import (
	. "github.com/gabivlj/candice/internals/verifh/lang"
	"github.com/gabivlj/candice/internals/verifh/pipe"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

const nPlaces = 8

// place makes a place of kind k that holds v.
func (b *bld) place(k int, v *E) *E {
	t := v.T
	switch k {
	case 0:
		n := b.fresh("x")
		b.add(Decl(n, v))
		return V(n, t)
	case 1:
		n := b.fresh("a")
		at := Arr(3, t)
		b.add(Decl(n, ArrLit(at, v, v, v)))
		return Idx(V(n, at), Lit(1, I32))
	case 2:
		st := b.pair(t)
		n := b.fresh("s")
		b.add(Decl(n, StructLit(st, []string{"u", "v", "w"}, Lit(1, I8), v, v)))
		return Fld(V(n, st), "v")
	case 3:
		n, q := b.fresh("x"), b.fresh("q")
		b.add(Decl(n, v), Decl(q, Addr(V(n, t))))
		return Idx(V(q, Ptr(t)), Lit(0, I32))
	case 4:
		n := b.fresh("g")
		b.p.Globals = append(b.p.Globals, DeclT(n, t, zeroOf(t)))
		b.add(Assign(V(n, t), v))
		return V(n, t)
	case 5:
		st := b.pair(t)
		n, q := b.fresh("s"), b.fresh("q")
		b.add(Decl(n, StructLit(st, []string{"u", "v", "w"}, Lit(1, I8), v, v)), Decl(q, Addr(V(n, st))))
		return Fld(V(q, Ptr(st)), "w")
	case 6:
		n := b.fresh("h")
		b.add(Decl(n, Alloc(t, Lit(2, I32))), Assign(Idx(V(n, Ptr(t)), Lit(1, I32)), v))
		return Idx(V(n, Ptr(t)), Lit(1, I32))
	case 7:
		st := b.pair(t)
		at := Arr(2, st)
		n := b.fresh("m")
		lit := StructLit(st, []string{"u", "v", "w"}, Lit(1, I8), v, v)
		b.add(Decl(n, ArrLit(at, lit, lit)))
		return Fld(Idx(V(n, at), Lit(1, I32)), "w")
	}
	panic("place")
}

// H_C18_swap: a, b = b, a (and every other permutation) reads every value
// before it writes any place.
func H_C18_swap() {
	t := []*Ty{I32, U8, F64, I1}[rt.Choose("type", 4)]
	b := newB(t, params(t, "a", "b", "c")...)
	x := b.place(rt.Choose("first", nPlaces), V("a", t))
	y := b.place(rt.Choose("second", nPlaces), V("b", t))
	perms := [][]int{{1, 0}, {0, 0}, {1, 1}, {0, 1}}
	p := perms[rt.Choose("permutation", len(perms))]
	xs := []*E{x, y}
	b.add(Assign(Comma(x, y), Comma(xs[p[0]], xs[p[1]])), Ob(x), Ob(y), Ret(x))
	b.checkSym()
}

// H_C18_swap3: three places.
func H_C18_swap3() {
	t := I32
	b := newB(t, params(t, "a", "b", "c")...)
	k := rt.Choose("places", nPlaces)
	xs := []*E{b.place(k, V("a", t)), b.place((k+3)%nPlaces, V("b", t)), b.place(0, V("c", t))}
	var r []*E
	for i := 0; i < 3; i++ {
		j := rt.Choose("from", 3)
		if rt.Choose("computed", 2) == 1 {
			r = append(r, Bin("+", xs[j], xs[(j+1)%3]))
		} else {
			r = append(r, xs[j])
		}
	}
	b.add(Assign(Comma(xs...), Comma(r...)), Ob(xs[0]), Ob(xs[1]), Ob(xs[2]), Ret(xs[0]))
	b.checkSym()
}

// H_C18_elements: swaps of elements of one array, at any two positions.
func H_C18_elements() {
	t := []*Ty{I32, U16, F32}[rt.Choose("type", 3)]
	it := []*Ty{I32, U8, I64}[rt.Choose("index type", 3)]
	b := newB(t, append(params(t, "a", "b", "c"), params(it, "i", "j")...)...)
	i, j := Bin("&", V("i", it), Lit(1, it)), Bin("&", V("j", it), Lit(1, it))
	var at *Ty
	heap := rt.Choose("heap", 2) == 1
	if heap {
		at = Ptr(t)
		b.add(Decl("m", Alloc(t, Lit(3, I32))))
		for k, n := range []string{"a", "b", "c"} {
			b.add(Assign(Idx(V("m", at), Lit(uint64(k), I32)), V(n, t)))
		}
	} else {
		at = Arr(3, t)
		b.add(Decl("m", ArrLit(at, V("a", t), V("b", t), V("c", t))))
	}
	m := V("m", at)
	switch rt.Choose("shape", 3) {
	case 0:
		b.add(Assign(Comma(Idx(m, i), Idx(m, j)), Comma(Idx(m, j), Idx(m, i))))
	case 1:
		b.add(Decl("k", i), Decl("l", j), Assign(Comma(Idx(m, V("k", it)), Idx(m, V("l", it))), Comma(Idx(m, V("l", it)), Idx(m, V("k", it)))))
	case 2:
		// the index is written as well: places are found before any store
		b.add(Decl("k", i), Assign(Comma(V("k", it), Idx(m, V("k", it))), Comma(j, V("c", t))), Ob(V("k", it)))
	}
	for k := 0; k < 3; k++ {
		b.add(Ob(Idx(m, Lit(uint64(k), I32))))
	}
	b.add(Ret(V("a", t)))
	b.checkSym()
}

// listKinds are the kinds of values in a list.
func (b *bld) listVal(k int, t *Ty, n string) (*E, func(e *E) []*S) {
	v := V(n, t)
	one := func(e *E) []*S { return []*S{Ob(e)} }
	switch k {
	case 0:
		return v, one
	case 1:
		return Cast(I8, V(n, t)), one
	case 2:
		return Cast(F64, V(n, t)), one
	case 3:
		st := b.pair(t)
		return StructLit(st, []string{"u", "v", "w"}, Lit(7, I8), v, V("a", t)), func(e *E) []*S { return []*S{Ob(Fld(e, "u")), Ob(Fld(e, "v")), Ob(Fld(e, "w"))} }
	case 4:
		return ArrLit(Arr(2, t), v, V("b", t)), func(e *E) []*S { return []*S{Ob(Idx(e, Lit(0, I32))), Ob(Idx(e, Lit(1, I32)))} }
	case 5:
		x := b.fresh("hp")
		b.add(Decl(x, Alloc(t, Lit(1, I32))), Assign(Idx(V(x, Ptr(t)), Lit(0, I32)), v))
		return V(x, Ptr(t)), func(e *E) []*S { return []*S{Ob(Deref(e))} }
	case 6:
		return Bin("==", v, V("b", t)), one
	}
	panic("list value")
}

// H_C18_returns: a function with several results returns each of them, in
// order, to whatever takes them.
func H_C18_returns() {
	t := I32
	b := newB(t, params(t, "a", "b", "c")...)
	g := &Fn{Name: "g", Params: params(t, "a", "b", "c")}
	fb := b.f
	b.f = g
	n := 2
	if rt.Tier() == 1 {
		n += rt.Choose("three", 2)
	}
	var vals []*E
	var obs []func(e *E) []*S
	for i := 0; i < n; i++ {
		v, o := b.listVal(rt.Choose("kind", 7), t, []string{"a", "b", "c"}[i])
		vals, obs = append(vals, v), append(obs, o)
	}
	list := Comma(vals...)
	how := rt.Choose("returned", 3)
	switch how {
	case 0:
		b.add(Ret(list))
	case 1:
		// one of two returns
		b.add(If(Bin("<", V("a", t), V("b", t)), []*S{Ret(list)}, nil))
		var again []*E
		for i, v := range vals {
			nm := b.fresh("l")
			b.add(Decl(nm, v))
			again = append(again, V(nm, vals[i].T))
		}
		b.add(Ret(Comma(again...)))
	case 2:
		b.add(Ret(list))
	}
	g.Ret = list.T
	b.f = fb
	if how == 2 {
		// handed on
		h := &Fn{Name: "h", Params: params(t, "a", "b", "c"), Ret: list.T}
		h.Body = []*S{Ob(V("a", t)), Ret(Call(g, V("a", t), V("b", t), V("c", t)))}
		b.p.Fns = append(b.p.Fns, g)
		g = h
	}
	call := Call(g, V("a", t), V("b", t), V("c", t))
	var names []string
	var places []*E
	for i := 0; i < n; i++ {
		names = append(names, b.fresh("r"))
		places = append(places, V(names[i], vals[i].T))
	}
	take := rt.Choose("taken by", 4)
	switch take {
	case 0:
		b.add(MDecl(names, call))
	case 1:
		b.add(MDecl(names, call), Assign(Comma(places...), Call(g, V("c", t), V("a", t), V("b", t))))
	case 2:
		b.add(MDecl(names, call))
		for i := range places {
			st := b.pair(vals[i].T)
			x := b.fresh("s")
			b.add(Decl(x, StructLit(st, []string{"u", "v", "w"}, Lit(9, I8), places[i], places[i])))
			places[i] = Fld(V(x, st), "v")
		}
		b.add(Assign(Comma(places...), Call(g, V("b", t), V("b", t), V("a", t))))
	case 3:
		// a lambda with several results
		l := &Fn{Name: "lam", Params: params(t, "a", "b", "c"), Ret: list.T, Body: []*S{Ret(Call(g, V("a", t), V("b", t), V("c", t)))}}
		b.add(Decl("lam", Lambda(l)), MDecl(names, CallV(V("lam", Lambda(l).T), V("a", t), V("b", t), V("c", t))))
	}
	for i := range places {
		b.add(obs[i](places[i])...)
	}
	// the declared variables are places of their own
	if take == 0 && places[0].T == t {
		b.add(Assign(places[0], V("c", t)), Ob(places[0]))
		b.add(obs[1](places[1])...)
	}
	b.add(Ret(V("b", t)))
	b.p.Fns = append(b.p.Fns, g)
	b.checkSym()
}

// H_C18_declare: a, b := x, y declares each name with its own value.
func H_C18_declare() {
	t := []*Ty{I32, U8, F64}[rt.Choose("type", 3)]
	b := newB(t, params(t, "a", "b", "c")...)
	x := b.place(rt.Choose("first", nPlaces), V("a", t))
	y := b.place(rt.Choose("second", 3), V("b", t))
	r, s := V("r", t), V("s", t)
	switch rt.Choose("shape", 6) {
	case 0:
		b.add(MDecl([]string{"r", "s"}, Comma(x, y)), Assign(r, V("c", t)), Ob(x), Ob(s), Assign(s, r), Ob(y), Ob(r), Ob(s))
	case 1:
		b.add(MDecl([]string{"r", "s"}, Comma(x, y)), Assign(x, V("c", t)), Ob(r), Ob(s), Ob(y))
	case 2:
		// hides outer names it reads
		b.add(Decl("r", V("c", t)), Decl("s", V("b", t)), Blk(MDecl([]string{"r", "s"}, Comma(s, r)), Ob(r), Ob(s), Assign(r, x)), Ob(r), Ob(s))
	case 3:
		b.add(MDecl([]string{"r", "s"}, Comma(Bin("+", x, y), x)), Assign(Comma(r, s), Comma(s, Bin("-", r, s))), Ob(r), Ob(s))
	case 4:
		// in a loop
		b.add(MDecl([]string{"r", "s"}, Comma(x, y)), For(Decl("i", Lit(0, I32)), Bin("<", V("i", I32), Lit(3, I32)), Ex(Un("++", V("i", I32))),
			Assign(Comma(r, s), Comma(s, Bin("+", r, s))), MDecl([]string{"k", "l"}, Comma(r, s)), Assign(V("k", t), V("l", t)), Ob(V("k", t))), Ob(r), Ob(s))
	case 5:
		// pointers to them
		b.add(MDecl([]string{"r", "s"}, Comma(x, y)), Decl("q", Addr(s)), Assign(Idx(V("q", Ptr(t)), Lit(0, I32)), V("c", t)), Ob(r), Ob(s))
	}
	b.add(Ret(r))
	b.checkSym()
}

// H_C18_order: the values of a list are computed once each, left to right.
func H_C18_order() {
	t := []*Ty{I32, U64}[rt.Choose("type", 2)]
	b := newB(t, params(t, "a", "b")...)
	b.p.Globals = append(b.p.Globals, DeclT("g", t, zeroOf(t)))
	g := V("g", t)
	tick := b.fn(&Fn{Name: "tick", Params: params(t, "x"), Ret: t, Body: []*S{Ob(V("x", t)), Assign(g, Bin("+", g, V("x", t))), Ret(g)}})
	at := Arr(3, t)
	b.add(Decl("m", ArrLit(at, zeroOf(t), zeroOf(t), zeroOf(t))), Decl("r", zeroOf(t)), Decl("s", zeroOf(t)))
	m, r, s := V("m", at), V("r", t), V("s", t)
	one := Lit(1, t)
	switch rt.Choose("shape", 6) {
	case 0:
		b.add(Assign(Comma(r, s), Comma(Call(tick, V("a", t)), Call(tick, V("b", t)))))
	case 1:
		b.add(Assign(Comma(Idx(m, Call(tick, one)), s), Comma(Call(tick, V("a", t)), g)))
	case 2:
		b.add(Assign(Comma(Idx(m, Call(tick, one)), Idx(m, Call(tick, one))), Comma(Call(tick, V("a", t)), Call(tick, V("b", t)))))
	case 3:
		b.add(Assign(Comma(r, g), Comma(Call(tick, V("a", t)), V("b", t))))
	case 4:
		b.add(Assign(Comma(r, s), Comma(Un("++", s), Bin("+", s, V("a", t)))))
	case 5:
		ls := Comma(V("x", t), Call(tick, V("x", t)))
		two := b.fn(&Fn{Name: "two", Params: params(t, "x"), Ret: ls.T, Body: []*S{Ret(ls)}})
		b.add(Assign(Comma(Idx(m, Call(tick, one)), g), Call(two, V("a", t))))
	}
	for k := 0; k < 3; k++ {
		b.add(Ob(Idx(m, Lit(uint64(k), I32))))
	}
	b.add(Ob(r), Ob(s), Ob(g), Ret(r))
	b.checkSym()
}

func verdict(src string, accept bool, what string) {
	r, _ := pipe.Front(src)
	rt.Log("src", src)
	rt.Log("stage", r.Stage)
	for _, e := range r.Errs {
		rt.Log("diagnostic", e.Error())
	}
	if accept {
		rt.Assert(r.Stage == "compiled", what+" is accepted")
	} else {
		rt.Assert(r.Stage != "compiled", what+" is rejected")
	}
	rt.Cover("end")
}

// H_C18_mismatch: the numbers and the types of the two sides have to agree.
func H_C18_mismatch() {
	typs := []string{"i32", "u8", "f64", "*i32", "S", "[2]i32"}
	vals := []string{"vi", "vu", "vf", "vp", "vs", "va"}
	n := 1 + rt.Choose("names", 3)
	m := 1 + rt.Choose("values", 3)
	// the types agree but for one position
	base := rt.Choose("types", len(typs))
	same := n == m
	var lt, rv, rtp []int
	for i := 0; i < n; i++ {
		lt = append(lt, (base+2*i)%len(typs))
	}
	for i := 0; i < m; i++ {
		rv = append(rv, (base+2*i)%len(typs))
	}
	if n == m && rt.Choose("differ", 2) == 1 {
		i := rt.Choose("at", n)
		d := 1 + rt.Choose("other type", len(typs)-1)
		rv[i] = (rv[i] + d) % len(typs)
		same = false
	}
	rtp = rv
	join := func(ids []int, of []string, sep string) string {
		s := ""
		for k, i := range ids {
			if k > 0 {
				s += sep
			}
			s += of[i]
		}
		return s
	}
	src := "struct S { x i32 }\n"
	src += "func list() " + join(rtp, typs, ", ") + " { vi := 1; vu := 1 as u8; vf := 1 as f64; vp := &vi; vs := @S{x: 1}; va := [2]i32{1, 2}; return " + join(rv, vals, ", ") + "; }\n"
	body := "vi := 1; vu := 1 as u8; vf := 1 as f64; vp := &vi; vs := @S{x: 1}; va := [2]i32{1, 2};\n"
	switch rt.Choose("statement", 4) {
	case 0:
		body += join(lt, vals, ", ") + " = " + join(rv, vals, ", ") + ";\n"
	case 1:
		body += join(lt, vals, ", ") + " = list();\n"
	case 2:
		body += "return " + join(rv, vals, ", ") + ";\n"
		src += "func g() " + join(lt, typs, ", ") + " {\n" + body + "}\n"
		body = ""
	case 3:
		body += "return list();\n"
		src += "func g() " + join(lt, typs, ", ") + " {\n" + body + "}\n"
		body = ""
	}
	src += "func main() i32 {\n" + body + "return 0; }\n"
	verdict(src, same, "a list of values")
}

// H_C18_count: a declaration takes exactly as many names as there are values.
func H_C18_count() {
	n := 2 + rt.Choose("names", 3)
	m := 1 + rt.Choose("values", 4)
	names, vals, typs := "", "", ""
	for i := 0; i < n; i++ {
		if i > 0 {
			names += ", "
		}
		names += string(rune('a' + i))
	}
	for i := 0; i < m; i++ {
		if i > 0 {
			vals, typs = vals+", ", typs+", "
		}
		vals, typs = vals+"1", typs+"i32"
	}
	src := "func list() " + typs + " { return " + vals + "; }\nfunc main() i32 {\n"
	c := []string{"", "const "}[rt.Choose("const", 2)]
	if rt.Choose("call", 2) == 1 {
		vals = "list()"
	}
	verdict(src+c+names+" := "+vals+";\nreturn 0; }\n", n == m, "a declaration of several names")
}

// H_C18_types: the values of a list have the types of their places, at every
// position.
func H_C18_types() {
	d, v := chooseType("place's type"), chooseType("value's type")
	if (d.name == "U" || d.name == "*U") && (v.name == "i32" || v.name == "f32" || v.name == "*i32") {
		return // C19
	}
	n := 1
	if rt.Tier() == 1 {
		n += rt.Choose("others", 2)
	}
	at := rt.Choose("position", n+1)
	list := func(other, one, sep string) string {
		s := ""
		for i := 0; i <= n; i++ {
			if i > 0 {
				s += sep
			}
			if i == at {
				s += one
			} else {
				s += other
			}
		}
		return s
	}
	src := typePre
	pre := "o := 1; " + v.make("v")
	switch rt.Choose("statement", 4) {
	case 0:
		src += "func g() " + list("i32", d.name, ", ") + " {\n" + pre + "return " + list("o", "v", ", ") + ";\n}\n"
	case 1:
		src += "func g() " + list("i32", v.name, ", ") + " {\n" + pre + "return " + list("o", "v", ", ") + ";\n}\n"
		src += "func h() {\n" + d.make("x") + "y := 2;\n" + list("y", "x", ", ") + " = g();\n}\n"
	case 2:
		src += "func h() {\n" + pre + d.make("x") + "y := 2;\n" + list("y", "x", ", ") + " = " + list("o", "v", ", ") + ";\n}\n"
	case 3:
		src += "func g() " + list("i32", v.name, ", ") + " {\n" + pre + "return " + list("o", "v", ", ") + ";\n}\n"
		src += "func h() " + list("i32", d.name, ", ") + " {\nreturn g();\n}\n"
	}
	judged(src+mainEnd, yes(d.name == v.name), "a list with a "+v.name+" for a "+d.name)
}
