package cg

import (
	"github.com/gabivlj/candice/internals/verifh/irx"
	. "github.com/gabivlj/candice/internals/verifh/lang"
	"github.com/gabivlj/candice/internals/verifh/pipe"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// uni is a union whose member l covers all of it.
type uni struct {
	b  *bld
	t  *Ty
	st *Ty
}

var uniMembers = []string{"l", "a", "b", "c", "f", "d", "s", "r", "n"}

func (b *bld) union() *uni {
	st := Struct("Su", Field{"x", I16}, Field{"y", U32})
	in := Union("Ni", Field{"x", U8}, Field{"y", I16})
	t := Union("Un", Field{"a", I8}, Field{"b", U16}, Field{"c", I32}, Field{"l", U64}, Field{"f", F32}, Field{"d", F64}, Field{"s", st}, Field{"r", Arr(3, I16)}, Field{"n", in})
	b.p.Types = append(b.p.Types, st, in, t)
	return &uni{b, t, st}
}

// read lists what of member m can be observed.
func (u *uni) read(e *E, m string) []*E {
	x := Fld(e, m)
	switch m {
	case "s":
		return []*E{Fld(x, "x"), Fld(x, "y")}
	case "r":
		return []*E{Idx(x, Lit(0, I32)), Idx(x, Lit(2, I32))}
	case "n":
		return []*E{Fld(x, "y")}
	}
	return []*E{x}
}

// value of member m's type, from v of type u64 and w of type i32.
func (u *uni) value(m string) *E {
	w := V("w", I32)
	switch m {
	case "l":
		return V("v", U64)
	case "a":
		return Cast(I8, w)
	case "b":
		return Cast(U16, w)
	case "c":
		return w
	case "f":
		return V("g", F32)
	case "d":
		return V("h", F64)
	case "s":
		return StructLit(u.st, []string{"x", "y"}, Cast(I16, w), Cast(U32, V("v", U64)))
	case "r":
		return ArrLit(Arr(3, I16), Cast(I16, w), Lit(3, I16), Cast(I16, V("v", U64)))
	}
	panic("member")
}

// write stores to member m, or to a part of it.
func (u *uni) write(e *E, m string) *S {
	x := Fld(e, m)
	switch m {
	case "s":
		return Assign(Fld(x, "y"), Cast(U32, V("w", I32)))
	case "r":
		return Assign(Idx(x, Lit(1, I32)), Cast(I16, V("w", I32)))
	case "n":
		return Assign(Fld(x, "y"), Cast(I16, V("w", I32)))
	}
	return Assign(x, u.value(m))
}

func newUni() (*bld, *uni) {
	b := newB(I32, Field{"v", U64}, Field{"w", I32}, Field{"g", F32}, Field{"h", F64})
	return b, b.union()
}

// uplace is a place of the union, in one of several kinds of memory.
func (u *uni) uplace(k int, init *E) (*E, []*E) {
	b, t := u.b, u.t
	switch k {
	case 0:
		n := b.fresh("x")
		b.add(DeclT(n, t, init))
		return V(n, t), nil
	case 1:
		// between other fields
		st := Struct("Wr", Field{"k", I8}, Field{"u", t}, Field{"z", I32})
		b.p.Types = append(b.p.Types, st)
		b.add(Decl("x", StructLit(st, []string{"k", "u", "z"}, Lit(5, I8), init, V("w", I32))))
		x := V("x", st)
		return Fld(x, "u"), []*E{Fld(x, "k"), Fld(x, "z")}
	case 2:
		// among other elements
		at := Arr(3, t)
		b.add(DeclT("y", t, V("v", U64)), Decl("x", ArrLit(at, V("y", t), V("y", t), V("y", t))), Assign(Idx(V("x", at), Lit(1, I32)), init))
		x := V("x", at)
		return Idx(x, Lit(1, I32)), []*E{Fld(Idx(x, Lit(0, I32)), "l"), Fld(Idx(x, Lit(2, I32)), "l")}
	case 3:
		b.p.Globals = append(b.p.Globals, DeclT("x", t, Lit(7, I32)), DeclT("y", I32, Lit(8, I32)))
		b.add(Assign(V("x", t), init))
		return V("x", t), []*E{V("y", I32)}
	case 4:
		b.add(DeclT("y", t, init), Decl("x", Addr(V("y", t))))
		return Deref(V("x", Ptr(t))), nil
	case 5:
		b.add(Decl("x", Alloc(t, Lit(3, I32))))
		x := V("x", Ptr(t))
		b.add(Assign(Idx(x, Lit(0, I32)), V("v", U64)), Assign(Idx(x, Lit(2, I32)), V("v", U64)), Assign(Idx(x, Lit(1, I32)), init))
		return Idx(x, Lit(1, I32)), []*E{Fld(Idx(x, Lit(0, I32)), "l"), Fld(Idx(x, Lit(2, I32)), "l")}
	case 6:
		mk := b.fn(&Fn{Name: "mk", Params: params(U64, "v"), Ret: t, Body: []*S{DeclT("u", t, V("v", U64)), Ret(V("u", t))}})
		b.add(Decl("x", Call(mk, V("v", U64))), Assign(V("x", t), init))
		return V("x", t), nil
	}
	panic("uplace")
}

// H_C19_members: the members share their bytes, as in C: what was stored to
// one is read from another; nothing else changes.
func H_C19_members() {
	b, u := newUni()
	k := rt.Choose("place", 7)
	e, rest := u.uplace(k, V("v", U64))
	b.add(u.write(e, uniMembers[rt.Choose("written", len(uniMembers))]))
	if rt.Tier() == 1 {
		b.add(u.write(e, uniMembers[rt.Choose("written too", len(uniMembers))]))
	}
	m := uniMembers[rt.Choose("read", len(uniMembers))]
	for _, x := range u.read(e, m) {
		b.add(Ob(x))
	}
	for _, x := range rest {
		b.add(Ob(x))
	}
	b.add(Ret(V("w", I32)))
	b.checkSym()
}

// H_C19_coerce: a value of a member's type is stored as that member, by
// declarations, assignments and struct literals.
func H_C19_coerce() {
	b, u := newUni()
	m := uniMembers[rt.Choose("member", len(uniMembers)-1)]
	val := u.value(m)
	if rt.Choose("from variable", 2) == 1 {
		b.add(Decl("val", val))
		val = V("val", val.T)
	}
	e, rest := u.uplace(rt.Choose("place", 7), val)
	for _, x := range append(u.read(e, m), rest...) {
		b.add(Ob(x))
	}
	b.add(u.write(e, "l"), Ob(Fld(e, "l")))
	for _, x := range rest {
		b.add(Ob(x))
	}
	b.add(Ret(V("w", I32)))
	b.checkSym()
}

// H_C19_copy: a union is copied whole, whatever member was stored, and the
// copy is independent.
func H_C19_copy() {
	b, u := newUni()
	t := u.t
	e, rest := u.uplace(rt.Choose("place", 7), V("v", U64))
	b.add(u.write(e, uniMembers[rt.Choose("written", len(uniMembers))]))
	y := V("cp", t)
	switch rt.Choose("copied by", 9) {
	case 0:
		b.add(Decl("cp", e))
	case 1:
		b.add(DeclT("cp", t, Lit(1, I32)), Assign(y, e))
	case 2:
		id := b.fn(&Fn{Name: "id", Params: params(t, "z"), Ret: t, Body: []*S{Ob(Fld(V("z", t), "l")), Ret(V("z", t))}})
		b.add(Decl("cp", Call(id, e)))
	case 3:
		b.add(Decl("cp", BlockE(t, Ret(e))))
	case 4:
		at := Arr(2, t)
		b.add(Decl("ar", ArrLit(at, e, e)))
		y = Idx(V("ar", at), Lit(1, I32))
	case 5:
		st := Struct("Hs", Field{"z", I8}, Field{"u", t})
		b.p.Types = append(b.p.Types, st)
		b.add(Decl("hs", StructLit(st, []string{"z", "u"}, Lit(1, I8), e)), Decl("h2", V("hs", st)))
		y = Fld(V("h2", st), "u")
	case 6:
		b.add(DeclT("cp", t, Lit(1, I32)), Decl("o", y), Assign(Comma(V("o", t), y), Comma(y, e)))
	case 7:
		b.add(MDecl([]string{"cp", "o"}, Comma(e, V("w", I32))))
	case 8:
		// as a value of a captured variable
		l := &Fn{Name: "l", Ret: t, Params: params(I32, "k"), Cap: []string{"cp"}, Body: []*S{Assign(Fld(y, "c"), V("k", I32)), Ret(y)}}
		b.add(Decl("cp", e), Decl("l", Lambda(l)), Ob(Fld(CallV(V("l", Lambda(l).T), V("w", I32)), "l")))
	}
	b.add(u.write(e, "d"), Ob(Fld(y, "l")), Ob(Fld(y, "a")), u.write(y, "b"), Ob(Fld(e, "d")), Ob(Fld(y, "b")))
	for _, x := range rest {
		b.add(Ob(x))
	}
	b.add(Ret(V("w", I32)))
	b.checkSym()
}

// H_C19_pointers: pointers to a union and to its members reach its bytes.
func H_C19_pointers() {
	b, u := newUni()
	e, rest := u.uplace(rt.Choose("place", 7), V("v", U64))
	m := []string{"a", "b", "c", "l", "f", "d"}[rt.Choose("member", 6)]
	mt := Fld(e, m).T
	switch rt.Choose("through", 4) {
	case 0:
		b.add(Decl("q", Addr(Fld(e, m))), Assign(Idx(V("q", Ptr(mt)), Lit(0, I32)), u.value(m)))
	case 1:
		q := V("q", Ptr(u.t))
		b.add(Decl("q", Addr(e)), Assign(Fld(q, m), u.value(m)))
	case 2:
		set := b.fn(&Fn{Name: "set", Params: []Field{{"q", Ptr(u.t)}, {"z", mt}}, Ret: mt, Body: []*S{Decl("o", Fld(V("q", Ptr(u.t)), m)), Assign(Fld(V("q", Ptr(u.t)), m), V("z", mt)), Ret(V("o", mt))}})
		b.add(Ob(Call(set, Addr(e), u.value(m))))
	case 3:
		b.add(Decl("q", Addr(Fld(e, m))), u.write(e, "l"), u.write(e, "s"), Ob(Deref(V("q", Ptr(mt)))))
	}
	b.add(Ob(Fld(e, "l")))
	for _, x := range rest {
		b.add(Ob(x))
	}
	b.add(Ret(V("w", I32)))
	b.checkSym()
}

// H_C19_pointees: members that are pointers or functions.
func H_C19_pointees() {
	b := newB(I32, Field{"v", I32}, Field{"w", I32})
	g := b.fn(&Fn{Name: "g", Params: params(I32, "z"), Ret: I32, Body: []*S{Ret(Bin("+", V("z", I32), V("z", I32)))}})
	ft := FnRef(g).T
	t := Union("Un", Field{"p", Ptr(I32)}, Field{"f", ft}, Field{"c", I8})
	b.p.Types = append(b.p.Types, t)
	b.add(Decl("x", V("v", I32)))
	x := V("x", I32)
	u := V("u", t)
	switch rt.Choose("shape", 5) {
	case 0:
		b.add(DeclT("u", t, Addr(x)), Assign(Idx(Fld(u, "p"), Lit(0, I32)), V("w", I32)), Ob(x))
	case 1:
		b.add(DeclT("u", t, FnRef(g)), Ob(CallV(Fld(u, "f"), x)))
	case 2:
		b.add(DeclT("u", t, Lit(1, I8)), Assign(Fld(u, "f"), FnRef(g)), Ob(CallV(Fld(u, "f"), x)), Assign(u, Addr(x)), Ob(Deref(Fld(u, "p"))))
	case 3:
		b.add(DeclT("u", t, Addr(x)), Decl("k", u), Assign(u, FnRef(g)), Ob(Deref(Fld(V("k", t), "p"))), Ob(CallV(Fld(u, "f"), V("w", I32))))
	case 4:
		st := Struct("Ho", Field{"a", I16}, Field{"u", t})
		b.p.Types = append(b.p.Types, st)
		b.add(Decl("h", StructLit(st, []string{"a", "u"}, Lit(1, I16), Addr(x))), Ob(Deref(Fld(Fld(V("h", st), "u"), "p"))), Assign(Fld(V("h", st), "u"), FnRef(g)), Ob(CallV(Fld(Fld(V("h", st), "u"), "f"), x)))
	}
	b.add(Ret(x))
	b.checkSym()
}

// H_C19_constants: globals and constants of a union type hold the member they
// are given.
func H_C19_constants() {
	b := newB(I32, Field{"v", I64}, Field{"w", I32})
	t := Union("Un", Field{"a", I8}, Field{"c", I32}, Field{"f", F32}, Field{"l", I64})
	b.p.Types = append(b.p.Types, t)
	m := []string{"a", "c", "f"}[rt.Choose("member", 3)]
	val := map[string]*E{"a": Lit(9, I8), "c": Lit(70000, I32), "f": FLit("2.5", 2.5, F32)}[m]
	u := V("u", t)
	b.p.Globals = append(b.p.Globals, DeclT("n1", I32, Lit(11, I32)))
	switch rt.Choose("kind", 3) {
	case 0:
		b.p.Globals = append(b.p.Globals, DeclT("u", t, val))
	case 1:
		b.p.Globals = append(b.p.Globals, &S{Op: "const", Name: "u", E: val, T: t, Typed: true})
	case 2:
		b.add(&S{Op: "const", Name: "u", E: val, T: t, Typed: true})
	}
	constant := b.p.Globals[len(b.p.Globals)-1].Op != "decl" || len(b.p.Globals) == 1
	b.p.Globals = append(b.p.Globals, DeclT("n2", I32, Lit(12, I32)))
	id := b.fn(&Fn{Name: "id", Params: params(t, "z"), Ret: t, Body: []*S{Ret(V("z", t))}})
	switch rt.Choose("use", 4) {
	case 0:
		b.add(Ob(Fld(u, m)))
	case 1:
		b.add(Decl("k", u), Assign(Fld(V("k", t), "l"), V("v", I64)), Ob(Fld(V("k", t), "l")), Ob(Fld(u, m)))
	case 2:
		b.add(Ob(Fld(Call(id, u), m)), Ob(Fld(u, m)))
	case 3:
		cp := []string{}
		if len(b.p.Globals) == 2 {
			cp = []string{"u"}
		}
		l := &Fn{Name: "l", Ret: val.T, Params: params(I32, "q"), Cap: cp, Body: []*S{Ob(Fld(u, m)), Ret(Fld(Call(id, u), m))}}
		b.add(Decl("l", Lambda(l)), Ob(CallV(V("l", Lambda(l).T), V("w", I32))))
	}
	if !constant {
		b.add(Assign(Fld(u, "l"), V("v", I64)), Ob(Fld(u, "l")), Ob(V("n1", I32)), Ob(V("n2", I32)), Assign(u, V("w", I32)), Ob(Fld(u, "c")))
	}
	b.add(Ret(V("w", I32)))
	b.checkSym()
}

// H_C19_types: only values of the members' types, and of the union itself,
// can be stored in it; a member doesn't take the union.
func H_C19_types() {
	typs := []string{"i8", "i32", "f64", "*i8", "S", "[2]i32", "U", "V"}
	vals := []string{"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7"}
	decls := "v0 := 1 as i8; v1 := 1; v2 := 1 as f64; v3 := &v0; v4 := @S{x: 1}; v5 := [2]i32{1, 2}; v6 : U = v1; v7 : V = v1;\n"
	pre := "struct S { x i32 }\nunion U { a i32\n b f64\n c S\n d *i32\n }\nunion V { a i32\n b u8 }\nstruct H { u U }\n"
	i := rt.Choose("value", len(typs))
	member := typs[i] == "i32" || typs[i] == "f64" || typs[i] == "S" || typs[i] == "U"
	ok := member
	stmt := ""
	switch rt.Choose("stored by", 8) {
	case 0:
		stmt = "u : U = " + vals[i] + ";"
	case 1:
		stmt = "v6 = " + vals[i] + ";"
	case 2:
		stmt = "h := @H{u: " + vals[i] + "};"
	case 3:
		stmt = "p : *U = &" + vals[i] + ";"
	case 4:
		stmt = vals[i] + " = v6;"
		ok = typs[i] == "U"
	case 5:
		stmt = "x : " + typs[i] + " = v6;"
		ok = typs[i] == "U"
	case 6:
		stmt = "x : *" + typs[i] + " = &v6;"
		ok = typs[i] == "U"
	case 7:
		stmt = "x := [1]" + typs[i] + "{" + vals[i] + "}; y : [1]U = x;"
		ok = typs[i] == "U"
	}
	src := pre + "func main() i32 {\n" + decls + stmt + "\nreturn 0; }\n"
	verdict(src, ok, "a value stored in a union")
	if ok {
		r := pipe.Compile(src)
		bad := irx.Check(r.M)
		rt.Log("reason", bad)
		rt.Assert(bad == "", "the IR is well-formed")
	}
}

// H_C19_sizes: unions of every size next to other fields and elements, stored
// to in every order, by literals, assignments and copies.
func H_C19_sizes() {
	b := newB(I32, Field{"w", I32}, Field{"v", U64})
	st := Struct("Sm", Field{"x", I8}, Field{"y", I16})
	b.p.Types = append(b.p.Types, st)
	members := [][]Field{
		{{"m", I8}},
		{{"m", I8}, {"o", I16}},
		{{"o", I16}, {"m", I8}},
		{{"m", I32}, {"o", I8}},
		{{"m", I8}, {"o", Arr(3, I8)}},
		{{"o", st}, {"m", I16}},
		{{"m", I32}, {"o", Arr(3, I32)}},
		{{"m", F32}, {"o", I16}},
		{{"m", I16}, {"o", I64}},
	}
	ms := members[rt.Choose("members", len(members))]
	t := Union("Us", ms...)
	b.p.Types = append(b.p.Types, t)
	mt := ms[0].T
	if ms[0].Name != "m" {
		mt = ms[1].T
	}
	val := Cast(mt, V("w", I32))
	nt := []*Ty{I8, I16, I64}[rt.Choose("neighbour", 3)]
	h := Struct("Ho", Field{"k", nt}, Field{"u", t}, Field{"z", nt})
	b.p.Types = append(b.p.Types, h)
	kv, zv := Cast(nt, V("v", U64)), Cast(nt, V("w", I32))
	by := map[string]*E{"k": kv, "u": val, "z": zv}
	orders := [][]string{{"k", "u", "z"}, {"k", "z", "u"}, {"u", "k", "z"}, {"u", "z", "k"}, {"z", "k", "u"}, {"z", "u", "k"}}
	o := orders[rt.Choose("order", 6)]
	lit := StructLit(h, o, by[o[0]], by[o[1]], by[o[2]])
	e := V("h", h)
	switch rt.Choose("stored by", 4) {
	case 0:
		b.add(Decl("h", lit))
	case 1:
		b.add(Decl("h", lit))
		for _, f := range o {
			b.add(Assign(Fld(e, f), by[f]))
		}
	case 2:
		b.add(DeclT("n", t, val), Decl("h", lit), Assign(Fld(e, "u"), V("n", t)))
	case 3:
		at := Arr(3, h)
		b.add(Decl("q", lit), Decl("a", ArrLit(at, V("q", h), V("q", h), V("q", h))))
		e = Idx(V("a", at), Lit(1, I32))
		b.add(Assign(Fld(Fld(e, "u"), "m"), Cast(mt, V("v", U64))))
		for i := 0; i < 3; i += 2 {
			x := Idx(V("a", at), Lit(uint64(i), I32))
			b.add(Ob(Fld(x, "k")), Ob(Fld(x, "z")), Ob(Fld(Fld(x, "u"), "m")))
		}
	}
	b.add(Ob(Fld(e, "k")), Ob(Fld(Fld(e, "u"), "m")), Ob(Fld(e, "z")), Ret(V("w", I32)))
	b.checkSym()
}
