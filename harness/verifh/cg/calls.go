package cg

import (
	. "github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// pair is a struct of two fields of type t.
func (b *bld) pair(t *Ty) *Ty {
	st := Struct(b.fresh("Pr"), Field{"u", I8}, Field{"v", t}, Field{"w", t})
	b.p.Types = append(b.p.Types, st)
	return st
}

func (b *bld) fn(f *Fn) *Fn {
	b.p.Fns = append(b.p.Fns, f)
	return f
}

// H_C17_args: every argument arrives in its parameter, parameters are the
// callee's own copies, the result arrives at the caller; functions are defined
// before or after their use.
func H_C17_args() {
	ts := []*Ty{I8, U64, F32, I1, F64}
	b := newB(I32, Field{"a", I8}, Field{"b", U64}, Field{"c", F32}, Field{"d", I1}, Field{"e", F64})
	n := 1 + rt.Choose("parameters", 3)
	g := &Fn{Name: "g"}
	var args []*E
	names := []string{"a", "b", "c", "d", "e"}
	for i := 0; i < n; i++ {
		k := rt.Choose("parameter type", 5)
		nm := []string{"p", "q", "r"}[i]
		g.Params = append(g.Params, Field{nm, ts[k]})
		args = append(args, V(names[k], ts[k]))
	}
	last := g.Params[n-1]
	g.Ret = last.T
	for _, p := range g.Params {
		g.Body = append(g.Body, Ob(V(p.Name, p.T)))
	}
	// parameters can be assigned
	g.Body = append(g.Body, Assign(V(g.Params[0].Name, g.Params[0].T), zeroOf(g.Params[0].T)), Ob(V(g.Params[0].Name, g.Params[0].T)), Ret(V(last.Name, last.T)))
	if rt.Choose("defined after", 2) == 1 {
		b.p.After = append(b.p.After, g)
	} else {
		b.fn(g)
	}
	switch rt.Choose("call", 4) {
	case 0:
		b.add(Ob(Call(g, args...)))
	case 1:
		b.add(Ex(Call(g, args...)))
	case 2:
		b.add(Decl("h", FnRef(g)), Ob(CallV(V("h", FnRef(g).T), args...)))
	case 3:
		b.add(Ob(Method(g, args...)))
	}
	for i := range ts {
		b.add(Ob(V(names[i], ts[i])))
	}
	b.add(Ret(Lit(0, I32)))
	b.checkSym()
}

// H_C17_aggregates: structs and arrays are passed and returned by value.
func H_C17_aggregates() {
	t := []*Ty{I32, U8, F64}[rt.Choose("type", 3)]
	b := newB(t, params(t, "a", "b")...)
	st := b.pair(t)
	at := Arr(2, t)
	sa := Arr(2, st)
	agg := []*Ty{st, at, sa}[rt.Choose("aggregate", 3)]
	var mk *E
	var parts func(e *E) []*E
	switch agg {
	case st:
		mk = StructLit(st, []string{"u", "v", "w"}, Lit(1, I8), V("a", t), V("b", t))
		parts = func(e *E) []*E { return []*E{Fld(e, "v"), Fld(e, "w")} }
	case at:
		mk = ArrLit(at, V("a", t), V("b", t))
		parts = func(e *E) []*E { return []*E{Idx(e, Lit(0, I32)), Idx(e, Lit(1, I32))} }
	case sa:
		one := StructLit(st, []string{"u", "v", "w"}, Lit(1, I8), V("a", t), V("b", t))
		two := StructLit(st, []string{"u", "v", "w"}, Lit(1, I8), V("b", t), V("a", t))
		mk = ArrLit(sa, one, two)
		parts = func(e *E) []*E { return []*E{Fld(Idx(e, Lit(1, I32)), "v"), Fld(Idx(e, Lit(0, I32)), "w")} }
	}
	p := V("p", agg)
	g := b.fn(&Fn{Name: "g", Params: []Field{{"p", agg}, {"z", t}}, Ret: agg})
	ps := parts(p)
	g.Body = []*S{Ob(ps[0]), Ob(ps[1]), Assign(ps[0], V("z", t)), Ob(ps[0]), Ob(ps[1]), Ret(p)}
	b.add(Decl("x", mk))
	x := V("x", agg)
	switch rt.Choose("use", 5) {
	case 0:
		b.add(Decl("y", Call(g, x, V("b", t))))
	case 1:
		b.add(Decl("y", x), Assign(V("y", agg), Call(g, V("y", agg), V("a", t))))
	case 2:
		b.add(Decl("y", Call(g, Call(g, x, V("a", t)), V("b", t))))
	case 3:
		b.add(Decl("y", Call(g, mk, V("b", t))))
	case 4:
		b.add(Decl("q", Addr(x)), Decl("y", Call(g, Deref(V("q", Ptr(agg))), V("b", t))))
	}
	for _, e := range parts(x) {
		b.add(Ob(e))
	}
	for _, e := range parts(V("y", agg)) {
		b.add(Ob(e))
	}
	// a part of the result of a call
	b.add(Ret(parts(Call(g, x, V("a", t)))[1]))
	b.checkSym()
}

// H_C17_values: function values reach the function they were made of through
// every kind of place, parameters and results.
func H_C17_values() {
	t := []*Ty{I32, F32, U8, I1}[rt.Choose("type", 4)]
	b := newB(t, append(params(t, "a", "b"), Field{"c", I1})...)
	g := b.fn(&Fn{Name: "g", Params: params(t, "x", "y"), Ret: t, Body: []*S{Ob(Lit(1, I32)), Ret(V("x", t))}})
	h := b.fn(&Fn{Name: "h", Params: params(t, "x", "y"), Ret: t, Body: []*S{Ob(Lit(2, I32)), Ret(V("y", t))}})
	ft := FnRef(g).T
	a, c := V("a", t), V("b", t)
	k := rt.Choose("place", 9)
	switch k {
	case 0:
		b.add(Decl("v", FnRef(g)), If(V("c", I1), []*S{Assign(V("v", ft), FnRef(h))}, nil), Ret(CallV(V("v", ft), a, c)))
	case 1:
		at := Arr(2, ft)
		b.add(Decl("v", ArrLit(at, FnRef(g), FnRef(h))), Ob(CallV(Idx(V("v", at), Lit(1, I32)), a, c)), Ret(CallV(Idx(V("v", at), Lit(0, I32)), a, c)))
	case 2:
		st := Struct("St", Field{"u", I8}, Field{"m", ft})
		b.p.Types = append(b.p.Types, st)
		b.add(Decl("v", StructLit(st, []string{"u", "m"}, Lit(1, I8), FnRef(h))), Ob(CallV(Fld(V("v", st), "m"), a, c)),
			Assign(Fld(V("v", st), "m"), FnRef(g)), Ret(CallV(Fld(V("v", st), "m"), a, c)))
	case 3:
		ap := b.fn(&Fn{Name: "ap", Params: []Field{{"m", ft}, {"x", t}}, Ret: t, Body: []*S{Ret(CallV(V("m", ft), V("x", t), V("x", t)))}})
		b.add(Ob(Call(ap, FnRef(h), a)), Ret(Call(ap, FnRef(g), c)))
	case 4:
		mk := b.fn(&Fn{Name: "mk", Params: params(I1, "z"), Ret: ft, Body: []*S{If(V("z", I1), []*S{Ret(FnRef(g))}, nil), Ret(FnRef(h))}})
		b.add(Decl("v", Call(mk, V("c", I1))), Ob(CallV(V("v", ft), a, c)), Ret(CallV(Call(mk, V("c", I1)), c, a)))
	case 5:
		b.add(Decl("v", FnRef(g)), Decl("q", Addr(V("v", ft))), Assign(Deref(V("q", Ptr(ft))), FnRef(h)), Ret(CallV(V("v", ft), a, c)))
	case 6:
		l := &Fn{Name: "l", Params: params(t, "x", "y"), Ret: t, Body: []*S{Ob(Lit(3, I32)), Ret(V("y", t))}}
		b.add(Decl("v", FnRef(g)), If(V("c", I1), []*S{Assign(V("v", ft), Lambda(l))}, nil), Ret(CallV(V("v", ft), a, c)))
	case 7:
		hp := b.fn(&Fn{Name: "hp", Params: params(t, "x"), Ret: ft, Body: []*S{Ret(Lambda(&Fn{Name: "l2", Params: params(t, "y", "z"), Ret: t, Cap: []string{"x"}, Body: []*S{Ob(V("y", t)), Ret(V("x", t))}}))}})
		b.add(Decl("v", Call(hp, a)), Ret(CallV(V("v", ft), c, c)))
	case 8:
		b.add(Decl("v", Alloc(ft, Lit(2, I32))), Assign(Idx(V("v", Ptr(ft)), Lit(1, I32)), FnRef(h)), Assign(Idx(V("v", Ptr(ft)), Lit(0, I32)), FnRef(g)),
			Ret(CallV(Idx(V("v", Ptr(ft)), Lit(1, I32)), a, c)))
	}
	b.checkSym()
}

// H_C17_recursion: recursive and mutually recursive functions; each call has
// its own parameters and locals.
func H_C17_recursion() {
	t := []*Ty{I32, U8, I64}[rt.Choose("type", 3)]
	b := newB(t, params(t, "n", "m")...)
	n, m := V("n", t), V("m", t)
	one := Lit(1, t)
	shape := rt.Choose("shape", 4)
	r := &Fn{Name: "r", Params: params(t, "n", "m"), Ret: t}
	b.fn(r)
	less := Bin("-", n, one)
	switch shape {
	case 0:
		r.Body = []*S{If(Bin("==", n, zeroOf(t)), []*S{Ret(m)}, nil), Decl("x", Bin("*", n, m)), Decl("y", Call(r, less, Bin("+", m, one))), Ret(Bin("+", V("x", t), V("y", t)))}
	case 1:
		r.Body = []*S{If(Bin("==", n, zeroOf(t)), []*S{Ret(m)}, []*S{Ret(Bin("+", n, Call(r, less, m)))})}
	case 2:
		s := &Fn{Name: "s", Params: params(t, "n", "m"), Ret: t}
		b.p.After = append(b.p.After, s)
		s.Body = []*S{Ob(n), If(Bin("==", n, zeroOf(t)), []*S{Ret(m)}, nil), Ret(Call(r, less, Bin("*", m, Lit(2, t))))}
		r.Body = []*S{Decl("k", m), If(Bin("==", n, zeroOf(t)), []*S{Ret(one)}, nil), Decl("y", Call(s, less, Bin("+", m, one))), Ret(Bin("^", V("y", t), V("k", t)))}
	case 3:
		// two recursive calls
		r.Body = []*S{If(Bin("<", n, Lit(2, t)), []*S{Ret(n)}, nil), Ret(Bin("+", Call(r, less, m), Call(r, Bin("-", n, Lit(2, t)), m)))}
	}
	max := uint64(4)
	if rt.Tier() == 1 {
		max = 6
	}
	b.add(If(Bin("<=", n, Lit(max, t)), []*S{If(Bin(">=", n, zeroOf(t)), []*S{Ret(Call(r, n, m))}, nil)}, nil), Ret(m))
	b.checkSym()
}

// H_C17_capture: anonymous functions see the values their variables had when
// they were made, and keep their own copies of them.
func H_C17_capture() {
	t := []*Ty{I32, U8, F64, I1}[rt.Choose("type", 4)]
	b := newB(t, append(params(t, "a", "b"), Field{"c", I1})...)
	v := V("v", t)
	kind := rt.Choose("captured", 6)
	var get *E
	var set func(e *E) *S
	var mk *S
	switch kind {
	case 0:
		mk, get, set = Decl("v", V("a", t)), v, func(e *E) *S { return Assign(v, e) }
	case 1:
		st := b.pair(t)
		s := V("v", st)
		mk, get = Decl("v", StructLit(st, []string{"u", "v", "w"}, Lit(1, I8), V("a", t), V("a", t))), Fld(s, "v")
		set = func(e *E) *S { return Assign(Fld(s, "v"), e) }
	case 2:
		at := Arr(2, t)
		s := V("v", at)
		mk, get = Decl("v", ArrLit(at, V("b", t), V("a", t))), Idx(s, Lit(1, I32))
		set = func(e *E) *S { return Assign(Idx(s, Lit(1, I32)), e) }
	case 3:
		b.add(Decl("it", V("a", t)))
		s := V("v", Ptr(t))
		mk, get = Decl("v", Addr(V("it", t))), Deref(s)
		set = func(e *E) *S { return Assign(Deref(s), e) }
	case 4:
		// a parameter
		b.f.Params = append(b.f.Params, Field{"v", t})
		mk, get, set = Ob(V("a", t)), v, func(e *E) *S { return Assign(v, e) }
	case 5:
		s := V("v", Ptr(t))
		mk, get = Decl("v", Alloc(t, Lit(2, I32))), Idx(s, Lit(1, I32))
		set = func(e *E) *S { return Assign(Idx(s, Lit(1, I32)), e) }
	}
	b.add(mk)
	if kind == 5 {
		b.add(set(V("a", t)))
	}
	l := &Fn{Name: "l", Params: params(t, "z"), Ret: t, Cap: []string{"v"}}
	lt := Func(t, t)
	call := func(e *E) *E { return CallV(V("l", lt), e) }
	switch rt.Choose("shape", 6) {
	case 0:
		// changed outside after
		l.Body = []*S{Ob(get), Ret(get)}
		b.add(Decl("l", Lambda(l)), set(V("b", t)), Ob(call(V("b", t))), Ret(get))
	case 1:
		// changed inside
		l.Body = []*S{set(V("z", t)), Ob(get), Ret(get)}
		b.add(Decl("l", Lambda(l)), Ob(call(V("b", t))), Ob(get), Ob(call(V("a", t))), Ret(get))
	case 2:
		// kept between calls
		l.Body = []*S{Decl("o", get), set(V("z", t)), Ret(V("o", t))}
		b.add(Decl("l", Lambda(l)), Ob(call(V("b", t))), Ob(call(V("a", t))), Ret(call(V("a", t))))
	case 3:
		// two functions over one variable
		l.Body = []*S{set(V("z", t)), Ret(get)}
		l2 := &Fn{Name: "l2", Params: params(t, "z"), Ret: t, Cap: []string{"v"}, Body: []*S{Ret(get)}}
		b.add(Decl("l", Lambda(l)), Decl("m", Lambda(l2)), Ob(call(V("b", t))), Ret(CallV(V("m", lt), V("b", t))))
	case 4:
		// in a branch
		l.Body = []*S{If(V("q", I1), []*S{Ret(get)}, nil), Ret(V("z", t))}
		l.Cap = []string{"v", "q"}
		b.add(Decl("q", V("c", I1)), Decl("r", V("b", t)), If(V("c", I1), []*S{Decl("l", Lambda(l)), Assign(V("r", t), call(V("b", t)))}, nil), Ret(V("r", t)))
	case 5:
		// made again in a loop
		l.Body = []*S{Ret(get)}
		b.add(For(Decl("i", Lit(0, I32)), Bin("<", V("i", I32), Lit(2, I32)), Ex(Un("++", V("i", I32))), Decl("l", Lambda(l)), Ob(call(V("a", t))), set(V("b", t))), Ret(get))
	}
	b.checkSym()
}

// H_C17_nested: anonymous functions within anonymous functions, globals in
// them, and shadowing of what they capture.
func H_C17_nested() {
	t := []*Ty{I32, F32, U64}[rt.Choose("type", 3)]
	b := newB(t, params(t, "a", "b")...)
	lt := Func(t, t)
	v, x := V("v", t), V("x", t)
	switch rt.Choose("shape", 10) {
	case 7:
		// the inner one changes its own copy
		in := &Fn{Name: "in", Params: params(t, "y"), Ret: t, Cap: []string{"v"}, Body: []*S{Assign(v, Bin("+", v, V("y", t))), Ret(v)}}
		out := &Fn{Name: "out", Params: params(t, "x"), Ret: t, Cap: []string{"v"}, Body: []*S{Decl("k", Lambda(in)), Ob(CallV(V("k", lt), x)), Ob(v), Ob(CallV(V("k", lt), x)), Ret(v)}}
		b.add(Decl("v", V("a", t)), Decl("l", Lambda(out)), Ob(CallV(V("l", lt), V("b", t))), Ob(v), Ret(CallV(V("l", lt), V("a", t))))
	case 8:
		// the outer one changes its copy before and after it makes the inner one
		in := &Fn{Name: "in", Params: params(t, "y"), Ret: t, Cap: []string{"v", "x"}, Body: []*S{Assign(x, v), Ret(x)}}
		out := &Fn{Name: "out", Params: params(t, "x"), Ret: t, Cap: []string{"v"}, Body: []*S{Assign(v, x), Decl("k", Lambda(in)), Assign(v, Bin("+", v, v)), Ob(CallV(V("k", lt), v)), Ob(x), Ret(v)}}
		b.add(Decl("v", V("a", t)), Decl("l", Lambda(out)), Ob(CallV(V("l", lt), V("b", t))), Ob(v), Ret(CallV(V("l", lt), V("a", t))))
	case 9:
		// two levels, the innermost one changes what all of them capture
		in2 := &Fn{Name: "in2", Params: params(t, "z"), Ret: t, Cap: []string{"v"}, Body: []*S{Assign(v, V("z", t)), Ret(v)}}
		in := &Fn{Name: "in", Params: params(t, "y"), Ret: t, Cap: []string{"v"}, Body: []*S{Decl("m", Lambda(in2)), Ob(CallV(V("m", lt), V("y", t))), Ret(v)}}
		out := &Fn{Name: "out", Params: params(t, "x"), Ret: t, Cap: []string{"v"}, Body: []*S{Decl("k", Lambda(in)), Ob(CallV(V("k", lt), x)), Ret(v)}}
		b.add(Decl("v", V("a", t)), Decl("l", Lambda(out)), Ob(CallV(V("l", lt), V("b", t))), Ret(v))
	case 0:
		// the inner one uses a parameter and a local of the outer one
		in := &Fn{Name: "in", Params: params(t, "y"), Ret: t, Cap: []string{"x", "w"}, Body: []*S{Ob(V("x", t)), Ob(V("w", t)), Ret(V("y", t))}}
		out := &Fn{Name: "out", Params: params(t, "x"), Ret: t, Body: []*S{Decl("w", V("x", t)), Decl("k", Lambda(in)), Ret(CallV(V("k", lt), V("x", t)))}}
		b.add(Decl("l", Lambda(out)), Ob(CallV(V("l", lt), V("b", t))), Ret(CallV(V("l", lt), V("a", t))))
	case 1:
		// the inner one uses a variable of the function around both
		in := &Fn{Name: "in", Params: params(t, "y"), Ret: t, Cap: []string{"v"}, Body: []*S{Ret(V("v", t))}}
		out := &Fn{Name: "out", Params: params(t, "x"), Ret: t, Cap: []string{"v"}, Body: []*S{Decl("k", Lambda(in)), Ret(CallV(V("k", lt), V("x", t)))}}
		b.add(Decl("v", V("a", t)), Decl("l", Lambda(out)), Assign(V("v", t), V("b", t)), Ob(V("v", t)), Ret(CallV(V("l", lt), V("b", t))))
	case 2:
		// both use it
		in := &Fn{Name: "in", Params: params(t, "y"), Ret: t, Cap: []string{"v"}, Body: []*S{Ret(V("v", t))}}
		out := &Fn{Name: "out", Params: params(t, "x"), Ret: t, Cap: []string{"v"}, Body: []*S{Ob(V("v", t)), Decl("k", Lambda(in)), Ret(CallV(V("k", lt), V("x", t)))}}
		b.add(Decl("v", V("a", t)), Decl("l", Lambda(out)), Assign(V("v", t), V("b", t)), Ret(CallV(V("l", lt), V("b", t))))
	case 3:
		// a global is shared, not captured
		b.p.Globals = append(b.p.Globals, DeclT("g", t, zeroOf(t)))
		out := &Fn{Name: "out", Params: params(t, "x"), Ret: t, Body: []*S{Assign(V("g", t), V("x", t)), Ret(V("g", t))}}
		b.add(Assign(V("g", t), V("b", t)), Decl("l", Lambda(out)), Ob(V("g", t)), Ob(CallV(V("l", lt), V("a", t))), Ret(V("g", t)))
	case 4:
		// a local of the same name inside
		out := &Fn{Name: "out", Params: params(t, "x"), Ret: t, Body: []*S{Decl("v", V("x", t)), Assign(V("v", t), V("x", t)), Ret(V("v", t))}}
		b.add(Decl("v", V("a", t)), Decl("l", Lambda(out)), Ob(CallV(V("l", lt), V("b", t))), Ret(V("v", t)))
	case 5:
		// a parameter of the same name
		out := &Fn{Name: "out", Params: params(t, "v"), Ret: t, Body: []*S{Assign(V("v", t), Bin("+", V("v", t), V("v", t))), Ret(V("v", t))}}
		b.add(Decl("v", V("a", t)), Decl("l", Lambda(out)), Ob(CallV(V("l", lt), V("b", t))), Ret(V("v", t)))
	case 6:
		// captured in an inner scope, hidden by a declaration afterwards
		out := &Fn{Name: "out", Params: params(t, "x"), Ret: t, Cap: []string{"v"}, Body: []*S{Decl("o", V("v", t)), Blk(Decl("v", V("x", t)), Ob(V("v", t))), Ob(V("v", t)), Ret(V("o", t))}}
		b.add(Decl("v", V("a", t)), Decl("l", Lambda(out)), Ob(CallV(V("l", lt), V("b", t))), Blk(Decl("v", V("b", t)), Ob(CallV(V("l", lt), V("v", t)))), Ret(V("v", t)))
	}
	b.checkSym()
}

// H_C17_method: x.f(a) calls f(x, a), whatever x is.
func H_C17_method() {
	t := []*Ty{I32, U8, F64}[rt.Choose("type", 3)]
	b := newB(t, params(t, "a", "b")...)
	st := b.pair(t)
	byPtr := rt.Choose("by pointer", 2) == 1
	self := st
	if byPtr {
		self = Ptr(st)
	}
	s := V("s", self)
	g := &Fn{Name: "g", Params: []Field{{"s", self}, {"z", t}}, Ret: t, Body: []*S{Ob(Fld(s, "v")), Assign(Fld(s, "v"), V("z", t)), Ob(Fld(s, "v")), Ret(Fld(s, "w"))}}
	if rt.Choose("defined after", 2) == 1 {
		b.p.After = append(b.p.After, g)
	} else {
		b.fn(g)
	}
	id := b.fn(&Fn{Name: "id", Params: []Field{{"s", self}, {"k", I32}}, Ret: self, Body: []*S{Ob(V("k", I32)), Ret(s)}})
	b.add(Decl("x", StructLit(st, []string{"u", "v", "w"}, Lit(1, I8), V("a", t), V("b", t))))
	x := V("x", st)
	var recv *E
	if byPtr {
		switch rt.Choose("receiver", 4) {
		case 0:
			recv = Addr(x)
		case 1:
			b.add(Decl("p", Addr(x)))
			recv = V("p", self)
		case 2:
			at := Arr(2, self)
			b.add(Decl("ar", ArrLit(at, Addr(x), Addr(x))))
			recv = Idx(V("ar", at), Lit(1, I32))
		case 3:
			b.add(Decl("p", Addr(x)))
			recv = Method(id, V("p", self), Lit(4, I32))
		}
	} else {
		switch rt.Choose("receiver", 4) {
		case 0:
			recv = x
		case 1:
			b.add(Decl("p", Addr(x)))
			recv = Deref(V("p", Ptr(st)))
		case 2:
			at := Arr(2, st)
			b.add(Decl("ar", ArrLit(at, x, x)))
			recv = Idx(V("ar", at), Lit(1, I32))
		case 3:
			recv = Method(id, x, Lit(4, I32))
		}
	}
	var arg *E
	switch rt.Choose("argument", 3) {
	case 0:
		arg = V("b", t)
	case 1:
		arg = Method(g, recv, V("a", t))
	case 2:
		arg = Call(g, recv, V("a", t))
	}
	b.add(Decl("r", Method(g, recv, arg)), Ob(V("r", t)), Ob(Fld(x, "v")), Ret(Fld(x, "w")))
	b.checkSym()
}
