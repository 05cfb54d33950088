package cg

import (
	"strings"

	"github.com/gabivlj/candice/internals/verifh/irx"
	"github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// count counts the events of a name.
func count(m *irx.M, name string) int {
	n := 0
	for _, e := range m.Events {
		if e.Name == name {
			n++
		}
	}
	return n
}

// allFreed asserts that every block was freed, each once.
func allFreed(m *irx.M) {
	for _, o := range m.HeapObjs() {
		rt.Assert(o.Dead, "every block is freed")
	}
}

// H_C28_elements: each element of a block is its own, before and after it grows
// or shrinks.
func H_C28_elements() {
	t := []*lang.Ty{lang.I32, lang.I8, lang.U16, lang.I64, lang.I1, lang.F64, lang.F32}[rt.Choose("type", 7)]
	lt := lang.Ints[rt.Choose("length type", len(lang.Ints))].String()
	write := []string{"p[i] = a;", "*(p + i) = a;", "q := &p[i]; *q = a;", "h.p[i] = a;", "set(p, i, a);", "k := p; k[i] = a;", "pp := &p; *(*pp + i) = a;"}[rt.Choose("write", 7)]
	if t == lang.I8 && strings.Contains(write, "p + i") {
		rt.Assume(false) // joins strings
	}
	grow := []string{"", "p = @realloc(p, 7 as LEN);", "p = @realloc(p, 4 as LEN);", "g := @realloc(p, 6 as LEN); p = g;", "h.p = @realloc(h.p, 5 as LEN); p = h.p;", "p = grow(p);"}[rt.Choose("grow", 6)]
	if lt != "i32" && (t != lang.I32 || !strings.HasPrefix(write, "p[i]")) || lt[0] == 'u' && grow != "" {
		rt.Assume(false)
	}
	src := "struct H { x i8 p *@T }\nfunc set(p *@T, i i32, v @T) { p[i] = v; }\nfunc grow(p *@T) *@T { return @realloc(p, 8); }\nfunc f(i i32, j i32, z @T, a @T, b @T) @T {\np := @alloc(@T, 4 as LEN); h := @H{p: p};\nother := @alloc(@T, 4 as LEN);\nfor k := 0; k < 4; ++k { p[k] = z; other[k] = b; }\n" +
		write + "\n" + grow + "\np[3] = b;\nr := p[j];\n@free(p); @free(other);\nreturn r; }\nfunc main() i32 { return 0; }\n"
	src = strings.ReplaceAll(strings.ReplaceAll(src, "LEN", lt), "@T", t.String())
	i, j := lang.Sym("i", lang.I32), lang.Sym("j", lang.I32)
	z, a, b := lang.Sym("z", t), lang.Sym("a", t), lang.Sym("b", t)
	rt.Assume(rt.And(i.Num() >= 0, i.Num() < 4))
	rt.Assume(rt.And(j.Num() >= 0, j.Num() < 4))
	m := machine(src, nil)
	got := runs(m, "f", lang.ToIR(i), lang.ToIR(j), lang.ToIR(z), lang.ToIR(a), lang.ToIR(b))
	jj := rt.Pick(j.Num())
	ii := rt.Pick(i.Num())
	want := z
	if ii == jj {
		want = a
	}
	if jj == 3 {
		want = b
	}
	rt.Assert(lang.Same(got, want), "an element has what was stored in it last")
	rt.Assert(count(m, "malloc") == 2 && count(m, "free") == 2, "two blocks are allocated and freed")
	allFreed(m)
	rt.Cover("end")
}

type structure struct {
	src  string
	want func(n, a, b int32) int32
	// blocks counts what's allocated
	blocks func(n int) int
}

var structures = []structure{
	{"struct N { v i32 next *N }\nfunc t(n i32, a i32, b i32) i32 { top := 0 as *N; for i := 0; i < n; ++i { e := @alloc(N, 1); e.v = a + i; e.next = top; top = e; } s := b; p := top; for p != (0 as *N) { s = s * 3 + p.v; q := p.next; @free(p); p = q; } return s; }\n",
		func(n, a, b int32) int32 {
			for i := n - 1; i >= 0; i-- {
				b = b*3 + a + i
			}
			return b
		}, func(n int) int { return n }},
	{"struct V { data *i32 len i32 cap i32 }\nfunc push(v *V, x i32) { if v.len == v.cap { v.cap = v.cap * 2; v.data = @realloc(v.data, v.cap); } v.data[v.len] = x; v.len = v.len + 1; }\nfunc t(n i32, a i32, b i32) i32 { v := @V{data: @alloc(i32, 1), len: 0, cap: 1}; for i := 0; i < n; ++i { (&v).push(a + i * b); } s := v.cap; for i := 0; i < v.len; ++i { s = s * 3 + v.data[i]; } @free(v.data); return s; }\n",
		func(n, a, b int32) int32 {
			c := int32(1)
			for c < n {
				c *= 2
			}
			for i := int32(0); i < n; i++ {
				c = c*3 + a + i*b
			}
			return c
		}, func(n int) int { return 1 }},
	{"func t(n i32, a i32, b i32) i32 { m := @alloc(*i32, n); for i := 0; i < n; ++i { m[i] = @alloc(i32, n); for j := 0; j < n; ++j { m[i][j] = a + i * 10 + j; } } s := b; for i := 0; i < n; ++i { for j := 0; j < n; ++j { s = s * 3 + m[j][i]; } } for i := 0; i < n; ++i { @free(*(m + i) + 0); } @free(m); return s; }\n",
		nil, nil},
	{"func t(n i32, a i32, b i32) i32 { x := @alloc(i32, 2); y := @alloc(i32, 2); x[0] = a; x[1] = n; y[0] = b; y[1] = 5; for i := 0; i < n; ++i { x, y = y, x; x[1] = x[1] + 1; } r := x[0] * 7 + y[0] * 5 + x[1] * 3 + y[1]; @free(y); @free(x); return r; }\n",
		func(n, a, b int32) int32 {
			x, y := []int32{a, n}, []int32{b, 5}
			for i := int32(0); i < n; i++ {
				x, y = y, x
				x[1]++
			}
			return x[0]*7 + y[0]*5 + x[1]*3 + y[1]
		}, func(int) int { return 2 }},
	{"struct P { x i32 l [3]i32 y i32 }\nfunc t(n i32, a i32, b i32) i32 { p := @alloc(P, 2); *p = @P{x: a, l: [3]i32{a + 1, a + 2, a + 3}, y: b}; p[1] = *p; q := &p[1]; q.l[2] = n; q.x = b; r := p.x * 3 + p.l[2] * 5 + p[1].x * 7 + p[1].l[2] * 11 + p[1].l[1] * 13 + q.y; p = @realloc(p, 1); r = r + p.y; @free(p); return r; }\n",
		func(n, a, b int32) int32 { return a*3 + (a+3)*5 + b*7 + n*11 + (a+2)*13 + b + b }, func(int) int { return 1 }},
	{"func add(x i32) i32 { return x + 3; }\nfunc mul(x i32) i32 { return x * 3; }\nfunc t(n i32, a i32, b i32) i32 { f := @alloc(func(i32) i32, 3); f[0] = add; f[1] = mul; f[2] = func(x i32) i32 { return x - b; }; s := a; for i := 0; i < n; ++i { s = f[i % 3](s); } @free(f); return s; }\n",
		func(n, a, b int32) int32 {
			for i := int32(0); i < n; i++ {
				switch i % 3 {
				case 0:
					a += 3
				case 1:
					a *= 3
				default:
					a -= b
				}
			}
			return a
		}, func(int) int { return 1 }},
	{"union U { x i32 y i64 }\nfunc t(n i32, a i32, b i32) i32 { u := @alloc(U, 3); u[0] = a; u[1] = b as i64; u[2] = n; u[2].x = u[2].x + 1; u[0].x = u[0].x + u[2].x; r := u[0].x * 3 + (u[1].y as i32); @free(u); return r; }\n",
		func(n, a, b int32) int32 { return (a+n+1)*3 + b }, func(int) int { return 1 }},
	{"func make(n i32, a i32) *i32 { p := @alloc(i32, n + 1); for i := 0; i <= n; ++i { p[i] = a + i; } return p; }\nfunc t(n i32, a i32, b i32) i32 { p := make(n, a); g := func(i i32) i32 { p[i] = p[i] + b; return p[i]; }; r := g(n) * 3 + p[n] + p[0]; @free(p); return r; }\n",
		func(n, a, b int32) int32 {
			x := a + n + b
			if n == 0 {
				return x*3 + x + x
			}
			return x*3 + x + a
		}, func(int) int { return 1 }},
	{"struct T { v i32 l *T r *T }\nfunc leaf(v i32) *T { t := @alloc(T, 1); *t = @T{v: v, l: 0 as *T, r: 0 as *T}; return t; }\nfunc put(t *T, v i32) { if v < t.v { if t.l == (0 as *T) { t.l = leaf(v); } else { t.l.put(v); } } else { if t.r == (0 as *T) { t.r = leaf(v); } else { t.r.put(v); } } }\nfunc walk(t *T, s i32) i32 { if t == (0 as *T) { return s; } s = walk(t.l, s); s = s * 3 + t.v; s = walk(t.r, s); @free(t); return s; }\nfunc t(n i32, a i32, b i32) i32 { x := leaf(a); x.put(b); x.put(n); return x.walk(1); }\n",
		func(n, a, b int32) int32 {
			if a > b {
				a, b = b, a
			}
			if b > n {
				b, n = n, b
			}
			if a > b {
				a, b = b, a
			}
			return ((3+a)*3+b)*3 + n
		}, func(int) int { return 3 }},
	{"func t(n i32, a i32, b i32) i32 { s := @alloc(i8, n + 1); for i := 0; i < n; ++i { s[i] = 'a' + (i as i8); } s[n] = 0 as i8; w := s + \"!\"; r := a; if w == \"ab!\" { r = b; } @free(s); return r + (w[n] as i32); }\n",
		func(n, a, b int32) int32 {
			if n == 2 {
				a = b
			}
			return a + '!'
		}, nil},
	{"func t(n i32, a i32, b i32) i32 { p := @alloc(i32, 1); *p = a; r := *p; @free(p); p = @alloc(i32, 2); p[1] = b; r = r * 3 + p[1]; @free(p); for i := 0; i < n; ++i { p = @alloc(i32, 3); p[2] = i; r = r * 3 + p[2]; @free(p); if i == 2 { q := @alloc(i32, 1); @free(q); } } return r; }\n",
		func(n, a, b int32) int32 {
			a = a*3 + b
			for i := int32(0); i < n; i++ {
				a = a*3 + i
			}
			return a
		}, func(n int) int {
			if n > 2 {
				return n + 3
			}
			return n + 2
		}},
	{"struct R { p *i32 n i32 }\nfunc split(n i32, a i32) R, R { x := @R{p: @alloc(i32, 1), n: n}; *x.p = a; y := @R{p: @alloc(i32, 2), n: a}; y.p[1] = n; return x, y; }\nfunc t(n i32, a i32, b i32) i32 { x, y := split(n, a); x, y = y, x; r := x.p[1] * 3 + *y.p * 5 + x.n * 7 + y.n * b; @free(x.p); @free(y.p); return r; }\n",
		func(n, a, b int32) int32 { return n*3 + a*5 + a*7 + n*b }, func(int) int { return 2 }},
}

// H_C28_structure: structures made of blocks.
func H_C28_structure() {
	rt.NoMerge(true)
	s := structures[rt.Choose("structure", len(structures))]
	n := rt.Choose("n", 5)
	place := rt.Choose("place", 2)
	if s.want == nil && n > 3 {
		rt.Assume(false)
	}
	src := s.src + "func main() i32 { return 0; }\n"
	name := "t"
	if place == 1 { // in a file of its own, for a type
		files("t.cd", s.src)
		src = "import m, \"t.cd\";\nfunc run(n i32, a i32, b i32) i32 { return m.t(n, a, b); }\nfunc main() i32 { return 0; }\n"
		name = "run"
	}
	a, b := lang.Sym("a", lang.I32), lang.Sym("b", lang.I32)
	m := machine(src, nil)
	got := runs(m, name, irx.IntV(32, uint64(n)), lang.ToIR(a), lang.ToIR(b))
	var want int32
	av, bv := int32(a.Num()), int32(b.Num())
	if s.want != nil {
		want = s.want(int32(n), av, bv)
	} else {
		want = bv
		for i := int32(0); i < int32(n); i++ {
			for j := int32(0); j < int32(n); j++ {
				want = want*3 + av + j*10 + i
			}
		}
	}
	rt.Assert(int32(got.Signed()) == want, "the structure holds what was put in it")
	if s.blocks != nil {
		rt.Assert(count(m, "malloc") == s.blocks(n) && count(m, "free") == s.blocks(n), "blocks are allocated and freed as often as the program says")
		allFreed(m)
	}
	rt.Cover("end")
}

// H_C28_once: the arguments are evaluated once, in order, wherever the builtin is.
func H_C28_once() {
	what := rt.Choose("builtin", 4)
	e, want := "", ""
	switch what {
	case 0:
		e, want = "@alloc(i32, two(7))", "7"
	case 1:
		e, want = "@realloc(get(1), two(8))", "18"
	case 2:
		e, want = "@realloc(@alloc(i32, two(3)), two(4))", "34"
	case 3:
		e, want = "@realloc(@realloc(@alloc(i32, two(3)), two(4)), two(5))", "345"
	}
	body := []string{
		"p := #; *p = 4; r = *p;", "p : *i32 = #; p[1] = 4; r = p[1];", "p := 0 as *i32; p = #; *p = 4; r = *p;", "r = use(#);", "r = # .use();", "r = usetwo(3, #);", "s := @S{p: #}; r = use(s.p);", "l := [2]*i32{#}; r = use(l[0]);", "s := @S{}; s.p = #; *s.p = 4; r = *s.p;",
		"p := (# + 1) - 1; r = use(p);", "r = use(@cast(*i32, #));", "r = use(# as *i32);", "if # != (0 as *i32) { r = 4; }", "p, q := #, 1; r = use(p);", "p := make(); r = use(p);", "p := : *i32 { return #; }; r = use(p);", "f := func() *i32 { return #; }; r = use(f());",
		"p := &#[0]; r = use(p);", "for p := #; r == 0; { r = use(p); }", "{ p := #; *p = 4; r = *p; }", "switch 1 { case 1 { r = use(#); } }", "u : U = #; r = use(u.p);",
	}
	i := rt.Choose("place", len(body))
	text := strings.ReplaceAll(body[i], "#", e)
	src := "extern func note(i32);\nstruct S { n i32 p *i32 }\nunion U { p *i32 n i64 }\nfunc two(n i32) i32 { note(n); return 2; }\nfunc get(n i32) *i32 { note(n); return @alloc(i32, 1); }\nfunc use(p *i32) i32 { *p = 4; p[1] = 5; return *p; }\nfunc usetwo(n i32, p *i32) i32 { return use(p); }\nfunc make() *i32 { return " + e + "; }\nfunc t() i32 {\nr := 0;\n" + text + "\nreturn r; }\nfunc main() i32 { return 0; }\n"
	m := machine(src, nil)
	got := runs(m, "t")
	rt.Assert(got.Signed() == 4, "the block is the one that was allocated")
	notes := ""
	for _, ev := range m.Events {
		if ev.Name == "note" {
			notes += string([]byte{byte('0' + ev.Args[0].U)})
		}
	}
	rt.Log("notes", notes)
	rt.Assert(notes == want, "the arguments are evaluated once, in order")
	rt.Assert(count(m, "malloc")+count(m, "realloc") == len([]string{"1", "12", "12", "123"}[what]), "there is an allocation for each one that is written")
	rt.Cover("end")
}

// H_C28_free: exactly the block that is pointed to is freed, when the statement is reached.
func H_C28_free() {
	e := []string{"p", "s.p", "l[1]", "get(p)", "@cast(*i8, p)", "p + 1 - 1", "*pp", "g", "q.s.p", "f(p)", "p as *i8", "(p)", "u.p", "&p[0]", "a.get()", "next()"}[rt.Choose("pointer", 16)]
	k := rt.Choose("place", 9)
	body := []string{"@free(#);", "if x == 1 { @free(#); }", "if x != 1 { } else { @free(#); }", "for i := 0; i < 1; ++i { @free(#); }", "switch x { case 1 { @free(#); } case 2 { note(2); } }", "{ { @free(#); } }", "if x == 1 && yes() { @free(#); }",
		"for i := 0; i < 3; ++i { if i == x { @free(#); break; } }", "for i := 0; i < 3; ++i { if i != x { continue; } @free(#); }"}[k]
	body = strings.ReplaceAll(body, "#", e)
	src := "extern func note(i32);\nstruct S { n i8 p *i32 }\nstruct Q { s S }\nunion U { p *i32 n i64 }\nstruct A { p *i32 }\nfunc get(p *i32) *i32 { note(1); return p; }\nfunc yes() i1 { return 1 as i1; }\nfunc t(x i32) i32 {\np := @alloc(i32, 2); a := @alloc(i32, 3); b := @alloc(i8, 1);\np[0] = 5; a[2] = x;\ns := @S{p: p}; l := [2]*i32{a, p}; pp := &p; g := p; q := @Q{s: s}; u : U = p; f := func(z *i32) *i32 { return z; }; next := func() *i32 { return p; };\n" +
		body + "\nr := a[2]; @free(a); @free(b);\nreturn r; }\nfunc main() i32 { return 0; }\n"
	want := uint64(8)
	if e == "a.get()" {
		// frees a: p stays
		src = strings.Replace(src, "@free(a);", "@free(p);", 1)
		src = strings.Replace(src, "r := a[2];", "r := x;", 1)
		want = 12
	}
	x := lang.Sym("x", lang.I32)
	m := machine(src, nil)
	hit := rt.Or(k == 0, rt.Or(k == 3, rt.Or(k == 5, x.Num() == 1)))
	if k >= 7 {
		hit = rt.And(x.Num() >= 0, x.Num() < 3)
	}
	got := runs(m, "t", lang.ToIR(x))
	rt.Assert(got.Signed() == x.Num(), "other blocks stay")
	frees := 0
	for _, ev := range m.Events {
		if ev.Name == "free" {
			if frees == 0 && count(m, "free") == 3 {
				rt.Assert(uint64(len(ev.Args[0].P.O.S)) == want, "the block that is pointed to is freed")
			}
			frees++
		}
	}
	rt.Assert(hit == (frees == 3), "the block is freed exactly if the statement is reached")
	rt.Assert(frees == 2 || frees == 3, "the other blocks are freed once")
	rt.Cover("end")
}

// H_C28_types: a block of T is a *T, and nothing else.
func H_C28_types() {
	s, d := chooseType("source"), chooseType("destination")
	e := []string{"@alloc(S, 2)", "@realloc(@alloc(S, 1), 2)", "@realloc(y, 2)"}[rt.Choose("expression", 3)]
	src := "func t() i32 { y := @alloc(S, 1); x : *D = @E; return 0; }\n"
	src = strings.ReplaceAll(strings.ReplaceAll(src, "@E", e), "*D", "*"+d.name)
	src = strings.ReplaceAll(src, "(S,", "("+s.name+",")
	want := yes(s.name == d.name)
	if d.name == "U" && (s.name == "i32" || s.name == "f32") || d.name == "*U" && s.name == "*i32" {
		want = either // C19
	}
	judged(typePre+src+mainEnd, want, "a block")
}
