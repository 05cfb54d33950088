package cg

import (
	"strings"

	rt "github.com/gabivlj/candice/internals/verifrt"
)

// files writes the files of a program: main is the rest of its text.
func files(fs ...string) {
	for i := 0; i < len(fs); i += 2 {
		rt.Log("file", fs[i]+": "+fs[i+1])
		rt.WriteFile(fs[i], fs[i+1])
	}
}

// module judges a program of several files.
func module(src string, ok bool, out int64, what string) {
	stage, got := resultOf(src)
	if !ok {
		rt.Assert(stage != "compiled", what+" is rejected")
	} else {
		rt.Assert(stage == "compiled", what+" is accepted")
		rt.Assert(got == out, what+" is the one of its module")
	}
	rt.Cover("end")
}

// H_C22_member: module.name is what the module's file declares under the name,
// whatever else has the same name.
func H_C22_member() {
	a, b := letter("first"), letter("second")
	u := letter("use")
	m := letter("module")
	l := letter("local")
	files("a.cd", "func "+a+"() i32 { return 1; }\nfunc "+b+"() i32 { return 2; }\n")
	ok := a != b && (u == a || u == b)
	out := int64(2)
	if u == a {
		out = 1
	}
	src := "import " + m + ", \"a.cd\";\n"
	switch rt.Choose("also", 5) {
	case 0:
		src += "func main() i32 { return " + m + "." + u + "(); }\n"
	case 1:
		// a function here
		if l == m {
			return
		}
		src += "func " + l + "() i32 { return 30; }\nfunc main() i32 { return " + m + "." + u + "() + " + l + "(); }\n"
		out += 30
	case 2:
		// a variable here
		if l == m {
			return
		}
		src += "func main() i32 { " + l + " := 40; return " + m + "." + u + "() + " + l + "; }\n"
		out += 40
	case 3:
		// a field here
		src += "struct S { " + l + " i32 }\nfunc main() i32 { s := @S{" + l + ": 50}; return " + m + "." + u + "() + s." + l + "; }\n"
		if m == "s" {
			return
		}
		out += 50
	case 4:
		// the module is used in a parameter and in a block
		src += "func g(p i32) i32 { return p; }\nfunc main() i32 { x := g(" + m + "." + u + "()); if x == " + m + "." + u + "() { x = x + g(" + m + "." + u + "()); } return x; }\n"
		if m == "x" || m == "g" || m == "p" {
			return
		}
		out += out
	}
	module(src, ok, out, "a member")
}

// H_C22_same: what two files declare under the same name are different things.
func H_C22_same() {
	n := letter("name")
	k := letter("other name")
	f := func(i string) string {
		return "struct S { " + n + " i32 }\ntype T = i" + []string{"", "8", "16", "32", "64"}[int(i[0]-'0')] + ";\n" +
			n + "v := " + i + ";\nconst c := " + i + "0;\nfunc f" + n + "() i32 { " + n + "v = " + n + "v + " + i + "; return " + n + "v; }\n" +
			"func make() S { return @S{" + n + ": " + i + "}; }\nfunc get(s *S) i32 { return s." + n + " * " + i + "; }\nfunc size() i32 { return @sizeof(T); }\n"
	}
	files("a.cd", f("1"), "b.cd", f("2"))
	src := "import a2, \"a.cd\";\nimport b2, \"b.cd\";\n" + f("3")
	ok := n == k
	out := int64(0)
	body := ""
	switch rt.Choose("use", 10) {
	case 0:
		body = "return f" + k + "() * 100 + a2.f" + k + "() * 10 + b2.f" + k + "();"
		out = 624
	case 1:
		body = "f" + k + "(); a2.f" + k + "(); a2.f" + k + "(); return " + k + "v * 100 + a2." + k + "v * 10 + b2." + k + "v;"
		out = 632
	case 2:
		body = "s := make(); t := a2.make(); r := b2.make(); return get(&s) * 100 + a2.get(&t) * 10 + b2.get(&r);"
		ok = true
		out = 914
	case 3:
		body = "s := make(); t := a2.make(); r := b2.make(); return (&s).get() * 100 + (&t).get() * 10 + (&r).get();"
		ok = true
		out = 914
	case 4:
		body = "return size() * 100 + a2.size() * 10 + b2.size();"
		ok = true
		out = 412
	case 5:
		body = "s := @S{" + k + ": 7}; t : a2.S = a2.make(); r := @b2.S{" + k + ": 6}; s." + k + " = s." + k + " + t." + k + "; return s." + k + " * 10 + r." + k + ";"
		out = 86
	case 6:
		body = "return c + a2.c + b2.c;"
		ok = true
		out = 60
	case 7:
		body = "a2." + k + "v = 5; " + k + "v = 4; return " + k + "v * 100 + a2." + k + "v * 10 + b2.f" + k + "();"
		out = 454
	case 8:
		// the structs are different types
		body = "s := make(); " + []string{"s = a2.make();", "return a2.get(&s);", "t := a2.make(); t = b2.make();", "t := &s; t = &a2.make();", "t : a2.S = s;", "r := @b2.S{n: 1}; return (&r).get() + a2.get(&r);"}[rt.Choose("mistake", 6)] + " return 1;"
		ok = false
	case 9:
		// function values of each
		body = "p := f" + k + "; q := a2.f" + k + "; r := b2.f" + k + "; return p() * 100 + q() * 10 + r();"
		out = 624
	}
	module(src+"func main() i32 {\n"+body+"\n}\n", ok, out, "a name of several modules")
}

// H_C22_generic: the parameters of a generic file are the types it is imported
// with; imports with the same types are the same module.
func H_C22_generic() {
	t, r := chooseType("first"), chooseType("second")
	files("g.cd", "type T;\nstruct B { v T n i32 }\ncount := 0;\nfunc new(v T) B { count = count + 1; return @B{v: v, n: count}; }\nfunc get(b *B) T { return b.v; }\nfunc num(b B) i32 { return b.n; }\nfunc counted() i32 { return count; }\n")
	body := ""
	same := t.name == r.name
	ok := true
	out := int64(0)
	switch rt.Choose("use", 6) {
	case 0:
		body = "a := g.new(v); b := h.new(w); x : " + t.name + " = g.get(&a); y : " + r.name + " = h.get(&b); return g.counted() * 10 + h.counted();"
		out = 11
		if same {
			out = 22
		}
	case 1:
		body = "a := g.new(v); b := h.new(w); a = h.new(w); return a.n;"
		ok, out = same, 3
	case 2:
		body = "a := g.new(w); return a.n;"
		ok, out = same, 1
	case 3:
		body = "a := g.new(v); return h.num(a);"
		ok, out = same, 1
	case 4:
		body = "a := g.new(v); b := h.new(w); x := (&a).get(); y := (&b).get(); x = v; y = w; return a.num() + b.num();"
		out = 2
		if same {
			out = 3
		}
	case 5:
		body = "p : *g.B = &g.new(v); q : *h.B = &h.new(w); p = q; return p.n;"
		ok, out = same, 2
	}
	src := strings.Replace(typePre, "func fa", "import g, "+t.name+", \"g.cd\";\nimport h, "+r.name+", \"g.cd\";\nfunc fa", 1)
	module(src+"func main() i32 {\n"+t.make("v")+r.make("w")+body+"\n}\n", ok, out, "a generic file")
}

// H_C22_parameter: types of the same name of different files are different type
// parameters.
func H_C22_parameter() {
	kinds := []string{"struct S { x i8 }\n", "struct S { x i32 y i64 }\n", "union S { x i32 }\n", "type S = i16;\n"}
	k := rt.Choose("first", 4)
	j := rt.Choose("second", 4)
	sizes := []int64{1, 16, 4, 2}
	files("a.cd", kinds[k], "b.cd", kinds[j]+"\nimport gg, S, \"g.cd\";\nfunc size() i32 { return gg.size(); }\nfunc count() i32 { return gg.count(); }\n",
		"g.cd", "type T;\nn := 0;\nfunc size() i32 { return @sizeof(T); }\nfunc count() i32 { n = n + 1; return n; }\nfunc id(v *T) *T { return v; }\n")
	if j == 2 {
		// the size of unions is checked elsewhere
		return
	}
	wrap := rt.Choose("wrapped", 4)
	w := func(t string) string { return []string{t, "*" + t, "[3]" + t, "func(" + t + ") i32"}[wrap] }
	size := func(k int) int64 { return []int64{sizes[k], 8, 3 * sizes[k], 8}[wrap] }
	if kinds[k] == kinds[2] {
		return
	}
	src := kinds[1] + "import a, \"a.cd\";\nimport b, \"b.cd\";\nimport m, " + w("S") + ", \"g.cd\";\nimport n, " + w("a.S") + ", \"g.cd\";\n"
	ok := true
	out := int64(0)
	body := ""
	switch rt.Choose("use", 4) {
	case 0:
		body = "return m.size() * 1000 + n.size();"
		out = size(1)*1000 + size(k)
	case 1:
		body = "m.count(); n.count(); b.count(); return m.count() * 100 + n.count() * 10 + b.count();"
		out = 222
		if k == 3 && j == 3 && wrap == 0 {
			// both are i16
			out = 234
		}
	case 2:
		body = "x := 0 as *" + w("S") + "; x = m.id(x); y := 0 as *" + w("a.S") + "; y = n.id(y); return b.size();"
		out = sizes[j]
	case 3:
		body = "x := 0 as *" + w("S") + "; x = n.id(x); return 1;"
		ok = false
	}
	module(src+"func main() i32 {\n"+body+"\n}\n", ok, out, "a type parameter")
}

// H_C22_layout: every file is found relative to the file that imports it, and
// is there once however many files import it.
func H_C22_layout() {
	one := func(what, two string) string { return two[rt.Choose(what, 2):][:1] }
	d, f := one("directory", "pq"), one("file", "xy")
	e, g := one("other directory", "pq"), one("other file", "xy")
	base := "n := 0;\nfunc next() i32 { n = n + 1; return n; }\nstruct S { x i32 }\nfunc f(s *S) i32 { return s.x; }\n"
	src := ""
	ok := true
	out := int64(0)
	switch rt.Choose("layout", 8) {
	case 0:
		files(d+"/"+f+".cd", base)
		src = "import m, \"" + e + "/" + g + ".cd\";\nfunc main() i32 { m.next(); return m.next(); }\n"
		ok, out = d == e && f == g, 2
	case 1:
		// a file next to the imported one
		files(d+"/"+f+".cd", base, d+"/z.cd", "import m, \""+g+".cd\";\nfunc two() i32 { m.next(); return m.next(); }\n")
		src = "import m, \"" + e + "/z.cd\";\nfunc main() i32 { return m.two(); }\n"
		ok, out = d == e && f == g, 2
	case 2:
		// up again
		files(f+".cd", base, d+"/z.cd", "import m, \"../"+g+".cd\";\nfunc two() i32 { m.next(); return m.next(); }\n")
		src = "import m, \"" + e + "/z.cd\";\nimport q, \"./" + f + ".cd\";\nfunc main() i32 { q.next(); return m.two() * 10 + q.next(); }\n"
		ok, out = d == e && f == g, 34
	case 3:
		// the same file by two ways
		files(d+"/"+f+".cd", base)
		src = "import m, \"" + e + "/" + g + ".cd\";\nimport q, \"./" + d + "/../" + d + "/" + f + ".cd\";\nfunc main() i32 { m.next(); s := @m.S{x: 5}; s = @q.S{x: 6}; return q.next() * 10 + q.f(&s); }\n"
		ok, out = d == e && f == g, 26
	case 4:
		// through two files
		files("b.cd", base, "l.cd", "import m, \"b.cd\";\nfunc one() i32 { return m.next(); }\nfunc mk() m.S { return @m.S{x: 7}; }\n",
			"r.cd", "import k, \"b.cd\";\nfunc one() i32 { return k.next(); }\nfunc f(s k.S) i32 { return s.x; }\n")
		src = "import l, \"l.cd\";\nimport r, \"r.cd\";\nfunc main() i32 { l.one(); s := l.mk(); return r.one() * 10 + r.f(s); }\n"
		out = 27
	case 5:
		// a file of the same name in another directory
		files(d+"/z.cd", "func v() i32 { return 1; }\n", e+"/z.cd", "func v() i32 { return 2; }\n", "z.cd", "func v() i32 { return 3; }\n")
		if d == e {
			return
		}
		src = "import m, \"" + d + "/z.cd\";\nimport q, \"" + e + "/z.cd\";\nimport o, \"z.cd\";\nfunc main() i32 { return m.v() * 100 + q.v() * 10 + o.v(); }\n"
		out = 123
	case 6:
		// two levels of directories
		files(d+"/"+f+"/x.cd", "import up, \"../y.cd\";\nfunc v() i32 { return up.v() + 1; }\n", d+"/y.cd", "import w, \"../w.cd\";\nfunc v() i32 { return w.v() + 1; }\n", "w.cd", "func v() i32 { return 1; }\n")
		src = "import m, \"" + e + "/" + g + "/x.cd\";\nfunc main() i32 { return m.v(); }\n"
		ok, out = d == e && f == g, 3
	case 7:
		// files know only what they import themselves
		files("b.cd", base, "l.cd", "import m, \"b.cd\";\nfunc one() i32 { return m.next(); }\n", "r.cd", "func one() i32 { return m.next(); }\n")
		src = "import l, \"l.cd\";\n" + []string{"func main() i32 { return m.next(); }\n", "import m, \"b.cd\";\nimport r, \"r.cd\";\nfunc main() i32 { return r.one(); }\n"}[rt.Choose("unknown", 2)]
		ok = false
	}
	module(src, ok, out, "a file")
}

// H_C22_cycle: files that import each other are rejected.
func H_C22_cycle() {
	switch rt.Choose("cycle", 4) {
	case 0:
		files("a.cd", "import b, \"a.cd\";\nfunc f() i32 { return 1; }\n")
	case 1:
		files("a.cd", "import b, \"b.cd\";\nfunc f() i32 { return 1; }\n", "b.cd", "import a, \"a.cd\";\nfunc g() i32 { return 1; }\n")
	case 2:
		files("a.cd", "type T;\nimport b, T, \"a.cd\";\nfunc f() i32 { return 1; }\n")
		rt.Cover("end")
		survivesModule("import a, i32, \"a.cd\";\nfunc main() i32 { return a.f(); }\n")
		return
	case 3:
		files("a.cd", "type T;\ntype P = *T;\nimport b, P, \"a.cd\";\nfunc f() i32 { return 1; }\n")
		survivesModule("import a, i32, \"a.cd\";\nfunc main() i32 { return a.f(); }\n")
		return
	}
	survivesModule("import a, \"a.cd\";\nfunc main() i32 { return a.f(); }\n")
}

func survivesModule(src string) {
	stage, _ := resultOf(src)
	rt.Assert(stage != "compiled", "files that import each other are rejected")
	rt.Cover("end")
}

// H_C22_mistake: mistakes in what is imported, and in how, are reported.
func H_C22_mistake() {
	good := "type T;\nstruct S { x i32 }\nconst c := 1;\nv := 2;\nfunc f() i32 { return 1; }\nfunc g(x T) T { return x; }\n"
	files("g.cd", good, "e.cd", "", "n.cd", "// nothing\n", "p.cd", "func f( {\n", "s.cd", "func f() i32 { return nothing; }\n", "t.cd", "import p, \"p.cd\";\nfunc f() i32 { return 1; }\n",
		"u.cd", "import s, \"s.cd\";\nfunc f() i32 { return 1; }\n", "w.cd", "type T;\nfunc f(x T) i32 { return x.y; }\n", "z.cd", "struct S { s S }\n", "k.cd", "func f() i32 { return 1; }\n")
	const end = "\nfunc main() i32 { return 0; }\n"
	imp := "import g, i32, \"g.cd\";\nstruct Here { x i32 }\nunion Hereu { x i32 }\ntype Heret = i32;\nfunc here() i32 { return 1; }\nherev := 1;\nconst herec := 1;\n"
	in := func(body string) string { return imp + "func main() i32 { " + body + " return 0; }\n" }
	bad := []string{
		"import p, \"p.cd\";" + end, "import s, \"s.cd\";" + end, "import t, \"t.cd\";" + end, "import u, \"u.cd\";" + end, "import z, \"z.cd\";" + end,
		"import m, \"missing.cd\";" + end, "import m, \"\";" + end, "import m, \".\";" + end,
		"import g, \"g.cd\";" + end, "import g, i32, i64, \"g.cd\";" + end, "import g, Nothing, \"g.cd\";" + end, "import g, q.S, \"g.cd\";" + end, "import k, i32, \"k.cd\";" + end, "import w, i32, \"w.cd\";" + end,
		"import g i32, \"g.cd\";" + end, "import \"g.cd\";" + end, "import g, i32;" + end, "import g, i32, g.cd;" + end,
		in("g.nothing();"), in("x := g.nothing;"), in("x := @g.Here{x: 1};"), in("x : g.Here = @Here{x: 1};"), in("x : g.Hereu = 1;"), in("x : g.Heret = 1;"), in("g.here();"), in("x := g.here;"), in("x := g.herev;"), in("x := g.herec;"), in("g.herev = 1;"), in("x := @S{x: 1};"), in("x : S = @g.S{x: 1};"), in("f();"), in("x := c;"), in("x := v;"), in("x : T = 1;"), in("x : g.Nothing = 1;"), in("x := @g.Nothing{x: 1};"), in("x := @g.S{y: 1};"), in("x := h.f();"), in("x : h.S = 1;"), in("x := @h.S{x: 1};"),
		in("g.c = 2;"), in("g.f = g.f;"), in("++g.c;"), in("x := g;"), in("@print(g);"), in("g = 1;"), in("g();"), in("g;"), in("x := g + 1;"), in("x := &g;"), in("x := g.S;"), in("x := g.1;"), in("x := g.g;"), in("x := g[0];"), in("x := *g;"), in("x := -g;"), in("x := g as i32;"), in("if g { x := 1; }"), in("g.T = 1;"), in("x : g.T = 1 as i64;"), in("x := [1]i32{g};"), in("x := @g.S{x: g};"), in("x := g.f(g);"), in("return g;"), in("x, y := g, g;"), in("x := func() i32 { return g; };"), in("x := :i32 { return g; };"), in("for g { }"), in("switch g { case 1 { } }"), in("x := @alloc(i32, g);"), in("x := g.f.f();"), in("x := g.g.f();"), in("x : g = 1;"), in("x : *g = 0 as *g;"), in("x := @sizeof(g);"),
		"x := g;" + end, imp + "x := g;" + end, imp + "x := g.f();" + end, imp + "const x := g.v;" + end,
		imp + "import g, \"k.cd\";\nfunc main() i32 { return g.v; }\n",
	}
	n := rt.Choose("mistake", len(bad))
	rt.DiagnosedExit(true)
	src := bad[n]
	switch src {
	case in("x := g.g;"):
		// a value that is a function
		stage, _ := resultOf(src)
		rt.Assert(stage == "compiled", "a function of a module is a value")
		return
	}
	module(src, false, 0, "a mistake")
}

// H_C22_text: the path of an import is what is written, and text around imports
// does not matter.
func H_C22_text() {
	files("a.cd", "func f() i32 { return 1; }\n", "empty.cd", "", "ab.cd", "func f() i32 { return 2; }\n")
	n := 4 + rt.Choose("bytes", 2)
	w := rt.Bytes("path", n)
	for _, c := range w {
		rt.Assume(rt.Or(rt.Or(c == 'a', c == 'b'), rt.Or(rt.Or(c == '.', c == 'c'), c == 'd')))
	}
	p := string(w)
	ok, out := p == "a.cd" || p == "ab.cd", int64(2)
	if p == "a.cd" {
		out = 1
	}
	module("// first\nimport m, \""+p+"\"\n// second\nimport e, \"empty.cd\";\nfunc main() i32 { return m.f(); }\n", ok, out, "a path")
}

// H_C22_hide: parameters and variables hide the modules of their names while
// they can be seen.
func H_C22_hide() {
	n := letter("variable")
	files("a.cd", "v := 5;\nfunc f() i32 { return 1; }\nfunc g(p i32) i32 { return p; }\nstruct S { f i32 x i32 }\n")
	src := "import m, \"a.cd\";\nstruct R { v i32 }\n"
	out := int64(0)
	body := ""
	ok := true
	switch rt.Choose("place", 8) {
	case 0:
		body = n + " := @R{v: 7}; return " + n + ".v;"
		out = 7
	case 1:
		body = "x := m.v; { " + n + " := @R{v: 7}; x = x * 10 + " + n + ".v; } return x * 10 + m.v;"
		if n == "x" {
			return
		}
		out = 575
	case 2:
		body = n + " := @R{v: 7}; return m.v;"
		out = 5
		if n == "m" {
			out = 7
		}
	case 3:
		src += "func h(" + n + " R) i32 { return " + n + ".v; }\n"
		body = "return h(@R{v: 8}) * 10 + m.v;"
		out = 85
	case 4:
		body = "l := func(" + n + " R) i32 { return " + n + ".v * 10 + m.v; }; return l(@R{v: 3});"
		out = 35
		if n == "m" {
			out = 33
		}
	case 5:
		body = "l := func() i32 { " + n + " := @R{v: 4}; return " + n + ".v; }; return l() * 10 + m.f();"
		out = 41
	case 6:
		body = n + " := @R{v: 7}; l := func() i32 { return " + n + ".v; }; return l();"
		if n == "l" {
			return
		}
		out = 7
	case 7:
		// types of the module can be named anyway
		body = n + " : m.S = @m.S{f: 3, x: 4}; return " + n + ".f * 10 + " + n + ".x;"
		out = 34
	}
	module(src+"func main() i32 {\n"+body+"\n}\n", ok, out, "a name")
}

// H_C22_parts: everything that can be in a file works from the files that import
// it.
func H_C22_parts() {
	k := letter("name") + "9"
	a, b := int64(0), ""
	file := ""
	extra := ""
	switch rt.Choose("part", 15) {
	case 0: // functions of functions
		file = "func " + k + "() func(i32) i32 { return func(p i32) i32 { return p * 2; }; }"
		b, a = "return m."+k+"()(4);", 8
	case 1: // anonymous functions that use what the module declares
		file = "v := 3;\nfunc h(p i32) i32 { return p + v; }\nfunc " + k + "() func(i32) i32 { return func(p i32) i32 { v = v + 1; return h(p); }; }"
		b, a = "l := m."+k+"(); l(1); return l(4) * 10 + m.v;", 95
	case 2: // several results
		file = "struct S { x i32 }\nfunc " + k + "() i32, S { return 1, @S{x: 2}; }"
		b, a = "p, q := m."+k+"(); return p * 10 + q.x;", 12
	case 3: // unions
		file = "union U { " + k + " i32 zz i8 }\nfunc f(u *U) i32 { return u." + k + "; }"
		b, a = "u : m.U = 5; u."+k+" = 6; return m.f(&u) * 10 + u."+k+";", 66
	case 4: // structs in structs in arrays
		file = "struct I { " + k + " i32 }\nstruct S { is [2]I p *I }\nfunc f(s *S) i32 { return s.is[1]." + k + " * 10 + s.p." + k + "; }"
		b, a = "s := @m.S{}; s.is[1]."+k+" = 4; i := @m.I{"+k+": 3}; s.p = &i; return m.f(&s);", 43
	case 5: // constants
		file = "const " + k + " := 2 + 3;\nconst zz := " + k + " * 2;\nfunc f() i32 { return zz; }"
		b, a = "const q := m."+k+" + 1; switch 6 { case q { return m.f() + m.zz; } default { } } return 0;", 20
	case 6: // strings and arrays of the module
		file = "const " + k + " := \"ab\";\nqq := 5;\nfunc f(i i32) i32 { return " + k + "[i] as i32; }"
		b, a = "return m.f(1) * 100 + (m."+k+"[0] as i32) + m.qq;", 9800+97+5
	case 7: // extern functions in two files
		file = "extern func abs(i32) i32;\nfunc " + k + "(p i32) i32 { return p; }"
		extra = "extern func abs(i32) i32;\n"
		b, a = "return m."+k+"(1);", 1
	case 8: // public functions
		file = "pub func " + k + "xx(p i32) i32 { return p + 1; }\nfunc h() i32 { return " + k + "xx(2); }"
		b, a = "return m."+k+"xx(4) * 10 + m.h();", 53
	case 9: // conditional parts
		file = "#if LINUX { func " + k + "() i32 { return 1; } }\n#if WINDOWS { func " + k + "() i32 { return 2; } }"
		b, a = "return m."+k+"();", 1
	case 10: // recursive functions and types
		file = "struct L { n *L " + k + " i32 }\nfunc sum(l *L) i32 { if l as i64 == 0 as i64 return 0; return l." + k + " + sum(l.n); }"
		b, a = "x := @m.L{n: 0 as *m.L, "+k+": 3}; y := @m.L{n: &x, "+k+": 4}; return m.sum(&y);", 7
	case 11: // methods
		file = "struct S { x i32 }\nfunc " + k + "(s *S, p i32) i32 { s.x = s.x + p; return s.x; }\nfunc h(s S) S { return s; }"
		b, a = "s := @m.S{x: 1}; (&s)."+k+"(2); return s.h().x * 10 + (&s)."+k+"(3);", 36
	case 12: // function types
		file = "struct S { x i32 }\ntype F = func(S) i32;\nfunc " + k + "(f F, s S) i32 { return f(s); }"
		b, a = "return m."+k+"(func(s m.S) i32 { return s.x + 1; }, @m.S{x: 4});", 5
	case 13: // functions of a module as values
		file = "struct S { x i32 }\nfunc " + k + "(s S) i32 { return s.x; }"
		extra = "func ap(f func(m.S) i32) i32 { return f(@m.S{x: 6}); }\n"
		b, a = "p := m."+k+"; q := [1]func(m.S) i32{m."+k+"}; return ap(m."+k+") * 100 + p(@m.S{x: 1}) * 10 + q[0](@m.S{x: 2});", 612
	case 14: // pointers to variables
		file = "" + k + " := 3;\nfunc f() i32 { return " + k + "; }"
		b, a = "p := &m."+k+"; *p = 7; ++m."+k+"; x := 1; m."+k+", x = m."+k+" + 1, m."+k+"; return m.f() * 10 + x;", 98
	}
	files("a.cd", file+"\n")
	module("import m, \"a.cd\";\n"+extra+"func main() i32 {\n"+b+"\n}\n", true, a, "a part of a module")
}

// H_C22_chain: generic files that import generic files.
func H_C22_chain() {
	t := chooseType("type")
	files("l.cd", "type T;\nstruct L { n *L v T }\nfunc cons(v T, l *L) L { return @L{n: l, v: v}; }\nfunc len(l *L) i32 { if l as i64 == 0 as i64 return 0; return 1 + len(l.n); }\n",
		"s.cd", "type T;\nimport l, T, \"l.cd\";\nimport lp, i32, \"l.cd\";\nstruct S { top *l.L n i32 }\nfunc push(s *S, v T) i32 { e := @alloc(l.L, 1); *e = l.cons(v, s.top); s.top = e; s.n = s.n + 1; return l.len(s.top); }\nfunc pop(s *S) T { e := s.top; s.top = e.n; s.n = s.n - 1; return e.v; }\n")
	body := ""
	out := int64(0)
	switch rt.Choose("use", 4) {
	case 0:
		body = "st := @s.S{top: 0 as *q.L, n: 0}; s.push(&st, v); (&st).push(v); x : " + t.name + " = s.pop(&st); return st.n * 10 + q.len(st.top);"
		out = 11
	case 1:
		// a stack of stacks
		body = "st := @s.S{top: 0 as *q.L, n: 0}; ss := @z.S{top: 0 as *zl.L, n: 0}; z.push(&ss, st); z.push(&ss, st); y := z.pop(&ss); s.push(&y, v); return y.n * 10 + ss.n + st.n;"
		out = 11
	case 2:
		body = "k := @i.S{top: 0 as *il.L, n: 0}; i.push(&k, 5); i.push(&k, 7); return i.pop(&k) * 10 + i.pop(&k);"
		out = 75
	case 3:
		body = "e := q.cons(v, 0 as *q.L); f := q.cons(v, &e); x := (&f).len(); return x * 10 + q.len(f.n);"
		out = 21
	}
	src := strings.Replace(typePre, "func fa", "import q, "+t.name+", \"l.cd\";\nimport s, "+t.name+", \"s.cd\";\nimport z, s.S, \"s.cd\";\nimport zl, s.S, \"l.cd\";\nimport i, i32, \"s.cd\";\nimport il, i32, \"l.cd\";\nfunc fa", 1)
	module(src+"func main() i32 {\n"+t.make("v")+body+"\n}\n", true, out, "a generic file")
}

// H_C22_several: a generic file with several type parameters is another one if
// any of them differs.
func H_C22_several() {
	n := 2 + rt.Choose("parameters", 2)
	base := []string{"i32", "*i32", "[2]i32", "S", "func(i32) i32"}
	other := []string{"i64", "*i64", "[3]i32", "R", "func(i32) i64"}
	a, b := []string{}, []string{}
	same := true
	for i := 0; i < n; i++ {
		k := rt.Choose("type", len(base))
		a = append(a, base[k])
		if rt.Choose("differs", 2) == 1 {
			b = append(b, other[k])
			same = false
		} else {
			b = append(b, base[k])
		}
	}
	if rt.Choose("order", 2) == 1 {
		b[0], b[1] = b[1], b[0]
		same = true
		for i := range a {
			same = same && a[i] == b[i]
		}
	}
	params := []string{"A", "B", "C"}[:n]
	files("g.cd", "type "+strings.Join(params, ";\ntype ")+";\ncount := 0;\nstruct P { a *A b *B last *"+params[n-1]+" }\nfunc next() i32 { count = count + 1; return count; }\nfunc use(p *P) i32 { return next(); }\n")
	src := "struct S { x i32 }\nstruct R { x i32 }\nimport a, " + strings.Join(a, ", ") + ", \"g.cd\";\nimport b, " + strings.Join(b, ", ") + ", \"g.cd\";\n"
	body, out, ok := "", int64(0), true
	switch rt.Choose("use", 3) {
	case 0:
		body, out = "a.next(); a.next(); return b.next();", 1
		if same {
			out = 3
		}
	case 1:
		p := []string{"a", "b"}
		for i := range b {
			f := []string{"a", "b", "last"}[i]
			p = append(p, "x"+digit(i)+" := 0 as *"+b[i]+"; q."+f+" = x"+digit(i)+"; x"+digit(i)+" = q."+f+";")
		}
		body, out = "q := @b.P{}; "+strings.Join(p[2:], " ")+" return b.use(&q);", 1
	case 2:
		body, out, ok = "q := @b.P{}; return a.use(&q);", 1, same
	}
	module(src+"func main() i32 {\n"+body+"\n}\n", ok, out, "a generic file")
}

// H_C22_indirect: values of types of a file that only the imported file imports
// work like any others.
func H_C22_indirect() {
	t := chooseType("type")
	src := strings.Replace(typePre, "func fa", "import a, "+t.name+", \"a.cd\";\nfunc fa", 1)
	files("b.cd", "type T;\nstruct S { n i32 v T x i32 }\nunion W { a i32 v T b i8 }\nn := 0;\nfunc two() i32, S { n = n + 1; return n, @S{x: 5, n: 6}; }\n",
		"a.cd", "type T;\nimport b, T, \"b.cd\";\nstruct H { s b.S p *b.S a [2]b.S f func(b.S) i32 }\nfunc make(v T, x i32) b.S { return @b.S{x: x, v: v, n: x + 1}; }\nfunc new(v T, x i32) *b.S { p := @alloc(b.S, 2); p[0] = make(v, x); p[1] = make(v, x + 1); return p; }\n"+
			"func w(v T) b.W { r : b.W = v; r.a = 3; return r; }\nfunc get(s b.S) i32 { return s.x * 10 + s.n; }\nfunc two() i32, b.S { return b.two(); }\n")
	body, out := "", int64(0)
	switch rt.Choose("use", 12) {
	case 0:
		body, out = "s := a.make(v, 4); y : "+t.name+" = s.v; s.v = v; return s.x * 10 + s.n;", 45
	case 1:
		body, out = "return a.make(v, 3).x * 10 + a.make(v, 6).n;", 37
	case 2:
		body, out = "p := a.new(v, 1); p.x = 7; q := &p[1]; q.n = p[0].n + 1; return p[1].n * 100 + p.x * 10 + q.x;", 372
	case 3:
		body, out = "u := a.w(v); x := u.a; u.a = 4; y := u; u.a = 9; return y.a * 10 + x;", 43
	case 4:
		body, out = "h := @a.H{s: a.make(v, 3)}; h.p = &h.s; h.p.x = 8; h.a[1] = h.s; h.f = a.get; return h.f(h.a[1]);", 84
	case 5:
		body, out = "x, y := a.make(v, 1), a.make(v, 2); x, y = y, x; return x.x * 10 + y.x;", 21
	case 6:
		body, out = "s := a.make(v, 3); l := func() i32 { return a.get(s); }; s.x = 9; return l();", 34
	case 7:
		body, out = "n, s := a.two(); m, r := a.two(); return n * 1000 + m * 100 + s.x * 10 + r.n;", 1256
	case 8:
		body, out = "s := a.make(v, 3); p := &s; *p = a.make(v, 5); return a.get(s) + @sizeof(i8);", 57
	case 9:
		body, out = "s := : i32 { r := a.make(v, 3); return r.x; }; return s;", 3
	case 10:
		body, out = "g := a.make; f := a.get; return f(g(v, 4)) + a.get(a.new(v, 2)[1]);", 45+34
	case 11:
		body, out = "h := @a.H{}; for i := 0; i < 2; ++i { h.a[i] = a.make(v, i + 3); } h.s, h.a[0] = h.a[0], h.a[1]; return h.s.x * 10 + h.a[0].x;", 34
	}
	module(src+"func main() i32 {\n"+t.make("v")+body+"\n}\n", true, out, "a value of another file")
}

// H_C22_fields: generic files see the fields of the types they are for.
func H_C22_fields() {
	k, j := letter("field"), letter("used")
	files("g.cd", "type T;\ntype R;\nfunc get(v T) i32 { return v."+j+"; }\nfunc set(v *T, r R) R { old := v."+j+"; v."+j+" = r; return old; }\nstruct P { l T r R }\nfunc sum(p *P) i32 { return p.l."+j+" + p.r; }\nfunc size() i32 { return @sizeof(T); }\nfunc conv(r R) i64 { return r as i64; }\n")
	i8 := rt.Choose("second", 2) == 0
	ok := k == j && !i8
	src := "struct S { zz i64 " + k + " i32 }\nimport g, S, " + map[bool]string{true: "i8", false: "i32"}[i8] + ", \"g.cd\";\n"
	body, out := "", int64(0)
	switch rt.Choose("use", 3) {
	case 0:
		body, out = "s := @S{"+k+": 4}; return g.get(s) * 10 + g.set(&s, 6) + s."+k+";", 50
	case 1:
		body, out = "p := @g.P{l: @S{"+k+": 4}, r: 5}; return g.sum(&p) * 100 + g.size();", 916
	case 2:
		body, out = "return g.conv(7) as i32;", 7
	}
	module(src+"func main() i32 {\n"+body+"\n}\n", ok, out, "a type parameter")
}

// H_C22_methods: methods of a file's types are found through every file that
// imports it, whichever imports it first.
func H_C22_methods() {
	generic := rt.Choose("generic", 2) == 1
	ty, head := "", ""
	if generic {
		ty, head = "i32, ", "type T;\n"
	} else {
		head = "type T = i32;\n"
	}
	files("b.cd", head+"struct S { x T }\nfunc inc(s *S, n T) T { s.x = s.x + n; return s.x; }\nfunc val(s S) T { return s.x * 2; }\nfunc same(s *S) *S { return s; }\n",
		"a.cd", "import b, "+ty+"\"b.cd\";\nfunc make(x i32) b.S { return @b.S{x: x}; }\nfunc up(s *b.S) i32 { return s.inc(1) + s.same().inc(1); }\n",
		"c.cd", "import k, "+ty+"\"b.cd\";\nimport a, \"a.cd\";\nfunc up(s *k.S) i32 { t := a.make(3); return s.inc(t.val()); }\n")
	imports := []string{"import a, \"a.cd\";\n", "import b, " + ty + "\"b.cd\";\n", "import c, \"c.cd\";\n"}
	order := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[rt.Choose("order", 6)]
	src := ""
	for _, i := range order {
		src += imports[i]
	}
	body := []string{
		"s := a.make(2); p := &s; return p.inc(3) * 10 + s.val();", "s := a.make(2); p := &s; a.up(p); return p.same().inc(1) * 10 + s.val();",
		"s := @b.S{x: 1}; c.up(&s); return (&s).same().same().inc(0) * 10 + a.make(7).val() - 4;", "s := a.make(1); c.up(&s); a.up(&s); return s.val() * 4 - 12;",
	}
	k := rt.Choose("use", len(body))
	module(src+"func main() i32 {\n"+body[k]+"\n}\n", true, []int64{60, 60, 80, 60}[k], "a method of another file")
}
