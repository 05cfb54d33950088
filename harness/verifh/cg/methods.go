package cg

import (
	"strings"

	"github.com/gabivlj/candice/internals/verifh/irx"
	"github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// runOf runs function t of the program with the argument.
func runOf(src string, arg, ret *lang.Val) (*irx.M, *irx.Val) {
	m := machine(src, lang.ToIR(ret))
	return m, runs(m, "t", lang.ToIR(arg))
}

// sameRuns compares programs that have to do the same: what t results in, and
// the calls of C functions.
func sameRuns(a, b string) {
	arg := lang.Sym("argument", lang.I32)
	ret := lang.Sym("result of C", lang.I32)
	ma, va := runOf(a, arg, ret)
	mb, vb := runOf(b, arg, ret)
	rt.Assert(va.Signed() == vb.Signed(), "the method call has the value of the call")
	rt.Assert(len(ma.Events) == len(mb.Events), "the method call calls what the call does")
	for i := range ma.Events {
		x, y := ma.Events[i], mb.Events[i]
		rt.Assert(x.Name == y.Name && len(x.Args) == len(y.Args), "the method call calls what the call does, in the same order")
		for j := range x.Args {
			rt.Assert(x.Args[j].Signed() == y.Args[j].Signed(), "the method call passes what the call does")
		}
	}
	rt.Cover("end")
}

// receivers are expressions of every form.
var receivers = []struct{ typ, expr string }{
	{"i32", "x"}, {"i32", "(x + 1)"}, {"i32", "arr[1]"}, {"i32", "s.y"}, {"i32", "(*px)"}, {"i32", "ob(x)"}, {"i32", "o.in.y"}, {"i32", "(x as i32)"}, {"i32", "id(ob(x))"}, {"i32", "o.next.y"}, {"i32", "(: i32 { return ob(x); })"}, {"i32", "gl"}, {"i32", "(-x)"}, {"i32", "o.list[ob(0) & 1]"},
	{"S", "s"}, {"S", "(*ps)"}, {"S", "o.in"}, {"S", "mk(x)"}, {"S", "os[1]"}, {"S", "(*o.next)"}, {"S", "(@S{y: x})"},
	{"*S", "ps"}, {"*S", "(&s)"}, {"*S", "o.next"}, {"*S", "ref(&s)"}, {"*S", "(&o.in)"}, {"*S", "(&os[1])"},
	{"*i32", "px"}, {"*i32", "(&x)"}, {"*i32", "(&s.y)"}, {"*i32", "(px + 0)"},
	{"*i8", "\"ab\""}, {"*i8", "st"}, {"*i8", "(st + \"c\")"},
	{"i64", "(x as i64)"}, {"f32", "(x as f32)"}, {"i1", "(x == 3)"}, {"func(i32) i32", "id"}, {"U", "un"}, {"[2]i32", "o.list"}, {"T", "tt"}, {"const", "k"}, {"*P", "pp"},
}

// H_C27_receiver: x.f(a) is f(x, a), whatever the receiver and the function are.
func H_C27_receiver() {
	r := receivers[rt.Choose("receiver", len(receivers))]
	typ := r.typ
	if typ == "const" {
		typ = "i32"
	}
	pre := "extern func ob(i32) i32;\nstruct S { y i32 }\nstruct P { q i32 }\nunion U { a i32 b f32 }\ntype T = i16;\nstruct O { in S next *S list [2]i32 }\nconst k := 6;\ngl : i32 = 4;\nfunc id(a i32) i32 { return a; }\nfunc mk(a i32) S { return @S{y: a}; }\nfunc ref(a *S) *S { return a; }\n"
	body := "ob(71); return b * 3 + 1;"
	switch typ {
	case "i32", "i64", "T":
		body = "ob(a as i32); return b * 3 + 1;"
	case "S":
		body = "ob(a.y); return b * 3 + 1;"
	case "*S":
		body = "ob(a.y); a.y = b; return b * 3 + 1;"
	case "*i32":
		body = "ob(*a); *a = b; return b * 3 + 1;"
	case "*i8":
		body = "ob(*a as i32); return b * 3 + 1;"
	case "func(i32) i32":
		body = "ob(a(3)); return b * 3 + 1;"
	case "U":
		body = "ob(a.a); return b * 3 + 1;"
	}
	sig := "func(" + typ + ", i32) i32"
	params := "(a " + typ + ", b i32) i32 { "
	before, local, after, param := "", "", "", ""
	switch rt.Choose("function", 10) {
	case 0:
		before = "func f" + params + body + " }\n"
	case 1:
		after = "func f" + params + body + " }\n"
	case 2:
		before = "pub func f" + params + body + " }\n"
	case 3:
		local = "f := func" + params + body + " };\n"
	case 4:
		before = "func g" + params + body + " }\n"
		local = "f := g;\n"
	case 5:
		before = "func g" + params + body + " }\n"
		param = sig
	case 6:
		before = "func g" + params + body + " }\nfunc h" + params + " return 0; }\n"
		local = "f := h; f = g;\n"
	case 7:
		// a variable hides a function
		before = "func f" + params + " return 0; }\n"
		local = "f := func" + params + body + " };\n"
	case 8:
		// the variable in another scope is another
		before = "func f" + params + body + " }\n"
		local = "{ f := func" + params + " return 0; }; f; }\n"
	case 9:
		before = "func f" + params + body + " }\n"
		local = "{ fs := [1]" + sig + "{f}; fs; }\n"
	}
	setup := "arr := [3]i32{7, x, 9}; s := @S{y: x}; ps := &s; px := &x; os := [2]S{s, s}; o := @O{in: s, next: &s, list: [2]i32{x, 2}}; st := \"xyz\"; un : U = x; tt := 3 as T; pr := @P{q: 1}; pp := &pr;\n"
	na, nu := 2, 4
	if rt.Tier() > 0 {
		na, nu = 5, 6
	}
	args := []string{"id(ob(2))", "s.y", "x", "ob(9)", "5"}[rt.Choose("argument", na)]
	use := []string{"return #;", "z := #; return z + x;", "if # == 4 { return 1; } return x;", "#; return s.y;", "return id(#) + #;", "return func(q i32) i32 { return q; }(#);"}[rt.Choose("use", nu)]
	if param != "" {
		use = strings.ReplaceAll(use, "x;", "1;")
	}
	text := func(call string) string {
		src := pre + before
		u := strings.ReplaceAll(use, "#", call)
		if param != "" {
			src += "func t2(x i32, f " + param + ") i32 { " + setup + u + " }\npub func t(x i32) i32 { return t2(x, g); }\n"
		} else {
			src += "pub func t(x i32) i32 { " + setup + local + u + " }\n"
		}
		return src + after + "func main() i32 { return 0; }\n"
	}
	sameRuns(text("f("+r.expr+", "+args+")"), text(r.expr+".f("+args+")"))
}

// sameVerdict compares programs that have to mean the same: both are accepted,
// or both are rejected; the result of main is the same.
func sameVerdict(a, b, what string) {
	want, x := resultOf(a)
	got, y := resultOf(b)
	rt.Assert((want == "compiled") == (got == "compiled"), what+" is accepted like the call")
	if want == "compiled" {
		rt.Assert(x == y, what+" has the value of the call")
	}
	rt.Cover("end")
}

// H_C27_types: a value is a receiver exactly if it is a first argument.
func H_C27_types() {
	r, d := chooseType("receiver"), chooseType("parameter")
	n := 3
	if rt.Tier() > 0 {
		n = 5
	}
	shape := rt.Choose("function", n)
	text := func(call string) string {
		src := typePre
		body := strings.ReplaceAll(r.setup, "#", "v") + "\n"
		switch shape {
		case 0:
			src += "func f(a " + d.name + ") i32 { return 4; }\n"
		case 1:
			body += "f := func(a " + d.name + ") i32 { return 4; };\n"
		case 2:
			src += "func g(a " + d.name + ") i32 { return 4; }\nfunc f(a " + d.name + ") func(" + d.name + ") i32 { return g; }\n"
			call += "(v)"
		case 3:
			src += "func f(a " + d.name + ", b " + d.name + ") i32 { return 4; }\n"
			call = call[:len(call)-1]
			if call[len(call)-1] != '(' {
				call += ", "
			}
			call += "v)"
		case 4:
			src += "func f(a *" + d.name + ") i32 { return 4; }\n"
			call = strings.Replace(call, "v", "(&v)", 1)
		}
		return src + "func main() i32 {\n" + body + "return " + call + ";\n}\n"
	}
	if r.kind == 'u' && d.kind == 'U' || r.kind == 'U' {
		// what a union can be is C19
		return
	}
	sameVerdict(text("f(v)"), text("v.f()"), "a method call")
}

// H_C27_count: as many arguments as the function has besides the receiver.
func H_C27_count() {
	params, args := rt.Choose("parameters", 4), rt.Choose("arguments", 4)
	variadic := rt.Choose("variadic", 2) == 1
	if variadic && params == 0 {
		// a receiver is a first parameter
		return
	}
	ps := list(params, func(i int) string { return "a" + digit(i) + " i32" })
	as := list(args, func(i int) string { return digit(i + 1) })
	src := "func f(" + ps + ") i32 { return 3; }\n"
	if variadic {
		ts := list(params, func(i int) string { return "i32" })
		if params > 0 {
			ts += ", "
		}
		src = "extern func f(" + ts + "..) i32;\n"
	}
	x := []string{"x", "(&s)", "s"}[rt.Choose("receiver", 3)]
	call := "f(" + x
	if args > 0 {
		call += ", "
	}
	text := func(c string) string {
		t := "struct S { y i32 }\n" + src + "func main() i32 { x := 1; s := @S{y: 2}; "
		if variadic {
			return t + "if x == 2 { " + c + "; } return 0; }\n"
		}
		return t + "return " + c + "; }\n"
	}
	sameVerdict(text(call+as+")"), text(x+".f("+as+")"), "a method call")
}

// H_C27_uncalled: a method is only called: it's no value.
func H_C27_uncalled() {
	e := []string{"x.f", "s.g", "(&s).h", "x.v", "s.w", "arr[0].f", "s.y.f", "x.f().f"}[rt.Choose("method", 8)]
	use := []string{
		"y := #;", "#;", "k(#, 3);", "x = #;", "return #;", "@print(#);", "q := [1]func(i32) i32{#};", "z := & #;", "z := # as i64;", "z := # + 1;", "if # == 1 { }", "(: i32 { # ; return 1; });", "z := #[0];", "z := #.f();", "k2(#, k3(4));", "@print(#, k3(4));", "u := #; u();", "k2(k3(#));", "w = #;", "f = #;",
	}[rt.Choose("use", 20)]
	src := "struct S { y i32 }\nfunc f(a i32) i32 { return a; }\nfunc g(a S) i32 { return a.y; }\nfunc h(a *S) i32 { return a.y; }\nfunc k(a func(i32) i32, b i32) i32 { return 2; }\nfunc k2(a i32, b i32) i32 { return a; }\nfunc k3(a i32) i32 { return a; }\n"
	src += "func main() i32 { x := 1; s := @S{y: 2}; arr := [2]i32{1, 2}; v := f; w := g; " + strings.ReplaceAll(use, "#", e) + " return 0; }\n"
	judged(src, reject, "a method that isn't called")
}

// H_C27_name: the field of the name comes first, then the innermost function.
func H_C27_name() {
	field, fn, local, use := letter("field"), letter("function"), letter("local"), letter("use")
	recv := rt.Choose("receiver", 3)
	hides := rt.Choose("local", 4)
	lf := ""
	switch hides {
	case 1:
		lf = local + " := func(a R) i32 { return 20; };\n"
	case 2:
		lf = "if 1 == 1 { " + local + " := func(a R) i32 { return 20; }; }\n"
	case 3:
		lf = local + " := 20;\n"
	}
	typ := []string{"S", "*S", "i32"}[recv]
	e := []string{"xs", "(&xs)", "xi"}[recv]
	src := "struct S { " + field + " func() i32 }\nfunc ten() i32 { return 10; }\nfunc " + fn + "(a R) i32 { return 30; }\nfunc main() i32 { xs := @S{" + field + ": ten}; xi := 3;\n" + lf + "return " + e + "." + use + "(); }\n"
	src = strings.ReplaceAll(src, "R", typ)
	ok, out := false, int64(0)
	if recv < 2 && use == field {
		ok, out = true, 10
	} else if hides == 1 && use == local {
		ok, out = true, 20
	} else if hides == 3 && use == local {
		ok = false
	} else if use == fn {
		ok, out = true, 30
	}
	stage, got := resultOf(src)
	rt.Assert((stage == "compiled") == ok, "a method is accepted exactly if there is a field or function of its name")
	if ok {
		rt.Assert(got == out, "a method is the field, or else the innermost function of its name")
	}
	rt.Cover("end")
}

// H_C27_modules: the function of this file comes first, then the ones of the
// imported files in the order of the imports, as far as the receiver fits.
func H_C27_modules() {
	rt.MapOrder(1)
	ts := []string{"i32", "i64", "*i32"}
	pick := func(what string) int { return rt.Choose(what, 4) }
	a, b, own := pick("first file"), pick("second file"), pick("this file")
	def := func(k int, v string) string {
		if k == 3 {
			return "func other(x i32) i32 { return 90; }\n"
		}
		return "func f(x " + ts[k] + ") i32 { return " + v + "; }\n"
	}
	rt.WriteFile("a.cd", def(a, "10"))
	rt.WriteFile("b.cd", def(b, "20"))
	first, second := "import n, \"a.cd\";\n", "import m, \"b.cd\";\n"
	order := rt.Choose("order", 4)
	pa, pb := 0, 1
	src := ""
	switch order {
	case 0:
		src = first + second
	case 1:
		src = second + first
		pa, pb = 1, 0
	case 2:
		// imported again
		src = second + first + "import o, \"b.cd\";\n"
		pa, pb = 1, 0
	case 3:
		src = "#if LINUX { " + first + " }\n" + second
	}
	src += def(own, "30")
	k := rt.Choose("receiver", 3)
	src += "func main() i32 { x := 1; y := 2 as i64; z := &x; return " + []string{"x", "y", "z"}[k] + ".f(); }\n"
	ok, out := true, int64(0)
	switch {
	case own == k:
		out = 30
	case a == k && b == k:
		out = 10
		if pb < pa {
			out = 20
		}
	case a == k:
		out = 10
	case b == k:
		out = 20
	default:
		ok = false
	}
	stage, got := resultOf(src)
	rt.Assert((stage == "compiled") == ok, "a method is accepted exactly if some file has a function for the receiver")
	if ok {
		rt.Assert(got == out, "a method is the function of this file, or else of the first import that has one")
	}
	rt.Cover("end")
}
