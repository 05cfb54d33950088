package cg

import (
	"strings"

	"github.com/gabivlj/candice/internals/verifh/irx"
	"github.com/gabivlj/candice/internals/verifh/pipe"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// ty is a type of the language as it is written, with the statements that
// make a variable # of it.
type ty struct {
	name, setup string
	kind        byte // i, u, f: numbers, b: i1, p: pointer, s: string, S: struct, U: union, a: array, F: function
}

const typePre = `struct S { x i32 }
struct T { x i32 }
union U { a i32 b f32 }
func fa(x i32) i32 { return x; }
func fb(x i64) i32 { return 1; }
func fc(x i32) i64 { return 1 as i64; }
func fd(x i32, y i32) i32 { return x; }
func fe(x i32) { x = 1; }
func fg() i32 { return 1; }
func fh(x *S) i32 { return 1; }
func fi(x *T) i32 { return 1; }
`

var types = []ty{
	{"i8", "# := 1 as i8;", 'i'},
	{"i16", "# := 1 as i16;", 'i'},
	{"i32", "# := 1;", 'i'},
	{"i64", "# := 1 as i64;", 'i'},
	{"u8", "# := 1 as u8;", 'u'},
	{"u16", "# := 1 as u16;", 'u'},
	{"u32", "# := 1 as u32;", 'u'},
	{"u64", "# := 1 as u64;", 'u'},
	{"f32", "# := 1.5;", 'f'},
	{"f64", "# := 1.5 as f64;", 'f'},
	{"i1", "# := 1 == 1;", 'b'},
	{"*i32", "#0 := 1; # := &#0;", 'p'},
	{"*i64", "#0 := 1 as i64; # := &#0;", 'p'},
	{"*u32", "#0 := 1 as u32; # := &#0;", 'p'},
	{"**i32", "#0 := 1; #1 := &#0; # := &#1;", 'p'},
	{"*i8", "# := \"ab\";", 's'},
	{"*u8", "#0 := 1 as u8; # := &#0;", 'p'},
	{"S", "# := @S{x: 1};", 'S'},
	{"T", "# := @T{x: 1};", 'S'},
	{"*S", "#0 := @S{x: 1}; # := &#0;", 'p'},
	{"*T", "#0 := @T{x: 1}; # := &#0;", 'p'},
	{"U", "# : U = 1;", 'U'},
	{"*U", "#0 : U = 1; # := &#0;", 'p'},
	{"[2]i32", "# := [2]i32{1, 2};", 'a'},
	{"[3]i32", "# := [3]i32{1, 2, 3};", 'a'},
	{"[2]i64", "# := [2]i64{1 as i64, 2 as i64};", 'a'},
	{"[2]S", "# := [2]S{@S{x: 1}, @S{x: 2}};", 'a'},
	{"[2]T", "# := [2]T{@T{x: 1}, @T{x: 2}};", 'a'},
	{"[2][2]i32", "# := [2][2]i32{[2]i32{1, 2}, [2]i32{1, 2}};", 'a'},
	{"*[2]i32", "#0 := [2]i32{1, 2}; # := &#0;", 'p'},
	{"*[3]i32", "#0 := [3]i32{1, 2, 3}; # := &#0;", 'p'},
	{"func(i32) i32", "# := fa;", 'F'},
	{"func(i64) i32", "# := fb;", 'F'},
	{"func(i32) i64", "# := fc;", 'F'},
	{"func(i32, i32) i32", "# := fd;", 'F'},
	{"func(i32)", "# := fe;", 'F'},
	{"func() i32", "# := fg;", 'F'},
	{"func(*S) i32", "# := fh;", 'F'},
	{"func(*T) i32", "# := fi;", 'F'},
}

func (t ty) is(kinds string) bool { return strings.IndexByte(kinds, t.kind) >= 0 }

func (t ty) make(n string) string { return strings.ReplaceAll(t.setup, "#", n) + "\n" }

func chooseType(what string) ty { return types[rt.Choose(what, len(types))] }

const (
	reject = iota
	accept
	either
)

// anything leaves it to other checks whether programs are accepted.
var anything bool

// judged runs the whole compiler on the program: the program has to be
// accepted, or rejected by the analysis; if it is accepted, it is compiled to
// a well-formed module, and never makes the compiler panic.
func judged(src string, want int, what string) {
	if anything {
		survives(src)
		return
	}
	rt.Log("src", src)
	r := pipe.Compile(src)
	rt.Log("stage", r.Stage)
	for _, e := range r.Errs {
		rt.Log("diagnostic", e.Error())
	}
	switch want {
	case accept:
		rt.Assert(r.Stage == "compiled", what+" is accepted")
	case reject:
		rt.Assert(r.Stage != "compiled", what+" is rejected")
	}
	if r.Stage == "compiled" {
		e := irx.Check(r.M)
		rt.Log("ir", e)
		rt.Assert(e == "", what+" is compiled to well-formed IR")
	}
	rt.Cover("end")
}

func yes(b bool) int {
	if b {
		return accept
	}
	return reject
}

const mainEnd = "func main() i32 { return 0; }\n"

// H_C07_store: a value is stored, passed or returned only where its own type
// is expected.
func H_C07_store() {
	d, v := chooseType("declared"), chooseType("value")
	want := yes(d.name == v.name)
	if (d.name == "U" || d.name == "*U") && (v.name == "i32" || v.name == "f32" || v.name == "*i32") {
		want = either // C19
	}
	vd := v.make("v")
	src := ""
	D := d.name
	in := func(body string) { src = typePre + "func f() {\n" + vd + body + "\n}\n" + mainEnd }
	switch rt.Choose("place", 18) {
	case 16:
		in("ex(v);")
		src = "extern func ex(" + D + ", ..) i32;\n" + src
	case 17:
		in("ex(1, v, v, 2);")
		src = "extern func ex(i32, " + D + ", ..) i32;\n" + src
	case 0:
		in("x : " + D + " = v;")
	case 1:
		in(d.make("x") + "x = v;")
	case 2:
		in("g(v);")
		src += "func g(p " + D + ") { return; }\n"
	case 3:
		src = typePre + "func g() " + D + " {\n" + vd + "return v;\n}\n" + mainEnd
	case 4:
		in("x := @W{k: 1, w: v};")
		src = "struct W { k i32 w " + D + " }\n" + src
	case 5:
		in("x := [1]" + D + "{v};")
	case 6:
		in("x := @alloc(" + D + ", 3); x[1] = v;")
	case 7:
		in(d.make("y") + "x := @W{k: 1, w: y}; x.w = v;")
		src = "struct W { k i32 w " + D + " }\n" + src
	case 8:
		in(d.make("y") + "p := &y; *p = v;")
	case 9:
		in(d.make("y") + "a := 1; a, y = 2, v;")
	case 10:
		in("l := func() " + D + " {\n" + vd + "return v; };")
	case 11:
		in("l := func(p " + D + ") i32 { return 1; }; l(v);")
	case 12:
		in("x := :" + D + " { return v; };")
	case 13:
		in("q := @S{x: 1}; q.m(v);")
		src = src + "func m(s S, p " + D + ") { return; }\n"
	case 14:
		src = typePre + "func g() i32, " + D + " {\n" + vd + "return 1, v;\n}\n" + mainEnd
	case 15:
		in(d.make("y") + "x := @alloc(W, 1); x.w = v;")
		src = "struct W { k i32 w " + D + " }\n" + src
	}
	judged(src, want, "storing a "+v.name+" in a "+D)
}

var binOps = []string{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||"}

// wantBinary tells whether the operator is defined between the two types.
func wantBinary(op string, l, r ty) int {
	same := l.name == r.name
	switch op {
	case "<<", ">>":
		if r.is("fSUaFps") || l.is("fSUaFps") {
			return reject
		}
		if l.is("iu") && r.is("i") {
			return accept
		}
		return either
	case "==", "!=", "<", "<=", ">", ">=":
		return yes(same && l.is("iufbps"))
	case "&&", "||":
		if same && l.is("ps") {
			return either
		}
		return yes(same && l.is("iufb"))
	}
	if l.is("ps") && r.is("iub") && (op == "+" || op == "-") {
		if r.is("b") {
			return either
		}
		return accept
	}
	if !same || l.is("pSUaF") {
		return reject
	}
	if l.is("s") {
		return yes(op == "+")
	}
	if l.is("b") {
		return either
	}
	if l.is("f") {
		switch op {
		case "&", "|", "^":
			return reject
		case "%":
			return either
		}
	}
	return accept
}

// H_C07_binary: operators only take the types they are defined on.
func H_C07_binary() {
	l, r := chooseType("left"), chooseType("right")
	ops := binOps
	if rt.Tier() == 0 {
		ops = []string{"+", "-", "%", "&", "<<", "==", "<", "&&"}
	}
	op := ops[rt.Choose("operator", len(ops))]
	body := l.make("v") + r.make("w")
	body += "x := v " + op + " w;"
	judged(typePre+"func f() {\n"+body+"\n}\n"+mainEnd, wantBinary(op, l, r), l.name+" "+op+" "+r.name)
}

// H_C07_prefix: prefix operators only take the types they are defined on, and
// ++ and -- a place.
func H_C07_prefix() {
	t := chooseType("type")
	op := []string{"-", "+", "!", "*", "&", "++", "--"}[rt.Choose("operator", 7)]
	want := reject
	switch op {
	case "-", "+":
		want = yes(t.is("iuf"))
		if t.is("b") || t.is("u") && op == "-" {
			want = either
		}
	case "!":
		want = yes(t.is("iufb"))
		if t.is("ps") {
			want = either
		}
	case "*":
		want = yes(t.is("ps"))
	case "&":
		want = accept
	case "++", "--":
		want = yes(t.is("iuf"))
		if t.is("b") {
			want = either
		}
	}
	body := t.make("v") + "x := " + op + "v;"
	judged(typePre+"func f() {\n"+body+"\n}\n"+mainEnd, want, op+" of a "+t.name)
}

// H_C07_cast: numbers and pointers can be cast to each other, structs, unions,
// functions and what they don't convert to can't.
func H_C07_cast() {
	from, to := chooseType("from"), chooseType("to")
	want := either
	switch {
	case from.is("iufb") && to.is("iufb"):
		want = accept
	case from.is("ps") && to.is("ps"):
		want = accept
	case from.is("ps") && to.is("iu") || from.is("iu") && to.is("ps"):
		want = accept
	case from.is("SUF") || to.is("SUF"):
		want = reject
		if from.name == to.name {
			want = either
		}
	case from.is("a") && to.is("iufb") || to.is("a") && from.is("iufb"):
		want = reject
	}
	e := "v as " + to.name
	if rt.Choose("form", 2) == 1 {
		e = "@cast(" + to.name + ", v)"
	}
	judged(typePre+"func f() {\n"+from.make("v")+"x := "+e+";\n}\n"+mainEnd, want, "casting a "+from.name+" to a "+to.name)
}

// H_C07_use: what a value of each type can be used for.
func H_C07_use() {
	t := chooseType("type")
	want := reject
	body := ""
	switch rt.Choose("use", 22) {
	case 0:
		body = "x := @alloc(i32, v);"
		want = yes(t.is("iu"))
		if t.is("b") {
			want = either
		}
	case 1:
		body = "y := @alloc(i32, 1); x := @realloc(y, v);"
		want = yes(t.is("i"))
		if t.is("ub") {
			want = either
		}
	case 2:
		body = "x := @realloc(v, 2);"
		want = yes(t.is("ps"))
	case 3:
		body = "@free(v);"
		want = yes(t.is("ps"))
	case 4:
		body = "@print(v);"
		want = accept
		if t.is("SUaF") {
			want = either
		}
	case 5:
		body = "y := [2]i32{1, 2}; x := y[v];"
		want = yes(t.is("iu"))
		if t.is("b") {
			want = either
		}
	case 6:
		body = "x := v[0];"
		want = yes(t.is("psa"))
	case 7:
		body = "x := v(1);"
		want = yes(t.name == "func(i32) i32" || t.name == "func(i32) i64")
		if t.name == "func(i32)" {
			want = either
		}
	case 8:
		body = "x := v();"
		want = yes(t.name == "func() i32")
	case 9:
		body = "x := v.x;"
		want = yes(t.is("S") || t.name == "*S" || t.name == "*T")
	case 10:
		body = "x := v.a;"
		want = yes(t.is("U") || t.name == "*U")
	case 11:
		body = "x := v.zz;"
	case 12:
		body = "if v { x := 1; }"
		want = yes(t.is("iufb"))
		if t.is("ps") {
			want = either
		}
	case 13:
		body = "if 1 == 2 { x := 1; } else if v { x := 1; }"
		want = yes(t.is("iufb"))
		if t.is("ps") {
			want = either
		}
	case 14:
		body = "for v { break; }"
		want = yes(t.is("iufb"))
		if t.is("ps") {
			want = either
		}
	case 15:
		body = "switch v { case 1 { x := 1; } }"
		want = yes(t.name == "i32")
	case 16:
		body = "y := 1; y = 2; x := y + v.x;"
		want = yes(t.is("S") || t.name == "*S" || t.name == "*T")
	case 17:
		body = "v.x = 3;"
		want = yes(t.is("S") || t.name == "*S" || t.name == "*T")
	case 18:
		body = "v[0] = v[1];"
		want = yes(t.is("psa"))
	case 19:
		body = "x := v + fe(1);"
	case 20:
		body = "x := v + (v, 1);"
	case 21:
		body = "v(1, 2, 3);"
	}
	judged(typePre+"func f() {\n"+t.make("v")+body+"\n}\n"+mainEnd, want, "use of a "+t.name)
}

// H_C07_void: a function without a result has no value.
func H_C07_void() {
	e := []string{"fe(1)", "@print(1)", "@free(&n)", "lam()", "s.vm()", "(fe(1))", "mk()(1)"}[rt.Choose("void", 7)]
	use := rt.Choose("use", 24)
	body := []string{
		"x := #;", "x : i32 = #;", "n = #;", "@print(#);", "n = n + #;", "n = # + #;", "x := # == #;", "n = -#;", "x := !#;", "x := &#;",
		"x := *#;", "if # { n = 1; }", "for # { break; }", "switch # { case 1 { n = 1; } }", "x := # as i32;", "x := a[#];", "a[0] = #;", "x := @alloc(i32, #);",
		"return #;", "n = fa(#);", "x := [1]i32{#};", "x := @S{x: #};", "n, a[0] = 1, #;", "x, y := 1, #;"}[use]
	body = strings.ReplaceAll(body, "#", e)
	src := typePre + "func vm(s S) { return; }\nfunc mk() func(i32) { return fe; }\nfunc g() i32 {\nn := 1; a := [2]i32{1, 2}; s := @S{x: 1}; lam := func() { return; };\n" + body + "\nreturn 1;\n}\n" + mainEnd
	judged(src, reject, "use of a value that a call doesn't have")
}

// H_C07_count: a call passes as many arguments as there are parameters.
func H_C07_count() {
	n, m := rt.Choose("parameters", 4), rt.Choose("arguments", 5)
	ps, as, ts := "", "", ""
	for i := 0; i < n; i++ {
		if i > 0 {
			ps, ts = ps+", ", ts+", "
		}
		ps += "p" + string(rune('0'+i)) + " i32"
		ts += "i32"
	}
	for i := 0; i < m; i++ {
		if i > 0 {
			as += ", "
		}
		as += "1"
	}
	src := "struct W { w func(" + ts + ") i32 }\nfunc g(" + ps + ") i32 { return 1; }\nfunc h(k i32"
	if n > 0 {
		src += ", "
	}
	src += ps + ") i32 { return 1; }\nfunc mk() func(" + ts + ") i32 { return g; }\n"
	call := ""
	want := yes(n == m)
	switch rt.Choose("call", 9) {
	case 7:
		if n == 0 {
			return
		}
		src = "extern func ex(" + ts + ", ..) i32;\n" + src
		call = "ex(" + as + ")"
		want = yes(m >= n)
	case 8:
		if n == 0 {
			return
		}
		src = "extern func ex(" + ts + ", ..) i32;\n" + src
		call = "q := ex;\nx := q(" + as + ")"
		want = either
	case 0:
		call = "g(" + as + ")"
	case 1:
		call = "l := func(" + ps + ") i32 { return 1; };\nx := l(" + as + ")"
	case 2:
		call = "w := @W{w: g};\nx := w.w(" + as + ")"
	case 3:
		call = "mk()(" + as + ")"
	case 4:
		call = "k := 1;\nx := k.h(" + as + ")"
	case 5:
		call = "q := g;\nx := q(" + as + ")"
	case 6:
		src = "extern func ex(" + ts + ") i32;\n" + src
		call = "ex(" + as + ")"
	}
	judged(src+"func f() {\n"+call+";\n}\n"+mainEnd, want, "a call")
}

// word is n bytes of an identifier.
func word(what string, n int) string {
	w := rt.Bytes(what, n)
	for _, c := range w {
		rt.Assume(rt.Or(rt.Or(rt.And(c >= 'a', c <= 'z'), rt.And(c >= 'A', c <= 'Z')), rt.Or(rt.And(c >= '0', c <= '9'), c == '_')))
	}
	return string(w)
}

// H_C07_typename: the type that is written is the type that is meant, for every
// name.
func H_C07_typename() {
	known := []ty{types[0], types[1], types[2], types[3], types[4], types[6], types[7], types[8], types[9], types[17], types[18], types[21]}
	t := known[rt.Choose("type", len(known))]
	w := word("name", len(t.name))
	set := t.make("v")
	src := ""
	switch rt.Choose("place", 5) {
	case 0:
		src = "func f() {\n" + set + "x : " + w + " = v;\n}\n"
	case 1:
		src = "func g(p " + w + ") { return; }\nfunc f() {\n" + set + "g(v);\n}\n"
	case 2:
		src = "func g() " + w + " {\n" + set + "return v;\n}\n"
	case 3:
		src = "struct W { w " + w + " }\nfunc f() {\n" + set + "x := @W{w: v};\n}\n"
	case 4:
		src = "func f() {\n" + set + "x : *" + w + " = &v;\n}\n"
	}
	judged(typePre+src+mainEnd, yes(w == t.name), "a type")
}

// number says whether a word names a type of numbers.
func number(w string) bool {
	for _, n := range []string{"i1", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64"} {
		if w == n {
			return true
		}
	}
	return false
}

// H_C07_pair: a value of one type goes to a place of another exactly if the
// names of the two types are the same, for every pair of names.
func H_C07_pair() {
	l := word("left", 2+rt.Choose("left bytes", 2))
	r := word("right", 2+rt.Choose("right bytes", 2))
	rt.Assume(number(l))
	set := "x := 1 as " + l + ";\n"
	src := ""
	switch rt.Choose("place", 9) {
	case 0:
		src = "func f() {\n" + set + "y : " + r + " = x;\n}\n"
	case 1:
		src = "func g(p " + r + ") { return; }\nfunc f() {\n" + set + "g(x);\n}\n"
	case 2:
		src = "func g() " + r + " {\n" + set + "return x;\n}\n"
	case 3:
		src = "struct W { w " + r + " }\nfunc f() {\n" + set + "y := @W{w: x};\n}\n"
	case 4:
		src = "func f() {\n" + set + "y : *" + r + " = &x;\n}\n"
	case 5:
		src = "func f() {\n" + set + "y := 1 as " + r + ";\n y = x;\n}\n"
	case 6:
		src = "func f() {\n" + set + "y := [1]" + r + "{x};\n}\n"
	case 7:
		src = "func f() {\n" + set + "y := 1 as " + r + ";\n z := x + y;\n}\n"
		if l == "i1" {
			// + of i1 is rejected anyhow
			rt.Assume(l != r)
		}
	case 8:
		src = "func g(p func(" + r + ") i32) { return; }\nfunc h(p " + l + ") i32 { return 1; }\nfunc f() {\ng(h);\n}\n"
	}
	judged(src+mainEnd, yes(l == r), "two types")
}

// digits is a number of n digits whose first isn't 0, every one of them.
func digits(what string, n int) string {
	w := rt.Bytes(what, n)
	for i, c := range w {
		rt.Assume(rt.And(c >= '0', c <= '9'))
		if i == 0 {
			rt.Assume(c != '0')
		}
	}
	return string(w)
}

// H_C07_length: arrays have the same type exactly if they have as many elements.
func H_C07_length() {
	n := 1 + rt.Choose("digits of the first", 2)
	m := 1 + rt.Choose("digits of the second", 2)
	l, r := digits("first", n), digits("second", m)
	src := ""
	switch rt.Choose("place", 5) {
	case 0:
		src = "func f() {\nx := [" + l + "]i32{1};\ny : [" + r + "]i32 = x;\n}\n"
	case 1:
		src = "func g(p [" + r + "]i32) { return; }\nfunc f() {\nx := [" + l + "]i32{1};\ng(x);\n}\n"
	case 2:
		src = "struct W { w [" + r + "]i32 }\nfunc f() {\nx := [" + l + "]i32{1};\ny := @W{w: x};\n}\n"
	case 3:
		src = "func f() {\nx := [" + l + "]i32{1};\ny : *[" + r + "]i32 = &x;\n}\n"
	case 4:
		src = "func f() {\nx := [" + l + "]i32{1};\ny := [" + r + "]i32{2};\ny = x;\n}\n"
	}
	judged(src+mainEnd, yes(l == r), "the lengths of two arrays")
}

// twoTypes writes two types that are the same but for one part of them.
func twoTypes(depth int, same bool) (string, string, bool) {
	if same {
		t := anyType(depth)
		return t, t, true
	}
	n := 6
	if depth == 0 {
		n = 1
	}
	switch rt.Choose("what differs", n) {
	case 1:
		a, b, eq := twoTypes(depth-1, false)
		return "*" + a, "*" + b, eq
	case 2:
		l := digits("length", 1)
		a, b, eq := twoTypes(depth-1, false)
		return "[" + l + "]" + a, "[" + l + "]" + b, eq
	case 3:
		l, m := digits("length", 1), digits("other length", 1)
		t := anyType(depth)
		return "[" + l + "]" + t, "[" + m + "]" + t, l == m
	case 4:
		// a parameter
		a, b, eq := twoTypes(depth-1, false)
		before, after := "", ""
		if rt.Choose("before", 2) == 1 {
			before = "i64, "
		}
		if rt.Choose("after", 2) == 1 {
			after = ", i64"
		}
		end := ")" + []string{"", " i32", " *S"}[rt.Choose("result", 3)]
		return "func(" + before + a + after + end, "func(" + before + b + after + end, eq
	case 5:
		a, b, eq := twoTypes(depth-1, false)
		p := []string{"", "i32", "i32, S"}[rt.Choose("parameters", 3)]
		return "func(" + p + ") " + a, "func(" + p + ") " + b, eq
	}
	a, b := anyType(depth), anyType(depth)
	return a, b, a == b
}

func anyType(depth int) string {
	n := 15
	if depth == 0 {
		n = 8
	}
	switch k := rt.Choose("type", n); k {
	case 8:
		return "*" + anyType(depth-1)
	case 9:
		return "[2]" + anyType(depth-1)
	case 10:
		return "func()"
	case 11:
		return "func() " + anyType(depth-1)
	case 12:
		return "func(" + anyType(depth-1) + ")"
	case 13:
		return "func(i32, " + anyType(depth-1) + ")"
	case 14:
		return "func(" + anyType(depth-1) + ") i32"
	default:
		return []string{"i32", "i64", "f32", "S", "T", "*S", "*i64", "[2]T"}[k]
	}
}

// H_C07_structure: types are the same exactly if they are written the same, at
// any depth.
func H_C07_structure() {
	a, b, eq := twoTypes(1, false)
	src := ""
	switch rt.Choose("place", 3+3*rt.Tier()) {
	case 0:
		src = "func g(p " + b + ") { return; }\nfunc f(x " + a + ") {\ng(x);\n}\n"
	case 1:
		src = "func g(p *" + b + ") { return; }\nfunc f(x " + a + ") {\ng(&x);\n}\n"
	case 2:
		src = "func f(h func(i32, " + a + ") " + a + ", g func(i32, " + b + ") " + b + ") {\nh = g;\n}\n"
	case 3:
		src = "func f(x " + a + ") " + b + " {\nreturn x;\n}\n"
	case 4:
		src = "func f(x [3]" + a + ", y [3]" + b + ") {\nx = y;\n}\n"
	case 5:
		src = "struct W { w " + b + " }\nfunc f(x " + a + ") {\ny := @W{w: x};\n}\n"
	}
	judged("struct S { x i32 }\nstruct T { x i32 }\n"+src+mainEnd, yes(eq), "two types")
}

func list(n int, one func(int) string) string {
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ", "
		}
		s += one(i)
	}
	return s
}

// H_C07_number: as many names as values, as many values as results, and no more
// elements than an array has.
func H_C07_number() {
	n, m := 1+rt.Choose("n", 4), 1+rt.Choose("m", 4)
	name := func(i int) string { return "x" + string(rune('0'+i)) }
	i32 := func(int) string { return "i32" }
	one := func(int) string { return "1" }
	pre, set := "", ""
	for i := 0; i < n; i++ {
		set += name(i) + " := 1;\n"
	}
	body := ""
	want := n == m
	switch rt.Choose("place", 9) {
	case 0:
		body = list(n, name) + " := " + list(m, one) + ";"
	case 1:
		body = list(n, name) + " := h();"
		pre = "func h() " + list(m, i32) + " { return " + list(m, one) + "; }\n"
	case 2:
		body = set + list(n, name) + " = " + list(m, one) + ";"
	case 3:
		body = set + list(n, name) + " = h();"
		pre = "func h() " + list(m, i32) + " { return " + list(m, one) + "; }\n"
	case 4:
		pre = "func h() " + list(n, i32) + " { return " + list(m, one) + "; }\n"
	case 5:
		pre = "func h() " + list(n, i32) + " { return " + list(n, one) + "; }\nfunc g() " + list(m, i32) + " { return h(); }\n"
	case 6:
		body = "x := [" + string(rune('0'+n)) + "]i32{" + list(m, one) + "};"
		want = m <= n
	case 7:
		body = "x := [2][" + string(rune('0'+n)) + "]i32{[" + string(rune('0'+n)) + "]i32{" + list(m, one) + "}};"
		want = m <= n
	case 8:
		body = "const " + list(n, name) + " := " + list(m, one) + ";"
	}
	judged(pre+"func f() {\n"+body+"\n}\n"+mainEnd, yes(want), "a list of values")
}

// H_C07_several: several values are no value.
func H_C07_several() {
	e := []string{"two()", "(1, 2)", "lam()", "s.st()", "al()", "1, 2"}[rt.Choose("values", 6)]
	body := []string{
		"x := #;", "x : i32 = #;", "n = #;", "@print(#);", "n = n + #;", "n = # + #;", "x := # == #;", "n = -(#);", "x := !(#);", "x := &(#);",
		"x := *(#);", "if # { n = 1; }", "for # { break; }", "switch # { case 1 { n = 1; } }", "x := (#) as i32;", "x := a[#];", "a[0] = #;", "x := @alloc(i32, #);",
		"return #;", "n = fa(#);", "x := [1]i32{#};", "x := @S{x: #};", "n, a[0] = 1, #;", "x := (#).x;", "x := (#)[0];", "@free(#);", "x := (#)(1);", "x := : i32 { return #; };", "fd(#);",
	}[rt.Choose("use", 29)]
	want := reject
	if e == "1, 2" {
		switch body {
		case "@print(#);", "fd(#);":
			want = accept
		}
	}
	body = strings.ReplaceAll(body, "#", e)
	src := typePre + "func two() i32, i32 { return 1, 2; }\nfunc st(s S) i32, i32 { return 1, 2; }\nfunc g() i32 {\nal := two; n := 1; a := [2]i32{1, 2}; s := @S{x: 1}; lam := func() i32, i32 { return 1, 2; };\n" + body + "\nreturn 1;\n}\n" + mainEnd
	judged(src, want, "several values where one is expected")
}
