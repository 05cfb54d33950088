package cg

import (
	"github.com/gabivlj/candice/internals/verifh/irx"
	"github.com/gabivlj/candice/internals/verifh/pipe"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// result compiles the program and gives the integer its main returns.
func resultOf(src string) (stage string, out int64) {
	rt.Log("src", src)
	r := pipe.Compile(src)
	for _, e := range r.Errs {
		rt.Log("diagnostic", e.Error())
	}
	if r.Stage != "compiled" {
		return r.Stage, 0
	}
	e := irx.Check(r.M)
	rt.Log("ir", e)
	rt.Assert(e == "", "the IR is well-formed")
	v, trap := irx.New(r.M).Run("main")
	rt.Log("trap", trap)
	rt.Assert(trap == "", "the program runs")
	return r.Stage, v.Signed()
}

// letter is any name of one lower case letter.
func letter(what string) string {
	b := rt.Byte(what)
	rt.Assume(rt.And(b >= 'a', b <= 'z'))
	return string([]byte{b})
}

// scopes follows the variables that can be seen.
type scopes struct {
	src   string
	names []string
	cells []int
	vals  []int64
	marks []int
}

func (s *scopes) declare(name string, v int64) {
	s.names = append(s.names, name)
	s.cells = append(s.cells, len(s.vals))
	s.vals = append(s.vals, v)
}
func (s *scopes) open() { s.marks = append(s.marks, len(s.names)) }
func (s *scopes) close() {
	n := s.marks[len(s.marks)-1]
	s.marks = s.marks[:len(s.marks)-1]
	s.names, s.cells = s.names[:n], s.cells[:n]
}

// find gives the cell of the variable the name means, or -1.
func (s *scopes) find(name string) int {
	for i := len(s.names) - 1; i >= 0; i-- {
		if s.names[i] == name {
			return s.cells[i]
		}
	}
	return -1
}

// The containers a scope is written as: what is before it, the beginning, the
// end, and whether variables are copied at its beginning.
var containers = []struct {
	before, open, close string
	inner               string // how N3 is declared by the container itself ("" if it isn't)
}{
	{"", "{\n", "}\n", ""},
	{"", "if 1 == 1 {\n", "}\n", ""},
	{"", "if 1 == 2 { oo = 50; } else {\n", "}\n", ""},
	{"", "if 1 == 2 { oo = 50; } else if 2 == 2 {\n", "}\n", ""},
	{"", "for {\n", "break;\n}\n", ""},
	{"", "for ii := 0; ii < 1; ++ii {\n", "}\n", ""},
	{"", "for # := 13; # < 14; ++# {\n", "}\n", "13"},
	{"", "switch 1 { case 1 {\n", "} default { oo = 50; } }\n", ""},
	{"", "switch 1 { case 2 { oo = 50; } default {\n", "} }\n", ""},
	{"", "jj := : i32 {\n", "return 1;\n};\n", ""},
	{"", "ff := func(kk i32) {\n", "return;\n};\nff(1);\n", ""},
	{"", "ff := func(# i32) {\n", "return;\n};\nff(13);\n", "13"},
	{"", "for { for kk := 0; kk < 1; ++kk {\n", "}\nbreak;\n}\n", ""},
	{"", "if 1 == 1 {{\n", "}}\n", ""},
}

// H_C08_scope: a name means the innermost, latest variable of that name that is
// visible where it is used, for all names of the variables and all kinds of
// scopes; names that mean nothing are rejected.
func H_C08_scope() {
	n := make([]string, 5)
	c := containers[rt.Choose("container", len(containers))]
	use := rt.Choose("use at", 7)
	for i := range n {
		n[i] = letter("name")
	}
	u := letter("use")
	write := rt.Choose("write", 2) == 1
	if use < 5 && rt.Tier() == 0 {
		// the last variable isn't declared yet
		n[4] = "zz"
	}
	if write {
		// a variable that is copied isn't assigned
		if c.open[:2] == "ff" {
			return
		}
	}
	s := &scopes{}
	found := true
	out := int64(7)
	wrote := -1
	at := func(k int) {
		if k != use {
			return
		}
		f := s.find(u)
		if f < 0 {
			found = false
			f = 0
			s.src += "oo = " + u + ";\n"
			return
		}
		if write {
			s.src += u + " = 99;\n"
			s.vals[f] = 99
			wrote = f
			return
		}
		s.src += "oo = " + u + ";\n"
		out = s.vals[f]
	}
	// what was written is seen by the name that means the same variable
	check := func(name string) {
		if f := s.find(name); f >= 0 && found && write && wrote >= 0 {
			s.src += "oo = oo * 3 + " + name + ";\n"
			out = out*3 + s.vals[f]
		}
	}
	s.src = n[0] + " := 10;\noo := 7;\nfunc fun(" + n[1] + " i32) {\n"
	s.declare(n[0], 10)
	s.open()
	s.declare(n[1], 11)
	at(0)
	s.src += n[2] + " := 12;\n"
	s.declare(n[2], 12)
	at(1)
	s.open()
	for i := 0; i < len(c.open); i++ {
		if c.open[i] == '#' {
			s.src += n[3]
		} else {
			s.src += c.open[i : i+1]
		}
	}
	if c.inner != "" {
		s.declare(n[3], 13)
	} else {
		at(2)
		s.src += n[3] + " := 13;\n"
		s.declare(n[3], 13)
	}
	at(3)
	check(n[3])
	check(n[2])
	s.close()
	s.src += c.close
	at(4)
	check(n[3])
	if use == 5 && !write {
		// the variable isn't visible in its own value
		if f := s.find(u); f >= 0 {
			s.src += n[4] + " := " + u + " + 1;\noo = " + n[4] + ";\n"
			out = s.vals[f] + 1
			s.declare(n[4], out)
		} else {
			found = false
			s.src += n[4] + " := " + u + ";\n"
		}
	} else {
		s.src += n[4] + " := 14;\n"
		s.declare(n[4], 14)
		at(6)
	}
	check(n[4])
	check(n[2])
	check(n[1])
	s.src += "return;\n}\nfunc main() i32 { fun(11); return oo; }\n"
	if c.inner != "" && (use == 2) {
		return
	}
	stage, got := resultOf(s.src)
	if !found {
		rt.Assert(stage == "semantic", "a name that isn't declared is rejected")
	} else {
		rt.Assert(stage == "compiled", "names that are declared are accepted")
		rt.Assert(got == out, "a name means the innermost latest variable of its name")
	}
	rt.Cover("end")
}

// H_C08_function: calls reach the function or the variable of their name that
// is visible, functions are known before their declaration, and only one can
// be declared with each name.
func H_C08_function() {
	a, b := letter("first function"), letter("second function")
	v := letter("variable")
	u := letter("call")
	place := rt.Choose("variable", 5)
	order := rt.Choose("order", 3)
	A := "func " + a + "() i32 { return 1; }\n"
	B := "func " + b + "() i32 { return 2; }\n"
	three := "func three() i32 { return 3; }\n"
	main := ""
	mainBody := "return " + u + "();"
	want := int64(0) // rejected
	if u == b {
		want = 2
	}
	if u == a {
		want = 1
	}
	switch place {
	case 0: // a local variable
		main = "func main() i32 { " + v + " := three; " + mainBody + " }\n"
		if u == v {
			want = 3
		}
	case 1: // a parameter
		main = "func call(" + v + " func() i32) i32 { " + mainBody + " }\nfunc main() i32 { return call(three); }\n"
		if u == v {
			want = 3
		}
	case 2: // a variable of another scope
		main = "func main() i32 { { " + v + " := three; } " + mainBody + " }\n"
	case 3: // a number isn't called
		main = "func main() i32 { " + v + " := 4; " + mainBody + " }\n"
		if u == v {
			want = 0
		}
	case 4: // a global
		main = v + " := three;\nfunc main() i32 { " + mainBody + " }\n"
		if u == v {
			want = 3
		}
		if v == a || v == b {
			want = 0
		}
	}
	if a == b {
		want = 0
	}
	src := ""
	switch order {
	case 0:
		src = A + B + three + main
	case 1:
		if place == 4 {
			return
		}
		src = main + B + A + three
	case 2:
		src = B + three + main + A
		if place == 4 {
			// (a value is needed before it is declared)
			src = three + B + main + A
		}
	}
	stage, got := resultOf(src)
	if want == 0 {
		rt.Assert(stage == "semantic", "calls of names that are no function, and functions of the same name, are rejected")
	} else {
		rt.Assert(stage == "compiled", "calls of visible functions are accepted")
		rt.Assert(got == want, "a call reaches the function of its name")
	}
	rt.Cover("end")
}

// H_C08_field: a field is the one of that name, wherever it is named; names that
// aren't fields and fields of the same name are rejected.
func H_C08_field() {
	n := []string{letter("first"), letter("second"), letter("third")}
	u := letter("use")
	w := letter("other use")
	// some of the names are longer
	switch rt.Choose("longer", 4) {
	case 1:
		n[0] += "l"
		u += "l"
	case 2:
		n[1] += digits("digit", 1)
		w += digits("digit", 1)
	case 3:
		n[2] = "l" + n[2]
		n[1] = "l" + n[1]
		u = "l" + u
	}
	find := func(name string) int {
		for i := range n {
			if n[i] == name {
				return i
			}
		}
		return -1
	}
	fu, fw := find(u), find(w)
	ok := n[0] != n[1] && n[0] != n[2] && n[1] != n[2] && fu >= 0 && fw >= 0
	src := "struct S { " + n[0] + " i32 " + n[1] + " i32 " + n[2] + " i32 }\n"
	s := "s := @S{" + n[0] + ": 1, " + n[1] + ": 2, " + n[2] + ": 3};\n"
	out := int64(0)
	v := []int64{1, 2, 3}
	get := func(p string) string {
		return p + "." + n[0] + " * 100 + " + p + "." + n[1] + " * 10 + " + p + "." + n[2]
	}
	body := ""
	switch rt.Choose("use", 7) {
	case 0:
		body = s + "return s." + u + " * 10 + s." + w + ";"
		if ok {
			out = v[fu]*10 + v[fw]
		}
	case 1:
		body = s + "s." + u + " = 7; s." + w + " = s." + w + " + 1; return " + get("s") + ";"
		if ok {
			v[fu] = 7
			v[fw]++
			out = v[0]*100 + v[1]*10 + v[2]
		}
	case 2:
		body = s + "p := &s; p." + u + " = 7; ++p." + w + "; return " + get("s") + ";"
		if ok {
			v[fu] = 7
			v[fw]++
			out = v[0]*100 + v[1]*10 + v[2]
		}
	case 3:
		body = s + "q := &s." + u + "; *q = 8; return " + get("s") + ";"
		w, fw = n[0], 0
		ok = n[0] != n[1] && n[0] != n[2] && n[1] != n[2] && fu >= 0
		if ok {
			v[fu] = 8
			out = v[0]*100 + v[1]*10 + v[2]
		}
	case 4:
		// fields are given in any order
		body = "s := @S{" + n[2] + ": 3, " + u + ": 4, " + w + ": 5};\nreturn s." + n[2] + " * 10 + s." + w + ";"
		if ok {
			ok = fu != fw && fu != 2 && fw != 2
			out = 35
			if !ok {
				// what a field that is given more than once means is not defined
				return
			}
		}
	case 5:
		body = s + "s." + u + ", s." + w + " = s." + w + ", s." + u + "; return " + get("s") + ";"
		if ok {
			v[fu], v[fw] = v[fw], v[fu]
			out = v[0]*100 + v[1]*10 + v[2]
		}
	case 6:
		src += "struct T { " + u + " S " + n[1] + "x S }\n"
		body = "t := @T{" + u + ": @S{" + n[0] + ": 1, " + n[1] + ": 2, " + n[2] + ": 3}, " + n[1] + "x: @S{" + n[0] + ": 4, " + n[1] + ": 5, " + n[2] + ": 6}};\nreturn t." + w + "." + w + " * 10 + t." + n[1] + "x." + w + ";"
		ok = n[0] != n[1] && n[0] != n[2] && n[1] != n[2] && u == w && fw >= 0
		if ok {
			out = v[fw]*10 + v[fw] + 3
		}
	}
	stage, got := resultOf(src + "func main() i32 {\n" + body + "\n}\n")
	if !ok {
		rt.Assert(stage == "semantic", "names that aren't fields, and fields of the same name, are rejected")
	} else {
		rt.Assert(stage == "compiled", "fields are accepted")
		rt.Assert(got == out, "a field is the one of its name")
	}
	rt.Cover("end")
}

// H_C08_type: a type is the one of that name.
func H_C08_type() {
	a, b, c := letter("first"), letter("second"), letter("alias")
	u := letter("use")
	order := rt.Choose("order", 2)
	A, B := "struct "+a+" { x i32 }\n", "struct "+b+" { y i32 }\n"
	C := "type " + c + " = i64;\n"
	kind := rt.Choose("use", 6)
	ok := a != b && a != c && b != c && u == a
	src := ""
	switch kind {
	case 0:
		src = "func main() i32 { s := @" + u + "{x: 5}; return s.x; }\n"
	case 1:
		src = "func f(s " + u + ") i32 { return s.x; }\nfunc main() i32 { s := @" + a + "{x: 5}; return f(s); }\n"
	case 2:
		src = "func f() " + u + " { return @" + a + "{x: 5}; }\nfunc main() i32 { return f().x; }\n"
	case 3:
		src = "struct W { w *" + u + " }\nfunc main() i32 { s := @" + a + "{x: 5}; t := @W{w: &s}; return t.w.x; }\n"
	case 4:
		src = "func main() i32 { s := [2]" + u + "{@" + a + "{x: 5}, @" + a + "{x: 6}}; return s[0].x; }\n"
	case 5:
		ok = a != b && a != c && b != c && u == c
		src = "func main() i32 { s : " + u + " = 5 as i64; return s as i32; }\n"
	}
	if order == 0 {
		src = A + B + C + src
	} else {
		src = C + src + B + A
	}
	stage, got := resultOf(src)
	if !ok {
		rt.Assert(stage == "semantic", "names that aren't the type, and types of the same name, are rejected")
	} else {
		rt.Assert(stage == "compiled", "types are accepted")
		rt.Assert(got == 5, "a type is the one of its name")
	}
	rt.Cover("end")
}

var keywords = []string{"if", "else", "for", "func", "struct", "union", "return", "break", "continue", "switch", "case", "default", "const", "as", "extern", "pub", "import", "type", "true", "false", "bool"}

// H_C08_any: everything can have any name that is an identifier, and works the
// same whatever the name is.
func H_C08_any() {
	kind := rt.Choose("kind", 12)
	w := ""
	switch n := rt.Choose("bytes", 4+rt.Tier()*2); n {
	case 0, 1, 4, 5:
		w = word("name", 1+n-n/4*2)
		rt.Assume(rt.Or(w[0] < '0', w[0] > '9'))
	case 2:
		w = "main"
	case 3:
		w = keywords[rt.Choose("keyword", len(keywords))] + word("end", 1)
	}
	for _, k := range keywords {
		if w == k {
			return
		}
	}
	if w == "main" && (kind == 1 || kind == 3 || kind == 6) {
		return // main is declared
	}
	src := ""
	switch kind {
	case 0:
		src = "func main() i32 { # := 5; { # = # - 1; ++#; } return #; }"
	case 1:
		src = "# := 4; func main() i32 { # = # + 1; return #; }"
	case 2:
		src = "func f(# i32) i32 { # = # + 2; return #; } func main() i32 { return f(3); }"
	case 3:
		src = "func #(xxx i32) i32 { if xxx == 0 return 5; return #(xxx - 1); } func main() i32 { return #(3); }"
	case 4:
		src = "struct S { aaa i8 # i32 bbb i8 } func main() i32 { s := @S{#: 4, bbb: 1 as i8}; s.# = s.# + 1; return s.#; }"
	case 5:
		for _, t := range []string{"i1", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "void"} {
			if w == t {
				return
			}
		}
		if len(w) > 1 && (w[0] == 'i' || w[0] == 'u') {
			// other names of integer types
			digits := true
			for _, c := range w[1:] {
				digits = digits && c >= '0' && c <= '9'
			}
			if digits {
				return
			}
		}
		src = "struct # { a i8 x i32 } func f(p *#) i32 { return p.x; } func main() i32 { s := @#{x: 5}; t : # = s; return f(&t); }"
	case 6:
		src = "const # := 5; func main() i32 { return #; }"
	case 7:
		src = "func main() i32 { # := 5; f := func(xxx i32) i32 { return # + xxx; }; return f(0); }"
	case 8:
		src = "union U { # i32 bbb i8 } func main() i32 { u : U = 5; return u.#; }"
	case 9:
		src = "func main() i32 { for # := 3; # < 5; ++# { if # == 9 { break; } } #, bbb := 5, 1; #, bbb = #, #; return bbb; }"
	case 10:
		src = "func #2(x i32) i32 { return x; } func main() i32 { # := 5; return #.#2(); }"
	case 11:
		src = "func main() i32 { # := [2]i32{4, 5}; p := &#[1]; return *p; }"
	}
	out := ""
	for i := 0; i < len(src); i++ {
		if src[i] == '#' {
			out += w
		} else {
			out += src[i : i+1]
		}
	}
	stage, got := resultOf(out + "\n")
	rt.Assert(stage == "compiled", "every identifier is a name")
	rt.Assert(got == 5, "the name doesn't change what the program does")
	rt.Cover("end")
}
