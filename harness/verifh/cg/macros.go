package cg

import (
	"strings"

	rt "github.com/gabivlj/candice/internals/verifrt"
)

// conditions are the names that #if knows and whether they hold on the machine
// of the compiler.
var conditions = []struct {
	name string
	on   bool
}{{"LINUX", true}, {"WINDOWS", false}, {"MACOS", false}, {"X64", true}, {"ARM64", false}, {"ARM", false}, {"ARM64BE", false}, {"ARMBE", false}, {"0", false}, {"1", true}, {"12", true}}

// condition is one of the first n conditions.
func condition(what string, n int) (string, bool) {
	c := conditions[rt.Choose(what, n)]
	return c.name, c.on
}

// macro judges a program with #if by what it says without it: out is its
// result, unless it's rejected.
func macro(src string, ok bool, out int64) {
	stage, got := resultOf(src)
	if !ok {
		rt.Assert(stage != "compiled", "the program is rejected")
	} else {
		rt.Assert(stage == "compiled", "the program is accepted")
		rt.Assert(got == out, "exactly the blocks of the #if that hold are part of the program")
	}
	rt.Cover("end")
}

// H_C23_name: a block is kept for the names of the machine, dropped for the ones
// of others, and any other name is an error.
func H_C23_name() {
	name := ""
	switch rt.Choose("name", 4) {
	case 0:
		name = conditions[rt.Choose("of", 8)].name
	case 1:
		name = identifier("name", 3)
	case 2:
		// one character different
		name = conditions[rt.Choose("of", 8)].name
		at := 1 + rt.Choose("at", len(name)-1)
		name = name[:at] + letterOf("letter") + name[at+1:]
	case 3:
		// one missing, or more
		name = conditions[rt.Choose("of", 8)].name
		switch rt.Choose("how", 3) {
		case 0:
			if name == "X64" {
				return
			}
			name = name[1:]
		case 1:
			name = name[:len(name)-1]
		case 2:
			name += letterOf("letter")
		}
	}
	known, on := false, false
	for _, c := range conditions[:8] {
		if name == c.name {
			known, on = true, c.on
		}
	}
	out := int64(1)
	src := ""
	switch rt.Choose("place", 3) {
	case 0:
		src = "func f() i32 { return 1; }\n#if " + name + " { func g() i32 { return 5; } x : i32 = 8; }\nfunc main() i32 { return f(); }"
	case 1:
		src = "func main() i32 { a := 1; #if " + name + " { a = 2; } return a; }"
		if on {
			out = 2
		}
	case 2:
		src = "#if " + name + " { func main() i32 { return 3; } }\n"
		if on {
			out = 3
		} else {
			src += "func main() i32 { return 1; }"
		}
	}
	macro(src, known, out)
}

// letterOf is any character of a name.
func letterOf(what string) string {
	b := rt.Bytes(what, 1)
	c := b[0]
	rt.Assume(rt.Or(rt.Or(rt.And(c >= 'a', c <= 'z'), rt.And(c >= 'A', c <= 'Z')), rt.Or(c == '_', rt.And(c >= '0', c <= '9'))))
	return string(b)
}

// anyDigits is any number of n digits.
func anyDigits(what string, n int) string {
	w := rt.Bytes(what, n)
	for _, c := range w {
		rt.Assume(rt.And(c >= '0', c <= '9'))
	}
	return string(w)
}

// H_C23_number: a number keeps the block exactly if it isn't zero.
func H_C23_number() {
	lit := ""
	on := false
	switch rt.Choose("base", 3) {
	case 0:
		lit = anyDigits("digit", 1+rt.Choose("digits", 4))
		for i := 0; i < len(lit); i++ {
			on = rt.Or(on, lit[i] != '0')
		}
	case 1:
		lit = "0x" + anyDigits("digit", 1+rt.Choose("digits", 3))
		for i := 2; i < len(lit); i++ {
			on = rt.Or(on, lit[i] != '0')
		}
	case 2:
		lit = []string{"2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615"}[rt.Choose("limit", 5)]
		on = true
	}
	out := int64(1)
	if on {
		out = 2
	}
	macro("func main() i32 { a := 1; #if "+lit+" { a = 2; } return a; }", true, out)
}

// H_C23_other: whatever else stands after #if is an error, both when it would
// hold and when not.
func H_C23_other() {
	list := []string{
		"x", "main", "true", "false", "LINUX && X64", "!WINDOWS", "LINUX == 1", "1 == 1", "-1", "1 + 1", "&LINUX", "*LINUX", "LINUX.X64", "LINUX()", "LINUX[0]", "LINUX as i1", "1 as i32", "@size(i32)",
		"\"LINUX\"", "1.5", "0.0", "linux", "Linux", "func() i32 { return 1; }", ": i32 { return 1; }", "[1]i32{1}", "@S{}", "@cast(i32, 1)", "", "LINUX X64", "LINUX, X64", "LINUX = 1", "if", "#if LINUX", "18446744073709551616", "=", ")", "}", ";",
	}
	e := list[rt.Choose("condition", len(list))]
	src := ""
	switch rt.Choose("place", 2) {
	case 0:
		src = "struct S { a i32 } x : i32 = 1; #if " + e + " { func f() i32 { return 1; } } func main() i32 { return x; }"
	case 1:
		src = "struct S { a i32 } func main() i32 { x := 1; #if " + e + " { x = 2; } return x; }"
	}
	macro(src, false, 0)
}

// H_C23_statement: a kept block is as good as its statements, and a dropped one
// is nothing, whatever the statements are.
func H_C23_statement() {
	d := declarations[rt.Choose("declaration", len(declarations))]
	// these don't end, aren't defined or aren't statements
	if d == "for { }" || d == "@unreachable();" || d == "func() i32 { return 1; };" || d == ";" {
		return
	}
	rt.DiagnosedExit(true)
	c, on := condition("condition", 2)
	rest := ""
	switch rt.Choose("rest", 3) {
	case 1:
		rest = "xx = 2;"
	case 2:
		rest = "zz := 2; xx = zz;"
	}
	bare := ""
	if on {
		bare = d
	}
	m := "#if " + c + " { " + d + " }"
	if rt.Choose("nested", 2) == 1 {
		c2, on2 := condition("condition of the outer", 2)
		m = "#if " + c2 + " { " + m + " }"
		if !on2 {
			bare = ""
		}
	}
	var place func(s string) string
	switch rt.Choose("place", 14) {
	case 0:
		if rest != "" {
			return
		}
		place = func(s string) string { return "xx := 1; " + s + " func main() i32 { return xx; }" }
	case 1:
		place = func(s string) string { return "func main() i32 { xx := 1; " + s + rest + " return xx; }" }
	case 2:
		place = func(s string) string { return "func main() i32 { xx := 1; { " + s + rest + " } return xx; }" }
	case 3:
		place = func(s string) string {
			return "func main() i32 { xx := 1; if xx == 1 { " + s + rest + " } else { " + s + " } return xx; }"
		}
	case 4:
		place = func(s string) string {
			return "func main() i32 { xx := 1; ii := 0; for ii < 2 { ++ii; " + s + rest + " } return xx + ii; }"
		}
	case 5:
		place = func(s string) string {
			return "func main() i32 { xx := 1; ff := func(yy i32) i32 { " + s + rest + " return xx; }; return ff(xx); }"
		}
	case 6:
		place = func(s string) string {
			return "func main() i32 { xx := 1; return : i32 { " + s + rest + " return xx; }; }"
		}
	case 7:
		place = func(s string) string {
			return "func main() i32 { xx := 1; switch xx { case 1 { " + s + rest + " } default { " + s + " } } return xx; }"
		}
	case 8:
		// what the block says is the last statement of the function
		place = func(s string) string { return "func main() i32 { xx := 1; " + rest + s + " }" }
	case 9:
		place = func(s string) string { return "func main() i32 { xx := 1; { " + rest + s + " } }" }
	case 10:
		place = func(s string) string {
			return "func main() i32 { xx := 1; if xx == 2 { " + rest + s + " } else { { " + s + " } } }"
		}
	case 11:
		place = func(s string) string {
			return "func main() i32 { xx := 1; switch xx { case 2 { " + rest + s + " } default { " + s + " } } }"
		}
	case 12:
		place = func(s string) string {
			return "func main() i32 { xx := 1; ff := func(yy i32) i32 { " + rest + s + " }; return ff(xx); }"
		}
	case 13:
		place = func(s string) string {
			return "func main() i32 { xx := 1; return : i32 { { " + rest + s + " } }; }"
		}
	}
	pre := "struct S { x i32 } "
	rt.WriteFile("z.cd", "func g() i32 { return 4; }")
	rt.MaxSteps(3000000)
	want, out := resultOf(pre + place(bare))
	stage, got := resultOf(pre + place(m))
	rt.Assert((stage == "compiled") == (want == "compiled"), "#if changes nothing but what is part of the program")
	if want == "compiled" {
		rt.Assert(got == out, "#if changes nothing but what is part of the program: results")
	}
	rt.Cover("end")
}

// H_C23_root: declarations in a kept block are declarations of the file, known
// everywhere in it, and the ones in a dropped block don't exist: their names are
// free.
func H_C23_root() {
	c, on := condition("condition", 4)
	// what is declared, how it's used, what the use is worth
	kinds := []struct{ decl, use string }{
		{"func f() i32 { return 2; }", "f()"},
		{"pub func f() i32 { return 2; }", "f()"},
		{"f : i32 = 2;", "f"},
		{"const f := 2;", "f"},
		{"struct f { a i32 }", "(@f{a: 2}).a"},
		{"union f { a i32 }", ": i32 { q : f = 2; return q.a; }"},
		{"type f = i32;", "(2 as f)"},
		{"import f, \"two.cd\";", "f.two()"},
	}
	rt.WriteFile("two.cd", "func two() i32 { return 2; }")
	rt.WriteFile("three.cd", "func two() i32 { return 3; }")
	others := []string{
		"func f() i32 { return 3; }", "pub func f() i32 { return 3; }", "f : i32 = 3;", "const f := 3;", "struct f { a i32 }", "union f { a i32 }", "type f = i32;", "import f, \"three.cd\";",
	}
	k := rt.Choose("kind", len(kinds))
	d, use := kinds[k].decl, kinds[k].use
	m := "#if " + c + " { " + d + " }\n"
	for i := rt.Choose("nested", 3); i > 0; i-- {
		m = "#if 1 { " + m + " }\n"
	}
	switch rt.Choose("also", 4) {
	case 0:
		// it's the only one
		macro(m+"func main() i32 { return "+use+"; }", on, 2)
	case 1:
		// there is another one of its name, in a block that is dropped exactly if it's kept
		c2, on2 := condition("condition of the other", 4)
		if on2 == on {
			return
		}
		o := "#if " + c2 + " { " + others[k] + " }\n"
		v := int64(2)
		if on2 && (k <= 3 || k == 7) {
			v = 3
		}
		if rt.Choose("order", 2) == 1 {
			m, o = o, m
		}
		macro(m+o+"func main() i32 { return "+use+"; }", true, v)
	case 2:
		// functions, types and files are known before their declaration
		if k != 0 && k != 1 && k != 4 && k != 5 {
			return
		}
		macro("func g() i32 { return "+use+"; }\nfunc main() i32 { return g(); }\n"+m, on, 2)
	case 3:
		// whatever is declared besides
		macro("#if "+c+" { func before() i32 { return 1; } "+d+" func after() i32 { return "+use+"; } }\nfunc main() i32 { return before() + after() + "+use+"; }", on, 5)
	}
}

// H_C23_module: blocks of imported files.
func H_C23_module() {
	c, on := condition("condition", 4)
	c2, on2 := condition("condition of the import", 2)
	rt.WriteFile("a.cd", "#if "+c+" { func f() i32 { return 1; } #if X64 { import m, \"b.cd\"; func g() i32 { return m.h(); } } }\n#if LINUX { type T; }\nfunc size() i32 { return @sizeof(T); }")
	rt.WriteFile("b.cd", "func h() i32 { #if LINUX { x := 20; } #if WINDOWS { x := 300; return y; } return x; }")
	src := "#if " + c2 + " { import a, i16, \"a.cd\"; import dup, i64, \"a.cd\"; }\n"
	if rt.Choose("again", 2) == 1 {
		src += "#if " + c2 + " { #if WINDOWS { import no, \"missing.cd\"; } }\n"
	}
	macro(src+"func main() i32 { return a.f() + a.g() + a.size() + dup.size(); }", on && on2, 31)
}

// H_C23_dropped: what is dropped isn't compiled, also if it makes no sense.
func H_C23_dropped() {
	c, on := condition("condition", 11)
	bad := []string{
		"x : i32 = 1 as i64;", "return nothing;", "nothing();", "import m, \"missing.cd\";", "import m, i32, \"two.cd\";", "struct R { r R }", "struct A { a Nothing }", "func f() i32 { }", "func f(a i32, a i32) { }", "type T;", "type T; type T;", "x := 3; y : *i8 = x;",
		"func main() i64 { return 1; }", "extern func printf(i32) i64;", "pub func malloc() i32 { return 1; }", "func f() { break; }", "@print(\"a\" * 2);", "a, b := 1;", "1 = 2;", "func f() i32 { return f; }", "struct Q { a i32 } struct Q { a i32 }", "switch 1 { case 1.5 { } }", "x := [2]i32{1, 2, 3};", "func f() { g(1); } func g() { }",
	}
	b := bad[rt.Choose("block", len(bad))]
	rt.WriteFile("two.cd", "func two() i32 { return 2; }")
	m := "#if " + c + " { " + b + " }\n"
	src := ""
	switch rt.Choose("place", 3) {
	case 0:
		src = m + "func main() i32 { p := \"a\" + \"b\"; return 7; }"
	case 1:
		src = "func main() i32 { return 7; }\n" + m
	case 2:
		src = "func g() i32 { " + m + " return 7; }\nfunc main() i32 { return g(); }\n"
	}
	if on {
		if strings.Contains(b, "type T;") || strings.Contains(b, "extern") || strings.Contains(b, "malloc") {
			return
		}
		macro(src, false, 0)
	} else {
		macro(src, true, 7)
	}
}

// H_C23_body: how a kept block ends is how its function goes on.
func H_C23_body() {
	c, on := condition("condition", 4)
	x := rt.Choose("value", 4)
	v := int64(x)
	lit := string(rune('0' + x))
	src := ""
	out := int64(0)
	ok := true
	switch rt.Choose("body", 8) {
	case 0:
		src = "func f(a i32) i32 { #if " + c + " { return a; } return 9; }"
		out = 9
		if on {
			out = v
		}
	case 1:
		src = "func f(a i32) i32 { #if " + c + " { return a; } }"
		ok = on
		out = v
	case 2:
		src = "func f(a i32) i32 { #if " + c + " { if a == 1 { return 5; } else { a = 7; } } return a; }"
		out = v
		if on {
			out = 7
			if v == 1 {
				out = 5
			}
		}
	case 3:
		src = "func f(a i32) i32 { s := 0; for a < 6 { ++a; #if " + c + " { if a == 3 { continue; } if a == 5 { break; } } s = s + a; } return s; }"
		for i := v; i < 6; {
			i++
			if on && i == 3 {
				continue
			}
			if on && i == 5 {
				break
			}
			out += i
		}
	case 4:
		src = "func f(a i32) i32 { switch a { #if " + c + " { case 1 { return 5; } } default { return 6; } } }"
		ok = false
	case 5:
		src = "func f(a i32) i32 { b := a; #if " + c + " { b := a + 10; a = b; } return a + b; }"
		out = 2 * v
		if on {
			out = 2*v + 20
		}
	case 6:
		src = "func f(a i32) i32 { #if " + c + " { a = a + 1; #if 1 { a = a * 2; } #if 0 { a = 50; } } { #if " + c + " { q := 1; } } return a; }"
		out = v
		if on {
			out = 2*v + 2
		}
	case 7:
		src = "func f(a i32) i32 { #if " + c + " { { return a; } } #if LINUX { @unreachable(); } }"
		out = v
		if !on {
			return
		}
	}
	macro(src+"\nfunc main() i32 { return f("+lit+"); }", ok, out)
}

// H_C23_whole: programs some of whose declarations or statements are in blocks
// of an #if that holds, next to blocks that are dropped.
func H_C23_whole() {
	rt.DiagnosedExit(true)
	toks := strings.Split(programs[rt.Choose("program", len(programs)-1)], " ")
	// where statements and declarations begin and end
	var begin, end []int
	level := rt.Choose("level", 2)
	depth, start, parens := 0, 0, 0
	loop := false
	for i, t := range toks {
		switch t {
		case "for":
			loop = true
		case "(", "[":
			parens++
		case ")", "]":
			parens--
		case "{":
			depth++
			loop = false
			if depth == level && parens == 0 {
				start = i + 1
			}
		case "}":
			depth--
		}
		if parens == 0 && depth == level && (t == ";" && !loop || t == "}" && (i+1 == len(toks) || toks[i+1] != ";" && toks[i+1] != "else" && toks[i+1] != "." && toks[i+1] != ")")) {
			if i+1 > start {
				begin, end = append(begin, start), append(end, i+1)
			}
			start = i + 1
		}
	}
	n := rt.Choose("which", len(begin))
	at, to := begin[n], end[n]
	if toks[at] == "case" || toks[at] == "default" {
		return
	}
	var out []string
	out = append(out, toks[:at]...)
	switch rt.Choose("how", 3) {
	case 0:
		out = append(out, "#if", "X64", "{")
		out = append(out, toks[at:to]...)
		out = append(out, "}")
	case 1:
		out = append(out, "#if", "MACOS", "{")
		out = append(out, toks[at:to]...)
		out = append(out, "}")
		out = append(out, toks[at:to]...)
	case 2:
		out = append(out, "#if", "1", "{", "#if", "LINUX", "{")
		out = append(out, toks[at:to]...)
		out = append(out, "}", "#if", "0", "{")
		out = append(out, toks[at:to]...)
		out = append(out, "}", "}")
	}
	out = append(out, toks[to:]...)
	want, v := resultOf(strings.Join(toks, " "))
	stage, got := resultOf(strings.Join(out, " "))
	rt.Assert(want == "compiled" && stage == want, "the program is accepted")
	rt.Assert(got == v, "exactly the blocks of the #if that hold are part of the program")
	rt.Cover("end")
}
