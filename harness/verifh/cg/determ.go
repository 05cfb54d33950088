package cg

import (
	"strings"

	"github.com/gabivlj/candice/internals/verifh/pipe"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// H_C24_program: programs with everything, as they are and with a token missing.
func H_C24_program() {
	rt.DiagnosedExit(true)
	pipe.Twice = true
	toks := strings.Split(programs[rt.Choose("program", len(programs))], " ")
	at := rt.Choose("token", len(toks)+1)
	if at < len(toks) {
		toks = append(append([]string(nil), toks[:at]...), toks[at+1:]...)
	}
	src := strings.Join(toks, " ")
	rt.Log("src", src)
	pipe.Compile(src)
	rt.Cover("end")
}

// H_C24_declaration: every kind of statement in every kind of place.
func H_C24_declaration() {
	pipe.Twice = true
	H_C06_declaration()
}

// H_C24_modules: the programs of several files.
func H_C24_modules() {
	rt.DiagnosedExit(true)
	pipe.Twice = true
	switch rt.Choose("check", 8) {
	case 0:
		H_C22_layout()
	case 1:
		H_C22_cycle()
	case 2:
		H_C22_mistake()
	case 3:
		H_C22_parts()
	case 4:
		H_C22_chain()
	case 5:
		H_C22_indirect()
	case 6:
		H_C22_methods()
	case 7:
		H_C27_modules()
	}
	pipe.Twice = false
}

// H_C24_statement: statements of every kind over values of every type.
func H_C24_statement() {
	rt.DiagnosedExit(true)
	pipe.Twice = true
	switch rt.Choose("check", 8) {
	case 0:
		H_C07_store()
	case 1:
		H_C07_prefix()
	case 2:
		H_C07_use()
	case 3:
		H_C07_several()
	case 4:
		H_C07_count()
	case 5:
		H_C07_void()
	case 6:
		H_C18_types()
	case 7:
		H_C20_aggregate()
	}
	pipe.Twice = false
}

// H_C24_value: the flow of a program, its strings and constants.
func H_C24_value() {
	rt.DiagnosedExit(true)
	pipe.Twice = true
	switch rt.Choose("check", 2) {
	case 0:
		H_C25_literals()
	case 1:
		H_C17_capture()
	}
	pipe.Twice = false
}

// Statements with a mistake, that the messages tell about.
var mistakes = []string{
	"x := @S{q: 1};", "x := @S{q: 1, r: 2};", "x := @S{aa: 1, q: 2};", "x := @T{aa: 1};", "x := @E{aa: 1};", "x := @U{ua: 1};", "x := @None{x: 1};",
	"x : None = 1;", "x : m.None = 1;", "x : m.S = 1;", "x : n.S = 1;", "x : q.S = 1;", "x := @m.None{x: 1};", "x := @q.S{x: 1};", "x := @m.S{q: 1};",
	"x := none;", "x := a + b;", "x := a + nothing + b;", "a = b;", "b = s;", "s = u;", "u = s;", "u = a; u = b; u = s;", "s = 1;", "p = &b;", "*p = b;", "x := *a;", "x := &1;", "x := s + s;", "x := u == u;",
	"x := s.q;", "x := s.a;", "x := u.q;", "x := u.u;", "x := p.q;", "x := s.aa.q;", "x := m.q;", "x := m.f;", "x := m.g();", "x := q.f();", "x := n.f(1);", "x := m.f(s);", "x := m.f(1, 2);",
	"x := f();", "x := f(1, 2);", "x := f(b);", "x := f(s);", "x := a(1);", "x := g();", "x := s.f();", "x := a.f(1);", "x := b.f();", "x := a.none();", "x := s.none();", "x := u.m();", "f = 1;", "x := f + 1;",
	"if s { }", "if a { } else if b { } else if s { }", "for s { }", "for i := 0; s; ++i { }", "switch a { case b { } }", "switch s { case 1 { } }", "return s;", "return;", "return a, b;", "break;", "continue;",
	"x := l[s];", "x := a[0];", "l = [1]i32{1};", "l = [4]i32{1, 2, 3};", "x := [2]i32{1, 2, 3};", "x := [2]i32{1, b};", "x := [0]i32{};", "x, y := a;", "x, y := two(), 1;", "x, y := one();", "a, b = two();", "a, b = b, a;", "a, s = u, a;", "x, x := two();", "a, a = two();",
	"x := Mm.f(1);", "x : Mm.S = 1;", "x := @Mm.S{na: 1 as i64};", "x := @Ss{x: 1};", "x : Ss = 1;", "x : i32 = Ff();", "x : i32 = Vv;", "x : i32 = s.Ae;",
	"x := s as i32;", "x := a as S;", "x := a as None;", "x := u as S;", "x := b as *S;", "x := \"a\" as i32;", "x := !s;", "x := ~s;", "x := -s;", "x := ++s;", "x := --1;", "x := !k;", "k = 1;", "++k;", "x := &k;",
	"x := @alloc(i32, s);", "x := @alloc(None, 1);", "@free(a);", "@free(p, p);", "x := @realloc(a, 1);", "x := @realloc(p, s);", "x := @sizeof(None);", "x := @sizeof(q.S);", "@print(none);", "x := @none(1);", "@asm(a);", "@unreachable(1);",
	"x : i16_t = 5;", "x : int = 5;", "x : i = 5;", "x : u = 5;", "x : string = 5;", "x : I32 = 5;", "x : i1z = 5;", "x : i12 = 5;", "x : u64z = 5;", "x : f = 5;", "x : Q = 5;", "x : s = 5;", "x : St = 5;", "x : aa = 5;", "x : mm.S = 5;",
	"x := S;", "x := U;", "x := m;", "x := i32;", "x := a.a.a;", "x := 5.a;", "x := \"a\".a;", "x := 99999999999999999999;", "x := 0x;", "x := 1 +;", "x := ;", "x = ;", "x : = 1;", ": i32 = 1;", "x := [;", "x := ];", "x := {;", "x := @;", "x := (1;", "x := 1);", "if { }", "for { }", "switch { }", "else { }", "func;", "struct;", "case 1 { }",
	"const z := a;", "const z := f(1);", "const z := s;", "h := func(x i32) i32 { };", "h := func(x None) i32 { return 1; };", "h := func() i32 { return s; }; h();", "h := func() None { };", "func nested() { }", "struct N { x i32 }", "import q, \"q.cd\";", "extern func none(i32) i32;", "type Z = i32;", "type Z;",
}

// Declarations with a mistake.
var wrongs = []string{
	"struct S { x i32 }", "union S { x i32 }", "struct R { x R }", "struct R { x R2 } struct R2 { x R }", "union R { x i32 y R }", "struct R { x None y None2 z None3 }", "union R { x None y None2 }", "struct R { x i32 x i64 }", "struct R { x m.None }",
	"func f() { }", "func r(x i32, x i64) { }", "func r(x None, y None2) None3 { }", "func r() i32 { }", "func r(x i32) i32 { if x == 1 { return 1; } }", "func r() { return 1; } func r2() i32 { return; }", "func S() { }", "func r(x S, y S) { x = y; none = 1; none2 = 2; none3 = 3; }",
	"gg := f(1);", "gg := none;", "gg : None = 1;", "gg : i32 = 1.5;", "gg := @S{q: 1};", "gg := @S{aa: f};", "const kk := none;", "const k := 2;", "gg := 1; gg := 2;", "gg := \"a\" as i64;", "gg : S = 1;", "gg := @S{aa: 1, ab: 2, ac: 3, ad: 4};",
	"extern func e(None) i32;", "extern func main() i32;", "extern func f(i32) i32;", "extern func e(i32) i32; extern func e(i64) i32;", "pub func e() { } pub func e() { }", "type A;", "type A = None;", "type A = i32; type A = i64;",
	"import q, \"none.cd\";", "import m, \"n.cd\";", "import q, \"m.cd\"; import q, \"n.cd\";", "import q, i32, \"m.cd\";", "import q, \"t.cd\";", "import q, i32, i64, \"t.cd\";", "import q, None, \"t.cd\";", "import q, None, None2, \"t.cd\";",
	"x = 1;", "f(1);", "if 1 == 1 { }", "return 1;", "{ }", "@print(1);", "++a;", "a + 1;", "5;", "}", "{", ")", "func main() { }", "#if NONE { }", "#if WINDOWS { struct R { x None } }", "#if 1 { struct R { x None y None2 } }",
}

// H_C24_mistake: the messages about every kind of mistake.
func H_C24_mistake() {
	rt.DiagnosedExit(true)
	pipe.Twice = true
	files("m.cd", "struct S { sa i32 sb i64 }\nstruct W { wa i32 }\nunion V { va i32 }\nfunc f(x i32) i32 { return x; }\nfunc two(x i32, y i64) i32 { return x; }\n",
		"n.cd", "struct S { na i64 nb i8 }\nstruct X { xa i32 }\nfunc f(x *i32, y i64) i64 { return y; }\nfunc none(x i64) i64 { return x; }\n",
		"t.cd", "type A;\ntype B;\nstruct S { x A y B }\nfunc f(x A) A { return x; }\n")
	pre := "import m, \"m.cd\";\nimport n, \"n.cd\";\nimport mm, \"m.cd\";\nimport MM, \"n.cd\";\nstruct ss { x i32 }\nstruct SS { x i64 }\nstruct S { AE i64 aa i32 ab i64 ac i32 ad i32 ae S2 }\nstruct S2 { x i32 }\nunion U { ua i32 ub i64 uc S }\nstruct St { x i32 }\nconst k := 1;\nfunc f(x i32) i32 { return x; }\nfunc g(x S) { return; }\nfunc ff() i32 { return 1; }\nfunc FF() i64 { return 1 as i64; }\nfunc one() i32 { return 1; }\nfunc two() i32, i64 { return 1, 2 as i64; }\n"
	src := ""
	if rt.Choose("where", 2) == 0 {
		i := rt.Choose("mistake", len(mistakes))
		src = pre + "func main() i32 {\na := 1; b := 2 as i64; s := @S{aa: 1}; u : U = 1; p := &a; l := [3]i32{1, 2, 3}; vv := 1; VV := 1 as i64;\n" + mistakes[i] + "\nif s.aa { x := none; } q := p.none;\nreturn 0; }\n"
	} else {
		i := rt.Choose("declaration", len(wrongs))
		src = pre + wrongs[i] + "\n"
		if rt.Tier() == 1 {
			src += wrongs[rt.Choose("other", len(wrongs))] + "\n"
		}
		src += "func main() i32 {\nx := none;\nreturn 0; }\n"
	}
	rt.Log("src", src)
	pipe.Compile(src)
	rt.Cover("end")
}
