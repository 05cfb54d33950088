package cg

import (
	"strings"

	"github.com/gabivlj/candice/internals/verifh/irx"
	"github.com/gabivlj/candice/internals/verifh/pipe"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// Programs that use every construct of the language, with their tokens
// separated by spaces.
var programs = []string{
	"struct S { x i32 y * S z [ 2 ] u8 } func f ( a i32 , s * S ) i32 { s . x = a + 1 ; return s . x * 2 ; } func main ( ) i32 { q := @ S { x : 1 } ; return f ( 3 , & q ) ; }",
	"union U { a i32 b f32 } const k := 5 ; g := 7 ; func main ( ) i32 { u : U = 3 ; u . b = 1.5 ; v := u . a - k << 2 ; ++ g ; return v as i32 ; }",
	"func main ( ) i32 { i := 0 ; for i = 0 ; i < 3 ; ++ i { if i == 1 { continue ; } else if i > 5 && i != 9 { break ; } else { i = i + 1 ; } } for { return i ; } return 0 ; }",
	"func h ( ) i32 , i64 { return 1 , 2 as i64 ; } func main ( ) i32 { a , b := h ( ) ; a , b = a , b ; switch a { case 1 { return 3 ; } default { a = 4 ; } } return a ; }",
	"func main ( ) i32 { p := @ alloc ( i32 , 4 ) ; p [ 1 ] = 2 ; c := func ( d i32 ) i32 { return d * p [ 1 ] ; } ; e := : i32 { return c ( 3 ) ; } ; @ free ( p ) ; @ print ( e , \"s\" , 'c' ) ; return - e ; }",
	"extern func ex ( i32 , .. ) i32 ; pub func pf ( o func ( i32 ) i32 ) * i8 { return \"ab\" + \"c\" ; } type T = i64 ; #if LINUX { func w ( t T ) { return ; } } func main ( ) i32 { m := [ 2 ] [ 2 ] i32 { [ 2 ] i32 { 1 , 2 } } ; return m [ 0 ] [ 1 ] ; }",
	"struct P { x i32 f func ( i32 ) i32 } func id ( p * P , n i32 ) i32 { return ( * p ) . f ( n ) ; } func main ( ) i32 { s := @ P { x : 1 , f : func ( a i32 ) i32 { return a ; } } ; t := & s ; return t . id ( 3 ) + ( & s ) . x ; }",
	"const s := \"a\" ; struct S { n * S v [ 3 ] U } union U { i i64 p * i8 } func main ( ) i32 { x := @ S { } ; q : * S = 0 as * S ; x . v [ 1 ] . i = 3 as i64 ; y := x . v [ 1 ] ; if s == \"a\" && ! ( q == x . n ) || y . i > 2 as i64 { return 1 ; } return - 1 ; }",
	"func k ( a i32 ) i32 if a == 0 return 1 ; else return a * k ( a - 1 ) ; func main ( ) i32 { a , b := 1 , 2.5 as f32 ; c : u8 = 255 as u8 ; { a , c = c as i32 , a as u8 ; } if a > 3 { @ unreachable ( ) ; } for j := 0 ; j < 2 ; ++ j a = a + j ; return k ( a ) % 7 ; }",
}

// words are a token of every kind.
var words = []string{
	"x", "S", "i32", "1", "0x1F", "1.5", "\"s\"", "'c'", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", "&&", "||", "!", "++", "--", "=", ":", ";", ",", ".", "..",
	"(", ")", "[", "]", "{", "}", "@", "#if", "if", "else", "for", "func", "struct", "union", "return", "break", "continue", "switch", "case", "default", "const", "as", "extern", "pub", "import", "type", "$",
}

// survives compiles the program: whatever it is, the compiler reports errors or
// makes a well-formed module.
func survives(src string) {
	rt.DiagnosedExit(true)
	rt.Log("src", src)
	r := pipe.Compile(src)
	rt.Log("stage", r.Stage)
	for _, e := range r.Errs {
		rt.Assert(e.Error() != "", "an error has a message")
	}
	if r.Stage == "compiled" {
		e := irx.Check(r.M)
		rt.Log("ir", e)
		rt.Assert(e == "", "an accepted program is compiled to well-formed IR")
	}
	rt.Cover("end")
}

// H_C06_whole: the programs as they are, are accepted.
func H_C06_whole() {
	src := programs[rt.Choose("program", len(programs))]
	rt.Log("src", src)
	r := pipe.Compile(src)
	for _, e := range r.Errs {
		rt.Log("diagnostic", e.Error())
	}
	rt.Assert(r.Stage == "compiled", "the program is accepted")
	rt.Cover("end")
}

// H_C06_token: programs with one token deleted, doubled, swapped, replaced or
// inserted.
func H_C06_token() {
	toks := strings.Split(programs[rt.Choose("program", len(programs))], " ")
	at := rt.Choose("token", len(toks))
	w := words[rt.Choose("word", len(words))]
	var out []string
	out = append(out, toks[:at]...)
	switch rt.Choose("change", 2) {
	case 0:
		out = append(out, w)
		out = append(out, toks[at+1:]...)
	case 1:
		out = append(out, w)
		out = append(out, toks[at:]...)
	}
	survives(strings.Join(out, " "))
}

// H_C06_cut: programs with tokens missing, doubled or swapped.
func H_C06_cut() {
	toks := strings.Split(programs[rt.Choose("program", len(programs))], " ")
	at := rt.Choose("token", len(toks))
	var out []string
	out = append(out, toks[:at]...)
	switch rt.Choose("change", 6) {
	case 0: // ends here
	case 1: // one missing
		out = append(out, toks[at+1:]...)
	case 2: // two missing
		if at+2 > len(toks) {
			return
		}
		out = append(out, toks[at+2:]...)
	case 3: // doubled
		out = append(out, toks[at])
		out = append(out, toks[at:]...)
	case 4: // swapped
		if at+2 > len(toks) {
			return
		}
		out = append(out, toks[at+1], toks[at])
		out = append(out, toks[at+2:]...)
	case 5: // only the rest
		out = toks[at:]
	}
	survives(strings.Join(out, " "))
}

// H_C06_byte: programs with one arbitrary byte changed.
func H_C06_byte() {
	src := programs[rt.Choose("program", len(programs))]
	at := rt.Choose("byte", len(src))
	b := rt.Byte("b")
	survives(src[:at] + string([]byte{b}) + src[at+1:])
}

// H_C06_words: short sequences of tokens.
func H_C06_words() {
	n := 2 + rt.Tier()
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, words[rt.Choose("word", len(words))])
	}
	s := strings.Join(out, " ")
	switch rt.Choose("place", 4) {
	case 1:
		s = "func main ( ) i32 { " + s + " ; return 0 ; }"
	case 2:
		s = "struct S { y i32 } func main ( ) i32 { x := 1 ; z := " + s + " ; return 0 ; }"
	case 3:
		s = "struct S { y i32 } func main ( ) i32 { x := 1 ; z : " + s + " = x ; return 0 ; }"
	}
	survives(s)
}

var declarations = []string{
	"struct Z { x i32 }", "union Z { x i32 y i64 }", "type Z = i64;", "func z() i32 { return 1; }", "func z() { }", "pub func z() i32 { return xx; }", "extern func abs(i32) i32;",
	"import z, \"z.cd\";", "type Z;", "#if LINUX { func z() i32 { return 1; } }", "#if LINUX { zz := 1; }", "#if WINDOWS { return Nothing; }", "zz := 1;", "const zz := 1;", "zz, yy := 1, 2;",
	"xx = 3;", "xx, xx = 1, 2;", "return 1;", "return;", "break;", "continue;", "@print(1);", "{ }", "if 1 { }", "for { }", "switch 1 { case 1 { } }", "1;", "func() i32 { return 1; };", ": i32 { return 1; };", "@unreachable();", "++xx;", ";",
	"zz := func() i32 { return xx; };", "zz := : i32 { return 1; };", "zz := &xx;", "zz := *(&xx);", "zz := xx;", "const zz := xx;", "zz := xx.xx;", "zz := xx();", "zz := xx[0];", "zz := @alloc(i32, 1);", "zz := @print(1);", "zz := \"a\" + \"b\";", "zz := [2]i32{1, xx};", "zz := @S{x: xx};", "zz := -xx;", "zz := 1 + 2;", "zz := 1 as i64;", "zz := &1;", "zz : S = 1;", "zz : Z = 1;",
}

// H_C06_declaration: every kind of statement in every kind of place.
func H_C06_declaration() {
	d := declarations[rt.Choose("declaration", len(declarations))]
	if rt.Choose("second", 2) == 1 {
		d += " " + declarations[rt.Choose("declaration", len(declarations))]
	}
	src := ""
	switch rt.Choose("place", 11) {
	case 0:
		src = d + " func main() i32 { return 0; }"
	case 1:
		src = "func main() i32 { xx := 1; " + d + " return 0; }"
	case 2:
		src = "func main() i32 { xx := 1; { " + d + " } return 0; }"
	case 3:
		src = "func main() i32 { xx := 1; if xx == 1 { " + d + " } else { " + d + " } return 0; }"
	case 4:
		src = "func main() i32 { xx := 1; for xx < 3 { " + d + " } return 0; }"
	case 5:
		src = "func main() i32 { xx := 1; ff := func(yy i32) i32 { " + d + " return 0; }; return ff(xx); }"
	case 6:
		src = "func main() i32 { xx := 1; return : i32 { " + d + " return 0; }; }"
	case 7:
		src = "func main() i32 { xx := 1; switch xx { case 1 { " + d + " } default { " + d + " } } return 0; }"
	case 8:
		src = "func main() i32 { xx := 1; return 0; " + d + " }"
	case 9:
		src = "#if LINUX { " + d + " } func main() i32 { return 0; }"
	case 10:
		src = "xx := 1; func main() i32 { return 0; } " + d
	}
	survives("struct S { x i32 } " + src)
}

// H_C06_types: the programs of the checks of types, also the ones that are
// rejected.
func H_C06_types() {
	anything = true
	switch rt.Choose("check", 9) {
	case 0:
		H_C07_use()
	case 1:
		H_C07_count()
	case 2:
		H_C07_number()
	case 3:
		H_C07_several()
	case 4:
		H_C07_void()
	case 5:
		H_C07_prefix()
	case 6:
		H_C07_cast()
	case 7:
		H_C07_structure()
	case 8:
		H_C07_binary()
	}
	anything = false
}
