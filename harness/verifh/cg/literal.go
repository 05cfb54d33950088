package cg

import (
	"github.com/gabivlj/candice/internals/verifh/irx"
	"github.com/gabivlj/candice/internals/verifh/pipe"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// literalText replaces every ? of t by an arbitrary digit of the base, and
// returns the value if it is below 2^64.
func literalText(t string, base uint64) (string, uint64, bool) {
	b := []byte(t)
	v, over := uint64(0), false
	start := 0
	if base != 10 {
		start = 2
	}
	for i := start; i < len(b); i++ {
		if b[i] == '?' {
			b[i] = rt.Byte("digit")
			if base == 16 {
				rt.Assume(rt.Or(rt.And(b[i] >= '0', b[i] <= '9'), rt.Or(rt.And(b[i] >= 'a', b[i] <= 'f'), rt.And(b[i] >= 'A', b[i] <= 'F'))))
			} else {
				rt.Assume(rt.And(b[i] >= '0', b[i] < '0'+byte(base)))
			}
		}
		c := b[i]
		var d uint64
		switch {
		case c <= '9':
			d = uint64(c - '0')
		case c >= 'a':
			d = uint64(c-'a') + 10
		default:
			d = uint64(c-'A') + 10
		}
		if v > (1<<64-1-d)/base {
			over = true
		}
		v = v*base + d
	}
	return string(b), v, !over
}

// printed compiles a program whose f prints e, and returns what it prints.
func printed(src string) (string, []irx.Piece) {
	r := pipe.Compile(src)
	if r.Stage != "compiled" {
		return r.Stage, nil
	}
	rt.Assert(irx.Check(r.M) == "", "the IR is well-formed")
	m := irx.New(r.M)
	_, trap := m.Run("f")
	rt.Assert(trap == "", "the program runs")
	for _, e := range m.Events {
		if e.Name == "printf" {
			return r.Stage, e.Out
		}
	}
	return r.Stage, nil
}

// isNumber checks that out is the number v, negated if neg.
func isNumber(out []irx.Piece, v uint64, neg bool) bool {
	if len(out) != 1 {
		return false
	}
	p := out[0]
	if neg {
		return rt.And(p.K == 'd', rt.And(p.U == -v, rt.Or(v == 0, int64(p.U) < 0)))
	}
	if p.K == 'd' {
		return rt.And(p.U == v, int64(v) >= 0)
	}
	return rt.And(p.K == 'u', p.U == v)
}

func literalOf(t string, base uint64) {
	s, v, fits := literalText(t, base)
	src := "func f() { @print(" + s + "); }\nfunc main() i32 { return 0; }\n"
	rt.Log("src", src)
	stage, out := printed(src)
	if !fits {
		rt.Assert(stage != "compiled", "an integer literal of 2^64 or more is rejected")
		rt.Cover("end")
		return
	}
	rt.Assert(stage == "compiled", "an integer literal below 2^64 is accepted")
	rt.Assert(isNumber(out, v, false), "an integer literal has its value")
	rt.Cover("end")
}

// H_C05_decimal: decimal literals of up to 21 digits; up to 5 of them are
// arbitrary, the other ones are those of the limits of the types.
func H_C05_decimal() {
	ts := []string{"?", "??", "?????", "000??", "??00000000", "21474?????", "?1474836??", "214748364??", "922337203685477????", "?223372036854775???",
		"1844674407370955????", "?8446744073709551615", "184467440737095516??"}
	literalOf(ts[rt.Choose("digits", len(ts))], 10)
}

// H_C05_hex: hexadecimal literals.
func H_C05_hex() {
	ts := []string{"0x?", "0x??", "0x???", "0x7ffff???", "0x??F0FFFF", "0x?FFFFFFF", "0x1??0ab00", "0x7ffffffffffff???", "0x?fffffffffffff??", "0x1fffffffffffffff?", "0x?0000000000000000"}
	literalOf(ts[rt.Choose("digits", len(ts))], 16)
}

// H_C05_binary: binary literals.
func H_C05_binary() {
	ts := []string{"0b?", "0b????", "0b0111111111111111111111111111????", "0b????1111111111111111111111111111",
		"0b01111111111111111111111111111111111111111111111111111111111?????",
		"0b11111111111111111111111111111111111111111111111111111111111?????",
		"0b?11111111111111111111111111111111111111111111111111111111111?????"}
	literalOf(ts[rt.Choose("digits", len(ts))], 2)
}

// H_C05_types: a literal is an i32 when an i32 holds it, else an i64, else a
// u64.
func H_C05_types() {
	ts := []string{"?", "000??", "214748364??", "?147483647", "0x?fffffff", "0b0???", "922337203685477580??", "?223372036854775807", "0x?fffffffffffffff", "184467440737095516??", "0x?0000000000000000"}
	t := ts[rt.Choose("digits", len(ts))]
	base := uint64(10)
	if len(t) > 1 && t[1] == 'x' {
		base = 16
	} else if len(t) > 1 && t[1] == 'b' {
		base = 2
	}
	s, v, fits := literalText(t, base)
	want := 0
	if v > 1<<63-1 {
		want = 2
	} else if v > 1<<31-1 {
		want = 1
	}
	names := []string{"i32", "i64", "u64", "u32", "i8"}
	k := rt.Choose("type", len(names))
	body := "x := " + s + "; y : " + names[k] + " = x;"
	if rt.Choose("place", 2) == 1 {
		body = "p : *" + names[k] + " = g(); *p = " + s + " + 0 as " + names[k] + ";"
	}
	src := "func g() *" + names[k] + " { x : " + names[k] + " = 0 as " + names[k] + "; return &x; }\nfunc f() { " + body + " }\nfunc main() i32 { return 0; }\n"
	verdict(src, fits && k == want, "a literal used as its type")
}

// H_C05_uses: a literal of arbitrary digits has its value wherever it is
// written.
func H_C05_uses() {
	s, v, _ := literalText("??", 10)
	pre, body := "", ""
	neg := false
	switch rt.Choose("use", 14) {
	case 0:
		body, neg = "@print(-"+s+");", true
	case 1:
		body = "@print(" + s + " as i64);"
	case 2:
		pre, body = "g := "+s+";\n", "@print(g);"
	case 3:
		pre, body = "const g := "+s+";\n", "@print(g);"
	case 4:
		body = "x : i32 = " + s + "; @print(x);"
	case 5:
		body = "const x := " + s + "; @print(x);"
	case 6:
		body = "@print(@sizeof([" + s + "]i8));"
	case 7:
		pre, body = "func g() i32 { return "+s+"; }\n", "@print(g());"
	case 8:
		pre, body = "struct S { x i32 }\n", "y := @S{x: "+s+"}; @print(y.x);"
	case 9:
		body = "y := [2]i32{1, " + s + "}; @print(y[1]);"
	case 10:
		pre, body = "func g(x i32) i32 { return x; }\n", "@print(g("+s+"));"
	case 11:
		body = "x := 0; x = " + s + "; @print(x);"
	case 12:
		body = "y := [100]i32{}; y[" + s + "] = 0; x := 0; for x < 100 { if x == " + s + " { y[x] = x; } ++x; } @print(y[" + s + "]);"
	case 13:
		body = "x := 0; for x < 100 { switch x { case " + s + " { @print(x); } } ++x; }"
	}
	src := pre + "func f() { " + body + " }\nfunc main() i32 { return 0; }\n"
	rt.Log("src", src)
	stage, out := printed(src)
	rt.Assert(stage == "compiled", "the program is accepted")
	rt.Assert(isNumber(out, v, neg), "an integer literal has its value")
	rt.Cover("end")
}

// H_C05_float: floating-point literals of three arbitrary digits.
func H_C05_float() {
	b := rt.Bytes("digits", 3)
	v := int64(0)
	for i := range b {
		rt.Assume(rt.And(b[i] >= '0', b[i] <= '9'))
		b[i] = byte(rt.Pick(int64(b[i])))
		v = v*10 + int64(b[i]-'0')
	}
	s, want := "", float64(0)
	switch rt.Choose("point", 3) {
	case 0:
		s, want = string(b[:1])+"."+string(b[1:]), float64(v)/100
	case 1:
		s, want = string(b[:2])+"."+string(b[2:]), float64(v)/10
	case 2:
		s, want = string(b)+".0", float64(v)
	}
	typ := rt.Choose("type", 2)
	body := "@print(" + s + ");"
	if typ == 1 {
		body = "x := " + s + " as f64; @print(x);"
	}
	src := "func f() { " + body + " }\nfunc main() i32 { return 0; }\n"
	rt.Log("src", src)
	stage, out := printed(src)
	rt.Assert(stage == "compiled", "the program is accepted")
	rt.Assert(len(out) == 1 && out[0].K == 'f', "a number is printed")
	rt.Assert(rt.SameF64(out[0].F, float64(float32(want))), "a floating-point literal has its value as an f32")
	rt.Cover("end")
}
