package cg

import (
	"github.com/gabivlj/candice/internals/verifh/irx"
	. "github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// layoutTypes are the types of fields; some need definitions.
func layoutTypes(p *Prog) []*Ty {
	in := Struct("In", Field{"x", I8}, Field{"y", I64})
	sm := Struct("Sm", Field{"x", I8}, Field{"y", I16}, Field{"z", I8})
	un := Union("Un", Field{"x", I16}, Field{"y", Arr(3, I8)})
	uw := Union("Uw", Field{"x", F64}, Field{"y", sm})
	p.Types = append(p.Types, in, sm, un, uw)
	return []*Ty{I1, I8, U16, I32, I64, F32, F64, Ptr(I8), Arr(3, I8), Arr(2, I32), in, sm, un, uw, Arr(2, sm), Func(I32, I8), Arr(2, un), Arr(2, Arr(1, I64)), Arr(1, Arr(3, I8)), Arr(2, Arr(2, in))}
}

// layout checks everything the program can see of the layout of t.
func layout(p *Prog, t *Ty) {
	src := "extern func obp(*i8, *i8);\nextern func obi(i32);\n"
	src += "func f() i32 {\n    obi(@sizeof(" + t.String() + "));\n"
	src += "    a := [2]" + t.String() + "{};\n    obp(@cast(*i8, &a[0]), @cast(*i8, &a[1]));\n"
	src += "    h := @alloc(" + t.String() + ", 3);\n    obp(@cast(*i8, h), @cast(*i8, &h[2]));\n"
	src += "    obp(@cast(*i8, h), @cast(*i8, h + 1));\n"
	src += "    g := @realloc(h, 5);\n    obp(@cast(*i8, g), @cast(*i8, &g[4]));\n"
	if t.K == 's' || t.K == 'n' {
		for _, f := range t.F {
			src += "    obp(@cast(*i8, &a[0]), @cast(*i8, &a[0]." + f.Name + "));\n"
			src += "    obp(@cast(*i8, g), @cast(*i8, &g." + f.Name + "));\n"
		}
	}
	src += "    return 0;\n}\n"
	p.Mid = src
	m := p.Build()
	RunOK(p, m, "f")
	size := t.Size()
	diffs := []int64{size, 2 * size, size, 4 * size}
	if t.K == 's' || t.K == 'n' {
		off := int64(0)
		for _, f := range t.F {
			if t.K == 's' {
				a := f.T.Align()
				off = (off + a - 1) / a * a
			}
			diffs = append(diffs, off, off)
			if t.K == 's' {
				off += f.T.Size()
			}
		}
	}
	i := 0
	seen := 0
	for _, e := range m.Events {
		switch e.Name {
		case "obi":
			seen++
			rt.Log("src", src)
			rt.Log("sizeof", e.Args[0].U)
			rt.Assert(int64(e.Args[0].U) == size, "@sizeof is the size of the type")
		case "malloc":
			seen++
			rt.Log("malloc", e.Args[0].U)
			rt.Assert(int64(e.Args[0].U) == 3*size, "@alloc asks for that many elements")
		case "realloc":
			seen++
			rt.Assert(int64(e.Args[1].U) == 5*size, "@realloc asks for that many elements")
		case "obp":
			a, b := e.Args[0], e.Args[1]
			rt.Assert(a.K == irx.Pointer && b.K == irx.Pointer && a.P.O != nil && a.P.O == b.P.O, "parts lie in their object")
			d := b.P.Off - a.P.Off
			rt.Log("offset", d)
			rt.Assert(d == diffs[i], "elements and fields lie where the layout puts them")
			i++
		}
	}
	rt.Assert(i == len(diffs) && seen == 3, "every observation happens")
	rt.Cover("end")
}

// H_C16_struct: structs of up to 3 fields (4 in the thorough tier) of all
// kinds of types.
func H_C16_struct() {
	p := &Prog{}
	ts := layoutTypes(p)
	max := 3
	if rt.Tier() == 1 {
		max = 4
	}
	n := 1 + rt.Choose("fields", max)
	var fs []Field
	for i := 0; i < n; i++ {
		fs = append(fs, Field{string(rune('a' + i)), ts[rt.Choose("field type", len(ts))]})
	}
	st := Struct("St", fs...)
	p.Types = append(p.Types, st)
	layout(p, st)
}

// H_C16_union: unions of up to 3 members.
func H_C16_union() {
	p := &Prog{}
	ts := layoutTypes(p)
	n := 1 + rt.Choose("members", 2+rt.Tier())
	var fs []Field
	for i := 0; i < n; i++ {
		fs = append(fs, Field{string(rune('a' + i)), ts[rt.Choose("member type", len(ts))]})
	}
	st := Union("Ut", fs...)
	p.Types = append(p.Types, st)
	layout(p, st)
}

// H_C16_plain: scalars, pointers, arrays and functions.
func H_C16_plain() {
	p := &Prog{}
	ts := append(layoutTypes(p), U8, I16, U32, U64, Ptr(Ptr(F32)), Arr(3, Arr(5, U16)), Arr(4, Ptr(I32)))
	t := ts[rt.Choose("type", len(ts))]
	if rt.Choose("wrap", 2) == 1 {
		t = Arr(3, t)
	}
	layout(p, t)
}

// H_C16_length: @alloc and @realloc with lengths of every integer type ask for
// exactly length times size bytes, for every length.
func H_C16_length() {
	p := &Prog{}
	ts := layoutTypes(p)
	t := ts[rt.Choose("type", len(ts))]
	nt := Ints[rt.Choose("length type", len(Ints))]
	re := rt.Choose("realloc", 2) == 1
	if re && nt.K == 'u' {
		rt.Assume(false) // @realloc takes signed lengths
	}
	src := "extern func obp(*i8);\nfunc f(n " + nt.String() + ") i32 {\n    h := @alloc(" + t.String()
	if re {
		src += ", 2);\n    g := @realloc(h, n);\n    obp(@cast(*i8, g));\n"
	} else {
		src += ", n);\n    obp(@cast(*i8, h));\n"
	}
	src += "    return 0;\n}\n"
	p.Mid = src
	m := p.Build()
	m.NoHeap = true
	n := Sym("n", nt)
	RunOK(p, m, "f", ToIR(n))
	want := uint64(n.Num()) * uint64(t.Size())
	k := 0
	for _, e := range m.Events {
		if e.Name == "malloc" && !re {
			k++
			rt.Assert(e.Args[0].U == want, "@alloc asks for length times size")
		}
		if e.Name == "realloc" {
			k++
			rt.Assert(e.Args[1].U == want, "@realloc asks for length times size")
		}
	}
	rt.Assert(k == 1, "one allocation")
	rt.Cover("end")
}
