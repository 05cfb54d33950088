package cg

import (
	. "github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// texts are literals as they are written and the characters they denote.
var texts = [][2]string{
	{"", ""}, {"a", "a"}, {"hello", "hello"}, {`\n`, "\n"}, {`a\nb`, "a\nb"}, {`\"`, `"`}, {`\\`, `\`}, {`\\n`, `\n`},
	{`tab\\t`, `tab\t`}, {"100%s", "100%s"}, {"// no comment", "// no comment"}, {"é", "é"}, {"\xff\x80", "\xff\x80"}, {"a'b", "a'b"},
}

var strT = Ptr(I8)

// strForms are the ways a string is read.
const nStrForms = 8

func (b *bld) strForm(k int, v *E) *E {
	switch k {
	case 0:
		return v
	case 1:
		n := b.fresh("s")
		b.add(Decl(n, v))
		return V(n, strT)
	case 2:
		n := b.fresh("s")
		b.add(DeclT(n, strT, v))
		return V(n, strT)
	case 3:
		id := &Fn{Name: b.fresh("ids"), Params: params(strT, "z"), Ret: strT, Body: []*S{Ret(V("z", strT))}}
		b.p.Fns = append(b.p.Fns, id)
		return Call(id, v)
	case 4:
		st := Struct(b.fresh("Hs"), Field{"c", I8}, Field{"s", strT})
		b.p.Types = append(b.p.Types, st)
		n := b.fresh("h")
		b.add(Decl(n, StructLit(st, []string{"c", "s"}, Lit(1, I8), v)))
		return Fld(V(n, st), "s")
	case 5:
		at := Arr(2, strT)
		n := b.fresh("l")
		b.add(Decl(n, ArrLit(at, v, v)))
		return Idx(V(n, at), Lit(1, I32))
	case 6:
		return BlockE(strT, Ret(v))
	case 7:
		f := &Fn{Name: b.fresh("mk"), Ret: strT, Body: []*S{Ret(v)}}
		b.p.Fns = append(b.p.Fns, f)
		return Call(f)
	}
	panic("strForm")
}

func text(name string) *E {
	t := texts[rt.Choose(name, len(texts))]
	return Str(t[0], t[1])
}

// H_C25_literal: a literal denotes its characters and a terminator, wherever
// it is used, for every index.
func H_C25_literal() {
	b := newB(I8, params(I64, "i")...)
	t := texts[rt.Choose("text", len(texts))]
	s := b.strForm(rt.Choose("form", nStrForms), Str(t[0], t[1]))
	b.add(Print(s, Str("|", "|"), s), Ret(Idx(s, V("i", I64))))
	i := Sym("i", I64)
	rt.Assume(rt.And(i.Num() >= 0, i.Num() <= int64(len(t[1]))))
	b.check(i)
}

// H_C25_global: strings that are globals, constants or local constants.
func H_C25_global() {
	t := texts[rt.Choose("text", len(texts))]
	e := Str(t[0], t[1])
	b := newB(I8, params(I64, "i")...)
	typed := rt.Choose("typed", 2) == 1
	d := Decl("g", e)
	if typed {
		d = DeclT("g", strT, e)
	}
	g := V("g", strT)
	switch rt.Choose("kind", 4) {
	case 0:
		b.p.Globals = append(b.p.Globals, d)
	case 1:
		d.Op = "const"
		b.p.Globals = append(b.p.Globals, d)
	case 2:
		d.Op = "const"
		b.add(d)
	case 3:
		b.p.Globals = append(b.p.Globals, d)
		b.add(Decl("h", g), Assign(g, Str("other", "other")), Print(g, V("h", strT)), Assign(g, V("h", strT)))
	}
	fn := &Fn{Name: "len", Params: params(strT, "s"), Ret: I64, Body: []*S{
		Decl("n", Lit(0, I64)),
		While(Bin("!=", Idx(V("s", strT), V("n", I64)), Lit(0, I8)), Assign(V("n", I64), Bin("+", V("n", I64), Lit(1, I64)))),
		Ret(V("n", I64))}}
	b.p.Fns = append(b.p.Fns, fn)
	b.add(Print(g, Call(fn, g)), Ret(Idx(g, V("i", I64))))
	MaxLoop = 16
	i := Sym("i", I64)
	rt.Assume(rt.And(i.Num() >= 0, i.Num() <= int64(len(t[1]))))
	b.check(i)
}

// chars builds a string out of arbitrary characters in memory of kind k.
func (b *bld) chars(k int, name string, cs ...*E) *E {
	switch k {
	case 0:
		at := Arr(len(cs)+1, I8)
		n := b.fresh(name)
		b.add(Decl(n, ArrLit(at, append(append([]*E{}, cs...), Lit(0, I8))...)))
		return Addr(Idx(V(n, at), Lit(0, I32)))
	case 1:
		n := b.fresh(name)
		b.add(Decl(n, Alloc(I8, Lit(uint64(len(cs)+1), I32))))
		for i, c := range cs {
			b.add(Assign(Idx(V(n, strT), Lit(uint64(i), I32)), c))
		}
		b.add(Assign(Idx(V(n, strT), Lit(uint64(len(cs)), I32)), Lit(0, I8)))
		return V(n, strT)
	}
	panic("chars")
}

// H_C25_compare: all comparisons of two strings of arbitrary characters, by
// their characters.
func H_C25_compare() {
	op := []string{"==", "!=", "<", ">", "<=", ">="}[rt.Choose("op", 6)]
	n, m := rt.Choose("left length", 3), rt.Choose("right length", 3)
	b := newB(I1, params(I8, "a", "b", "c", "d")...)
	l := b.chars(rt.Choose("left", 2), "x", V("a", I8), V("b", I8))
	r := b.chars(rt.Choose("right", 2), "y", V("c", I8), V("d", I8))
	if n < 2 {
		l = b.chars(0, "x", []*E{V("a", I8)}[:n]...)
	}
	if m < 2 {
		r = b.chars(1, "y", []*E{V("c", I8)}[:m]...)
	}
	if rt.Choose("use", 2) == 0 {
		b.add(Ret(Bin(op, l, r)))
	} else {
		b.add(If(Bin(op, l, r), []*S{Ret(Bin("==", Lit(1, I32), Lit(1, I32)))}, nil), Ret(Bin("==", Lit(1, I32), Lit(2, I32))))
	}
	b.checkSym()
}

// H_C25_literals: comparisons between literals, and of a literal with a string
// of arbitrary characters.
func H_C25_literals() {
	op := []string{"==", "!=", "<", ">", "<=", ">="}[rt.Choose("op", 6)]
	b := newB(I1, params(I8, "a", "b")...)
	l := text("text")
	var r *E
	if k := rt.Choose("right", 3); k < 2 {
		r = b.chars(k, "y", V("a", I8), V("b", I8))
	} else {
		r = text("other text")
	}
	if rt.Choose("swap", 2) == 1 {
		l, r = r, l
	}
	b.add(Ret(Bin(op, l, r)))
	b.checkSym()
}

// H_C25_concat: + makes a new string with the characters of both, which is
// independent of them.
func H_C25_concat() {
	b := newB(I8, Field{"a", I8}, Field{"b", I8}, Field{"i", I64})
	l := b.strForm(rt.Choose("left form", nStrForms), text("left"))
	k := rt.Choose("right", 3)
	var r *E
	n := 0
	switch k {
	case 0, 1:
		r = b.chars(k, "y", V("a", I8), V("b", I8))
		n = 2
	case 2:
		r = text("right text")
		n = len(r.FS[0])
	}
	b.add(Decl("s", Bin("+", l, r)), Print(V("s", strT)))
	if k == 0 {
		// the parts can change
		b.add(Assign(Idx(r.A[0].A[0], Lit(0, I32)), Lit(1, I8)))
	}
	b.add(Assign(Idx(V("s", strT), Lit(0, I32)), V("a", I8)), Print(l, r))
	b.add(Ret(Idx(V("s", strT), V("i", I64))))
	i := Sym("i", I64)
	rt.Assume(rt.And(i.Num() >= 0, i.Num() <= int64(n)))
	b.check(Sym("a", I8), Sym("b", I8), i)
}

// H_C25_chain: several concatenations, and what is stored, passed and
// compared afterwards.
func H_C25_chain() {
	b := newB(I1, params(I8, "a")...)
	x := b.chars(rt.Choose("kind", 2), "x", V("a", I8))
	t := text("text")
	add := &Fn{Name: "add", Params: params(strT, "p", "q"), Ret: strT, Body: []*S{Ret(Bin("+", V("p", strT), V("q", strT)))}}
	b.p.Fns = append(b.p.Fns, add)
	var e *E
	switch rt.Choose("shape", 5) {
	case 0:
		e = Bin("+", Bin("+", x, t), x)
	case 1:
		e = Bin("+", x, Bin("+", t, x))
	case 2:
		e = Call(add, Call(add, x, t), x)
	case 3:
		b.add(Decl("u", Bin("+", x, t)))
		b.add(Decl("w", Bin("+", V("u", strT), x)))
		e = V("w", strT)
	case 4:
		b.add(DeclT("u", strT, x), Assign(V("u", strT), Bin("+", V("u", strT), t)), Assign(V("u", strT), Bin("+", V("u", strT), x)))
		e = V("u", strT)
	}
	b.add(Decl("r", e), Print(V("r", strT)))
	b.add(Ret(Bin("==", V("r", strT), Bin("+", x, Call(add, t, x)))))
	b.checkSym()
}

// H_C25_char: character literals are the i8 of their byte.
func H_C25_char() {
	lits := []*E{Raw("'a'", 'a', I8), Raw("'0'", '0', I8), Raw("' '", ' ', I8), Raw(`'\n'`, '\n', I8), Raw(`'\t'`, '\t', I8),
		Raw(`'\r'`, '\r', I8), Raw(`'\\'`, '\\', I8), Raw(`'\''`, '\'', I8), Raw(`'"'`, '"', I8), Raw("'~'", '~', I8)}
	l := lits[rt.Choose("literal", len(lits))]
	b := newB(I8, params(I8, "a")...)
	switch rt.Choose("use", 5) {
	case 0:
		b.add(Ret(Bin("+", V("a", I8), l)))
	case 1:
		b.add(If(Bin("==", V("a", I8), l), []*S{Ret(Lit(1, I8))}, nil), Ret(l))
	case 2:
		b.add(Decl("s", Str("abc", "abc")), Decl("c", l), Ret(Bin("+", Idx(V("s", strT), Lit(1, I32)), V("c", I8))))
	case 3:
		b.add(Switch(V("a", I8), []*E{l}, [][]*S{{Ret(Lit(1, I8))}}, []*S{Ret(Lit(2, I8))}))
		b.add(Ret(Lit(3, I8)))
	case 4:
		b.p.Globals = append(b.p.Globals, Decl("g", l))
		b.add(Ret(V("g", I8)))
	}
	b.checkSym()
}
