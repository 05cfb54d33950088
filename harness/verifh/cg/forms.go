// Package cg holds the harnesses about generated code.
package cg

import (
	"strconv"

	. "github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

func params(t *Ty, names ...string) []Field {
	var f []Field
	for _, n := range names {
		f = append(f, Field{n, t})
	}
	return f
}

// bld accumulates a program around one function f.
type bld struct {
	p *Prog
	f *Fn
	n int
}

func newB(ret *Ty, ps ...Field) *bld {
	f := &Fn{Name: "f", Params: ps, Ret: ret}
	return &bld{p: &Prog{}, f: f}
}

func (b *bld) fresh(s string) string {
	b.n++
	return s + strconv.Itoa(b.n)
}

func (b *bld) add(s ...*S) { b.f.Body = append(b.f.Body, s...) }

func (b *bld) check(args ...*Val) {
	b.p.Fns = append(b.p.Fns, b.f)
	b.p.Check(b.f, args...)
}

// checkSym checks with arbitrary arguments.
func (b *bld) checkSym() {
	var vs []*Val
	for _, p := range b.f.Params {
		vs = append(vs, Sym(p.Name, p.T))
	}
	b.check(vs...)
}

// Forms a value can be read in.
const (
	fParam = iota
	fLocal
	fDeref
	fElem
	fField
	fPtrField
	fCall
	fHeap
	fBlock
	fGlobal
	fNested
	fLambda
	nForms
)

var formNames = []string{"param", "local", "deref", "array element", "struct field", "field through pointer", "call result",
	"heap element", "block expression", "global", "field of an element of a field", "anonymous function call"}

// zeroOf is a literal of type t.
func zeroOf(t *Ty) *E {
	if t.IsFloat() {
		return FLit("0.0", 0, t)
	}
	return Lit(0, t)
}

// form stores v somewhere and returns an expression that reads it back.
func (b *bld) form(k int, v *E) *E {
	t := v.T
	switch k {
	case fParam:
		return v
	case fLocal:
		n := b.fresh("x")
		b.add(Decl(n, v))
		return V(n, t)
	case fDeref:
		n, q := b.fresh("x"), b.fresh("q")
		b.add(Decl(n, v), Decl(q, Addr(V(n, t))))
		return Deref(V(q, Ptr(t)))
	case fElem:
		n := b.fresh("a")
		at := Arr(3, t)
		b.add(Decl(n, ArrLit(at, v, v, v)))
		b.add(Assign(Idx(V(n, at), Lit(1, I32)), v))
		return Idx(V(n, at), Lit(1, I32))
	case fField, fPtrField:
		st := Struct(b.fresh("St"), Field{"u", I8}, Field{"v", t}, Field{"w", I8})
		b.p.Types = append(b.p.Types, st)
		n := b.fresh("s")
		b.add(Decl(n, StructLit(st, []string{"u", "v", "w"}, Lit(1, I8), v, Lit(2, I8))))
		if k == fField {
			return Fld(V(n, st), "v")
		}
		q := b.fresh("q")
		b.add(Decl(q, Addr(V(n, st))))
		return Fld(V(q, Ptr(st)), "v")
	case fCall:
		id := &Fn{Name: b.fresh("id"), Params: params(t, "z"), Ret: t, Body: []*S{Ret(V("z", t))}}
		b.p.Fns = append(b.p.Fns, id)
		return Call(id, v)
	case fHeap:
		n := b.fresh("h")
		b.add(Decl(n, Alloc(t, Lit(3, I32))))
		b.add(Assign(Idx(V(n, Ptr(t)), Lit(2, I32)), v))
		return Idx(V(n, Ptr(t)), Lit(2, I32))
	case fBlock:
		n := b.fresh("y")
		return BlockE(t, Decl(n, v), Ret(V(n, t)))
	case fGlobal:
		n := b.fresh("g")
		b.p.Globals = append(b.p.Globals, DeclT(n, t, zeroOf(t)))
		b.add(Assign(V(n, t), v))
		return V(n, t)
	case fNested:
		in := Struct(b.fresh("In"), Field{"x", I16}, Field{"y", t})
		at := Arr(2, in)
		st := Struct(b.fresh("Ou"), Field{"c", I8}, Field{"d", at})
		b.p.Types = append(b.p.Types, in, st)
		n, e := b.fresh("s"), b.fresh("e")
		b.add(Decl(e, StructLit(in, []string{"x", "y"}, Lit(5, I16), v)))
		b.add(Decl(n, StructLit(st, []string{"c", "d"}, Lit(6, I8), ArrLit(at, V(e, in), V(e, in)))))
		return Fld(Idx(Fld(V(n, st), "d"), Lit(1, I32)), "y")
	case fLambda:
		n := b.fresh("fn")
		l := &Fn{Name: n, Params: params(t, "z"), Ret: t, Body: []*S{Ret(V("z", t))}}
		e := Lambda(l)
		b.add(Decl(n, e))
		return CallV(V(n, e.T), v)
	}
	panic("form")
}

func chooseForm(name string) int { return rt.Choose(name, nForms) }
