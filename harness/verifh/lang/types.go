// Package lang is the checks' oracle for code generation: a small program
// model with its own printer (to Candice source) and its own evaluator,
// written from the language's documentation and independent of the compiler.
package lang

import "strconv"

// Ty is a Candice type.
type Ty struct {
	K byte // 'i' signed, 'u' unsigned, 'f' float, 'p' pointer, 'a' array, 's' struct, 'n' union, 'v' void, 'c' function, 'l' list
	W int
	E *Ty
	N int
	S string
	F []Field
	P []*Ty
	// cached spelling
	name string
}

// Field of a struct or union.
type Field struct {
	Name string
	T    *Ty
}

func scalar(k byte, w int) *Ty {
	return &Ty{K: k, W: w, name: string(rune(k)) + strconv.Itoa(w)}
}

var (
	I1, I8, I16, I32, I64 = scalar('i', 1), scalar('i', 8), scalar('i', 16), scalar('i', 32), scalar('i', 64)
	U8, U16, U32, U64     = scalar('u', 8), scalar('u', 16), scalar('u', 32), scalar('u', 64)
	F32, F64              = scalar('f', 32), scalar('f', 64)
	Void                  = &Ty{K: 'v', name: "void"}
)

// Ints are the multi-bit integer types.
var Ints = []*Ty{I8, I16, I32, I64, U8, U16, U32, U64}

// Nums are all numeric types but i1.
var Nums = []*Ty{I8, I16, I32, I64, U8, U16, U32, U64, F32, F64}

func Ptr(t *Ty) *Ty { return &Ty{K: 'p', E: t, name: "*" + t.name} }
func Arr(n int, t *Ty) *Ty {
	return &Ty{K: 'a', N: n, E: t, name: "[" + strconv.Itoa(n) + "]" + t.name}
}
func Struct(name string, f ...Field) *Ty {
	return &Ty{K: 's', S: name, F: f, name: name}
}
func Union(name string, f ...Field) *Ty {
	return &Ty{K: 'n', S: name, F: f, name: name}
}

// List is the type of a comma expression.
func List(t ...*Ty) *Ty {
	n := "("
	for i, x := range t {
		if i > 0 {
			n += ", "
		}
		n += x.name
	}
	return &Ty{K: 'l', P: t, name: n + ")"}
}

// Func is a function type.
func Func(ret *Ty, params ...*Ty) *Ty {
	n := "func("
	for i, x := range params {
		if i > 0 {
			n += ", "
		}
		n += x.name
	}
	return &Ty{K: 'c', E: ret, P: params, name: n + ") " + ret.name}
}

func (t *Ty) String() string { return t.name }
func (t *Ty) IsInt() bool    { return t.K == 'i' || t.K == 'u' }
func (t *Ty) IsFloat() bool  { return t.K == 'f' }
func (t *Ty) IsNum() bool    { return t.IsInt() || t.IsFloat() }

func (t *Ty) field(n string) int {
	for i := range t.F {
		if t.F[i].Name == n {
			return i
		}
	}
	return -1
}

// Size and Align are the C layout on x86-64.
func (t *Ty) Size() int64 {
	switch t.K {
	case 'i', 'u', 'f':
		return int64((t.W + 7) / 8)
	case 'p', 'c':
		return 8
	case 'a':
		return int64(t.N) * t.E.Size()
	case 's':
		off := int64(0)
		for _, f := range t.F {
			a := f.T.Align()
			off = (off+a-1)/a*a + f.T.Size()
		}
		a := t.Align()
		return (off + a - 1) / a * a
	case 'n':
		m := int64(0)
		for _, f := range t.F {
			if s := f.T.Size(); s > m {
				m = s
			}
		}
		a := t.Align()
		return (m + a - 1) / a * a
	}
	return 0
}

func (t *Ty) Align() int64 {
	switch t.K {
	case 'i', 'u', 'f':
		return int64((t.W + 7) / 8)
	case 'p', 'c':
		return 8
	case 'a':
		return t.E.Align()
	case 's', 'n':
		m := int64(1)
		for _, f := range t.F {
			if a := f.T.Align(); a > m {
				m = a
			}
		}
		return m
	}
	return 1
}
