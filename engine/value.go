package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// V is a value of the interpreted program. Scalars live in u (r==nil) or are
// symbolic (r is *Term). Everything else is in r; r==nil is the nil/zero value.
type V struct {
	u uint64
	r any
}

type Agg struct{ f []V } // struct or array value

type SymStr struct{ b []V }

type SymPtr struct { // pointer to base[idx] with symbolic in-range idx
	base []V
	idx  *Term
	w    uint8
}

type Iface struct {
	t *TI
	v V
}

type Closure struct {
	fn  *Fn
	env []V
	bi  string // builtin name, if fn == nil
}

type Tuple []V

type mapEnt struct {
	k, v V
	ks   any
	dead bool
}

type Map struct {
	ent []*mapEnt
	idx map[any]*mapEnt
	n   int
}

type RangeIter struct {
	m     *Map
	order []*mapEnt
	s     V
	pos   int
}

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KString
	KPtr
	KSlice
	KMap
	KStruct
	KArray
	KIface
	KFunc
	KChan
	KTuple
	KUnsafe
	KComplex
	KUnk
)

// TI is the canonical descriptor of a Go type.
type TI struct {
	typ    types.Type
	kind   Kind
	w      uint8 // scalar width (0 bool, 1..64 ints, SF32/SF64)
	signed bool
	fields []*TI
	elem   *TI
	key    *TI
	n      int
	id     int
	name   string

	mu      sync.Mutex
	methods map[string]*Fn
	mset    *types.MethodSet
}

var (
	tiMu   sync.Mutex
	tiMap  typeutil.Map
	tiFast sync.Map // types.Type -> *TI
	tiN    int
)

func TypeInfo(t types.Type) *TI {
	if x, ok := tiFast.Load(t); ok {
		return x.(*TI)
	}
	tiMu.Lock()
	defer tiMu.Unlock()
	return tiLocked(t)
}

func tiLocked(t types.Type) *TI {
	t = types.Unalias(t)
	if x, ok := tiFast.Load(t); ok {
		return x.(*TI)
	}
	if x := tiMap.At(t); x != nil {
		tiFast.Store(t, x)
		return x.(*TI)
	}
	ti := &TI{typ: t, id: tiN, name: t.String(), kind: KUnk}
	tiN++
	tiMap.Set(t, ti)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = KBool
		case types.Int, types.UntypedInt:
			ti.kind, ti.w, ti.signed = KInt, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.signed = KInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = KInt, 32, true
		case types.Int64:
			ti.kind, ti.w, ti.signed = KInt, 64, true
		case types.Uint, types.Uintptr, types.Uint64:
			ti.kind, ti.w = KInt, 64
		case types.Uint8:
			ti.kind, ti.w = KInt, 8
		case types.Uint16:
			ti.kind, ti.w = KInt, 16
		case types.Uint32:
			ti.kind, ti.w = KInt, 32
		case types.Float32:
			ti.kind, ti.w = KFloat, SF32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w = KFloat, SF64
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer:
			ti.kind = KUnsafe
		case types.UntypedNil:
			ti.kind = KPtr
		default:
			ti.kind = KComplex
		}
	case *types.Pointer:
		ti.kind = KPtr
		ti.elem = tiLocked(u.Elem())
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = tiLocked(u.Elem())
	case *types.Map:
		ti.kind = KMap
		ti.key = tiLocked(u.Key())
		ti.elem = tiLocked(u.Elem())
	case *types.Struct:
		ti.kind = KStruct
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, tiLocked(u.Field(i).Type()))
		}
	case *types.Array:
		ti.kind = KArray
		ti.elem = tiLocked(u.Elem())
		ti.n = int(u.Len())
	case *types.Interface:
		ti.kind = KIface
	case *types.Signature:
		ti.kind = KFunc
	case *types.Chan:
		ti.kind = KChan
		ti.elem = tiLocked(u.Elem())
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tiLocked(u.At(i).Type()))
		}
	}
	tiFast.Store(t, ti)
	return ti
}

func (ti *TI) scalar() bool { return ti.kind == KBool || ti.kind == KInt || ti.kind == KFloat }

func zero(ti *TI) V {
	switch ti.kind {
	case KStruct:
		a := &Agg{f: make([]V, len(ti.fields))}
		for i, f := range ti.fields {
			if f.kind == KStruct || f.kind == KArray {
				a.f[i] = zero(f)
			}
		}
		return V{r: a}
	case KArray:
		a := &Agg{f: make([]V, ti.n)}
		if ti.elem.kind == KStruct || ti.elem.kind == KArray {
			for i := range a.f {
				a.f[i] = zero(ti.elem)
			}
		}
		return V{r: a}
	case KTuple:
		a := make(Tuple, len(ti.fields))
		for i, f := range ti.fields {
			a[i] = zero(f)
		}
		return V{r: a}
	}
	return V{}
}

func copyV(v V) V {
	if a, ok := v.r.(*Agg); ok {
		n := &Agg{f: make([]V, len(a.f))}
		for i := range a.f {
			if _, ok := a.f[i].r.(*Agg); ok {
				n.f[i] = copyV(a.f[i])
			} else {
				n.f[i] = a.f[i]
			}
		}
		return V{r: n}
	}
	return v
}

func storeV(p *V, v V) {
	if a, ok := v.r.(*Agg); ok {
		d, ok := p.r.(*Agg)
		if !ok || len(d.f) != len(a.f) {
			*p = copyV(v)
			return
		}
		if d == a {
			return
		}
		for i := range a.f {
			if _, ok := a.f[i].r.(*Agg); ok {
				storeV(&d.f[i], a.f[i])
			} else {
				d.f[i] = a.f[i]
			}
		}
		return
	}
	*p = v
}

// ---- strings

func mkStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{r: s}
}

func strLen(v V) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.r))
}

func strAt(v V, i int) V {
	switch s := v.r.(type) {
	case string:
		return V{u: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v V) []V {
	switch s := v.r.(type) {
	case nil:
		return nil
	case string:
		r := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			r[i].u = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v.r))
}

// strFrom takes ownership of b.
func strFrom(b []V) V {
	if len(b) == 0 {
		return V{}
	}
	for i := range b {
		if b[i].r != nil {
			return V{r: &SymStr{b: b}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].u)
	}
	return V{r: string(bs)}
}

func strConc(v V) (string, bool) {
	switch s := v.r.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strSlice(v V, lo, hi int) V {
	switch s := v.r.(type) {
	case nil:
		return V{}
	case string:
		return mkStr(s[lo:hi])
	case *SymStr:
		return strFrom(append([]V(nil), s.b[lo:hi]...))
	}
	panic("strSlice")
}

func strCat(a, b V) V {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	x, ok1 := a.r.(string)
	y, ok2 := b.r.(string)
	if ok1 && ok2 {
		return V{r: x + y}
	}
	return strFrom(append(append([]V(nil), strBytes(a)...), strBytes(b)...))
}

// ---- debugging / observation

func (p *Path) show(v V, ti *TI, depth int) string {
	switch x := v.r.(type) {
	case *Term:
		if p != nil && p.w != nil {
			return fmtScalar(p.w.ctx.eval(x, p.model), ti)
		}
		return x.String()
	case *SymStr:
		bs := make([]byte, len(x.b))
		for i, b := range x.b {
			if t, ok := b.r.(*Term); ok {
				bs[i] = byte(p.w.ctx.eval(t, p.model))
			} else {
				bs[i] = byte(b.u)
			}
		}
		return string(bs)
	case string:
		return x
	case *Iface:
		return p.show(x.v, x.t, depth)
	case *Agg:
		if depth > 3 {
			return "{..}"
		}
		var parts []string
		for i, f := range x.f {
			var ft *TI
			if ti != nil {
				if ti.kind == KStruct {
					ft = ti.fields[i]
				} else {
					ft = ti.elem
				}
			}
			parts = append(parts, p.show(f, ft, depth+1))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case nil:
		if ti != nil && ti.scalar() {
			return fmtScalar(v.u, ti)
		}
		if ti != nil && ti.kind == KString {
			return ""
		}
		if ti != nil {
			return "nil"
		}
		return fmt.Sprint(v.u)
	}
	return fmt.Sprintf("<%T>", v.r)
}

func fmtScalar(u uint64, ti *TI) string {
	if ti == nil {
		return fmt.Sprint(u)
	}
	switch ti.kind {
	case KBool:
		return fmt.Sprint(u != 0)
	case KFloat:
		if ti.w == SF32 {
			return fmt.Sprint(math.Float32frombits(uint32(u)))
		}
		return fmt.Sprint(math.Float64frombits(u))
	}
	if ti.signed {
		return fmt.Sprint(sx(u, ti.w))
	}
	return fmt.Sprint(u & mask(ti.w))
}
