// Package irx interprets the LLVM IR modules the real compiler emits. It is
// executed symbolically by the engine, so loads, arithmetic and branches range
// over every value of the symbolic inputs.
package irx

import (
	rt "github.com/gabivlj/candice/internals/verifrt"
	"github.com/llir/llvm/ir"
	"github.com/llir/llvm/ir/constant"
	"github.com/llir/llvm/ir/enum"
	"github.com/llir/llvm/ir/types"
	"github.com/llir/llvm/ir/value"
)

// Kinds of values.
const (
	Undef = iota
	Int
	Bool
	F64
	F32
	Pointer
	Agg
	Void
)

// Val is an immutable run-time value.
type Val struct {
	K   int
	W   int
	U   uint64
	B   bool
	F   float64
	G   float32
	P   Ptr
	A   []slot
	Sz  int64
	Why string
}

// Ptr points into an object, at a function, or is a raw address.
type Ptr struct {
	O   *Obj
	Off int64
	Fn  *ir.Func
	Raw uint64
}

type slot struct {
	v *Val
	i int64 // byte of v
}

// Obj is one allocation.
type Obj struct {
	Name string
	S    []slot
	Size int64
	Base uint64
	Heap bool
	Dead bool
}

// Event is one call to an external function.
type Event struct {
	Name string
	Args []*Val
	Fmt  string
	Out  []Piece // what printf writes
	Call *ir.InstCall
}

// Sig is the type the function is called with.
func (e Event) Sig() string {
	return e.Call.Callee.Type().(*types.PointerType).ElemType.LLString()
}

// Extended tells how argument i is extended to a register: 1 with its sign, 2 with
// zeros, 0 not at all.
func (e Event) Extended(i int) int {
	if a, ok := e.Call.Args[i].(*ir.Arg); ok {
		for _, x := range a.Attrs {
			switch x {
			case enum.ParamAttrSignExt:
				return 1
			case enum.ParamAttrZeroExt:
				return 2
			}
		}
	}
	return 0
}

// Trap is the panic value of undefined or unsupported behaviour.
type Trap struct{ Msg string }

// M is a machine.
type M struct {
	call    *ir.InstCall // the last call
	mod     *ir.Module
	Globals map[*ir.Global]*Obj
	Events  []Event
	Steps   int
	Max     int
	depth   int
	next    uint64
	objs    []*Obj
	Trapped string
	Ext     func(m *M, name string, args []*Val) *Val
	Exited  bool
	NoHeap  bool // allocations are only recorded
}

func (m *M) trap(msg string) { panic(&Trap{msg}) }

// New initialises a machine with the module's globals.
func New(mod *ir.Module) *M {
	m := &M{mod: mod, Globals: map[*ir.Global]*Obj{}, Max: 20000, next: 0x10000}
	for _, g := range mod.Globals {
		m.Globals[g] = m.newObj("@", Size(g.ContentType), false)
	}
	for _, g := range mod.Globals {
		if g.Init != nil {
			m.store(&Val{K: Pointer, P: Ptr{O: m.Globals[g]}}, m.constant(g.Init, nil))
		}
	}
	return m
}

func (m *M) newObj(name string, size int64, heap bool) *Obj {
	o := &Obj{Name: name, S: make([]slot, size), Size: size, Heap: heap, Base: m.next}
	m.next += uint64((size+15)/16*16 + 64)
	m.objs = append(m.objs, o)
	return o
}

// HeapObjs are the blocks that were allocated.
func (m *M) HeapObjs() []*Obj {
	var out []*Obj
	for _, o := range m.objs {
		if o.Heap {
			out = append(out, o)
		}
	}
	return out
}

// ---- layout ---------------------------------------------------------------

// Size is the allocation size of t on x86-64.
func Size(t types.Type) int64 {
	switch t := t.(type) {
	case *types.IntType:
		return int64((t.BitSize + 7) / 8)
	case *types.FloatType:
		if t.Kind == types.FloatKindDouble {
			return 8
		}
		return 4
	case *types.PointerType:
		return 8
	case *types.ArrayType:
		return int64(t.Len) * Size(t.ElemType)
	case *types.StructType:
		off := int64(0)
		for _, f := range t.Fields {
			off = up(off, Align(f)) + Size(f)
		}
		return up(off, Align(t))
	}
	panic(&Trap{"size of unsized type " + t.String()})
}

// Align is the ABI alignment of t on x86-64.
func Align(t types.Type) int64 {
	switch t := t.(type) {
	case *types.ArrayType:
		return Align(t.ElemType)
	case *types.StructType:
		a := int64(1)
		for _, f := range t.Fields {
			if Align(f) > a {
				a = Align(f)
			}
		}
		return a
	}
	return Size(t)
}

// Offset of field i.
func Offset(t *types.StructType, i int64) int64 {
	off := int64(0)
	for k, f := range t.Fields {
		off = up(off, Align(f))
		if int64(k) == i {
			return off
		}
		off += Size(f)
	}
	panic(&Trap{"field index out of range"})
}

func up(x, a int64) int64 {
	if a <= 1 {
		return x
	}
	return (x + a - 1) / a * a
}

// ---- values ---------------------------------------------------------------

// IntV makes an integer of width w.
func IntV(w int, u uint64) *Val {
	if w == 1 {
		return &Val{K: Bool, W: 1, B: u&1 != 0}
	}
	return &Val{K: Int, W: w, U: mask(w, u)}
}

// BoolV makes an i1.
func BoolV(b bool) *Val     { return &Val{K: Bool, W: 1, B: b} }
func F64V(f float64) *Val   { return &Val{K: F64, F: f} }
func F32V(f float32) *Val   { return &Val{K: F32, G: f} }
func undef(why string) *Val { return &Val{K: Undef, Why: why} }

func mask(w int, u uint64) uint64 {
	switch w {
	case 8:
		return uint64(uint8(u))
	case 16:
		return uint64(uint16(u))
	case 32:
		return uint64(uint32(u))
	case 1:
		return u & 1
	}
	return u
}

func sext(w int, u uint64) int64 {
	switch w {
	case 8:
		return int64(int8(u))
	case 16:
		return int64(int16(u))
	case 32:
		return int64(int32(u))
	case 1:
		return -int64(u & 1)
	}
	return int64(u)
}

// Bits of an integer value, zero-extended.
func (v *Val) Bits() uint64 {
	if v.K == Bool {
		var u uint64
		if v.B {
			u = 1
		}
		return u
	}
	return v.U
}

// Signed value of an integer.
func (v *Val) Signed() int64 { return sext(v.W, v.Bits()) }

func (m *M) intOf(v *Val) *Val {
	if v.K == Undef {
		m.trap("undef used: " + v.Why)
	}
	if v.K != Int && v.K != Bool {
		m.trap("not an integer value")
	}
	return v
}

// ---- memory ---------------------------------------------------------------

func sizeOf(v *Val) int64 {
	switch v.K {
	case Int:
		return int64(v.W / 8)
	case Bool:
		return 1
	case F64, Pointer:
		return 8
	case F32:
		return 4
	}
	return v.Sz
}

func (m *M) access(p *Val, n int64, what string) (*Obj, int64) {
	if p.K == Undef {
		m.trap(what + " through undef pointer: " + p.Why)
	}
	if p.K != Pointer {
		m.trap(what + " through non-pointer")
	}
	pt := p.P
	if pt.O == nil {
		if pt.Fn != nil {
			m.trap(what + " of function memory")
		}
		if pt.Raw == 0 {
			m.trap(what + " through null")
		}
		m.trap(what + " through raw address")
	}
	if pt.O.Dead {
		m.trap(what + " of dead object " + pt.O.Name)
	}
	if pt.Off < 0 || pt.Off+n > pt.O.Size {
		m.trap(what + " out of bounds of " + pt.O.Name)
	}
	return pt.O, rt.Pick(pt.Off)
}

func (m *M) store(p, v *Val) {
	n := sizeOf(v)
	o, off := m.access(p, n, "store")
	if v.K == Agg {
		copy(o.S[off:off+n], v.A)
		return
	}
	for i := int64(0); i < n; i++ {
		o.S[off+i] = slot{v, i}
	}
}

func (m *M) load(p *Val, t types.Type) *Val {
	n := Size(t)
	o, off := m.access(p, n, "load")
	return fromSlots(o.S[off:off+n], t)
}

func fromSlots(s []slot, t types.Type) *Val {
	n := int64(len(s))
	switch t.(type) {
	case *types.StructType, *types.ArrayType:
		c := make([]slot, n)
		copy(c, s)
		return &Val{K: Agg, A: c, Sz: n}
	}
	v := s[0].v
	if v == nil {
		return &Val{K: Undef, Sz: n, Why: "uninitialised memory"}
	}
	whole := sizeOf(v) == n
	for i := int64(0); i < n; i++ {
		if s[i].v != v || s[i].i != i {
			whole = false
		}
	}
	if whole && kindMatches(v, t) {
		return v
	}
	var u uint64
	for i := n - 1; i >= 0; i-- {
		b := s[i]
		if b.v == nil || b.v.K == Undef {
			return &Val{K: Undef, Sz: n, Why: "uninitialised memory"}
		}
		u = u<<8 | (rawBits(b.v)>>(8*uint(b.i)))&0xff
	}
	return ofBits(u, t)
}

func kindMatches(v *Val, t types.Type) bool {
	switch t := t.(type) {
	case *types.IntType:
		return (v.K == Int || v.K == Bool) && v.W == int(t.BitSize)
	case *types.FloatType:
		if t.Kind == types.FloatKindDouble {
			return v.K == F64
		}
		return v.K == F32
	case *types.PointerType:
		return v.K == Pointer
	}
	return v.K == Undef
}

// rawBits is the memory image of v.
func rawBits(v *Val) uint64 {
	switch v.K {
	case Int, Bool:
		return v.Bits()
	case F64:
		return rt.F64bits(v.F)
	case F32:
		return uint64(rt.F32bits(v.G))
	case Pointer:
		return addr(v.P)
	}
	panic(&Trap{"bits of aggregate"})
}

func addr(p Ptr) uint64 {
	if p.O != nil {
		return p.O.Base + uint64(p.Off)
	}
	if p.Fn != nil {
		panic(&Trap{"address of function as integer"})
	}
	return p.Raw
}

func ofBits(u uint64, t types.Type) *Val {
	switch t := t.(type) {
	case *types.IntType:
		return IntV(int(t.BitSize), u)
	case *types.FloatType:
		if t.Kind == types.FloatKindDouble {
			return F64V(rt.F64frombits(u))
		}
		return F32V(rt.F32frombits(uint32(u)))
	case *types.PointerType:
		return &Val{K: Pointer, P: Ptr{Raw: u}}
	}
	panic(&Trap{"value of bits at " + t.String()})
}

func (m *M) toPtr(u uint64) *Val {
	for _, o := range m.objs {
		if u >= o.Base && u <= o.Base+uint64(o.Size) {
			return &Val{K: Pointer, P: Ptr{O: o, Off: int64(u - o.Base)}}
		}
	}
	return &Val{K: Pointer, P: Ptr{Raw: u}}
}

// ---- constants --------------------------------------------------------------

func zeroOf(t types.Type) *Val {
	switch t := t.(type) {
	case *types.IntType:
		return IntV(int(t.BitSize), 0)
	case *types.FloatType:
		if t.Kind == types.FloatKindDouble {
			return F64V(0)
		}
		return F32V(0)
	case *types.PointerType:
		return &Val{K: Pointer}
	}
	n := Size(t)
	a := make([]slot, n)
	z := IntV(8, 0)
	for i := range a {
		a[i] = slot{z, 0}
	}
	return &Val{K: Agg, A: a, Sz: n}
}

// constant evaluates c; want, when not nil, is the type the printed text gives
// an untyped second operand.
func (m *M) constant(c constant.Constant, want types.Type) *Val {
	switch c := c.(type) {
	case *constant.Int:
		t := types.Type(c.Typ)
		if want != nil {
			t = want
		}
		if it, ok := t.(*types.IntType); ok {
			u := c.X.Uint64()
			if c.X.Sign() < 0 {
				u = uint64(c.X.Int64())
			}
			return IntV(int(it.BitSize), u)
		}
		m.trap("integer constant for " + t.String())
	case *constant.Float:
		x, _ := c.X.Float64()
		if c.Typ.Kind == types.FloatKindDouble {
			return F64V(x)
		}
		return F32V(float32(x))
	case *constant.Null:
		return &Val{K: Pointer}
	case *constant.ZeroInitializer:
		return zeroOf(c.Typ)
	case *constant.Undef:
		if types.IsVoid(c.Typ) {
			return &Val{K: Void}
		}
		return m.undefOf(c.Typ)
	case *constant.CharArray:
		a := make([]slot, len(c.X))
		for i := range c.X {
			a[i] = slot{IntV(8, uint64(c.X[i])), 0}
		}
		return &Val{K: Agg, A: a, Sz: int64(len(c.X))}
	case *constant.Array:
		n := Size(c.Typ)
		v := &Val{K: Agg, A: make([]slot, n), Sz: n}
		es := Size(c.Typ.ElemType)
		for i, e := range c.Elems {
			put(v.A, int64(i)*es, m.constant(e, nil))
		}
		return v
	case *constant.Struct:
		n := Size(c.Typ)
		v := &Val{K: Agg, A: make([]slot, n), Sz: n}
		for i, e := range c.Fields {
			put(v.A, Offset(c.Typ, int64(i)), m.constant(e, nil))
		}
		return v
	case *ir.Global:
		return &Val{K: Pointer, P: Ptr{O: m.Globals[c]}}
	case *ir.Func:
		return &Val{K: Pointer, P: Ptr{Fn: c}}
	case *constant.ExprAdd:
		return m.bin("add", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprSub:
		return m.bin("sub", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprMul:
		return m.bin("mul", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprSDiv:
		return m.bin("sdiv", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprUDiv:
		return m.bin("udiv", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprSRem:
		return m.bin("srem", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprURem:
		return m.bin("urem", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprShl:
		return m.bin("shl", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprLShr:
		return m.bin("lshr", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprAShr:
		return m.bin("ashr", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprAnd:
		return m.bin("and", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprOr:
		return m.bin("or", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprXor:
		return m.bin("xor", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprFAdd:
		return m.fbin("fadd", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprFSub:
		return m.fbin("fsub", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprFMul:
		return m.fbin("fmul", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprFDiv:
		return m.fbin("fdiv", m.constant(c.X, nil), m.constant(c.Y, nil))
	case *constant.ExprTrunc:
		return m.conv("trunc", m.constant(c.From, nil), c.To)
	case *constant.ExprZExt:
		return m.conv("zext", m.constant(c.From, nil), c.To)
	case *constant.ExprSExt:
		return m.conv("sext", m.constant(c.From, nil), c.To)
	case *constant.ExprFPTrunc:
		return m.conv("fptrunc", m.constant(c.From, nil), c.To)
	case *constant.ExprFPExt:
		return m.conv("fpext", m.constant(c.From, nil), c.To)
	case *constant.ExprFPToUI:
		return m.conv("fptoui", m.constant(c.From, nil), c.To)
	case *constant.ExprFPToSI:
		return m.conv("fptosi", m.constant(c.From, nil), c.To)
	case *constant.ExprUIToFP:
		return m.conv("uitofp", m.constant(c.From, nil), c.To)
	case *constant.ExprSIToFP:
		return m.conv("sitofp", m.constant(c.From, nil), c.To)
	case *constant.ExprBitCast:
		return m.conv("bitcast", m.constant(c.From, nil), c.To)
	case *constant.ExprPtrToInt:
		return m.conv("ptrtoint", m.constant(c.From, nil), c.To)
	case *constant.ExprIntToPtr:
		return m.conv("inttoptr", m.constant(c.From, nil), c.To)
	case *constant.ExprGetElementPtr:
		var ix []*Val
		for _, x := range c.Indices {
			if i, ok := x.(*constant.Index); ok {
				x = i.Constant
			}
			ix = append(ix, m.constant(x, nil))
		}
		return m.gepOf(m.constant(c.Src, nil), c.ElemType, ix)
	case *constant.ExprSelect:
		b := m.constant(c.Cond, nil)
		if b.K != Bool {
			m.trap("select constant")
		}
		if b.B {
			return m.constant(c.X, nil)
		}
		return m.constant(c.Y, nil)
	case *constant.ExprICmp:
		return m.icmp(c.Pred, m.constant(c.X, nil), m.constant(c.Y, nil))
	}
	m.trap("unsupported constant")
	return nil
}

func (m *M) undefOf(t types.Type) *Val {
	switch t.(type) {
	case *types.StructType, *types.ArrayType:
		n := Size(t)
		return &Val{K: Agg, A: make([]slot, n), Sz: n}
	}
	return &Val{K: Undef, Sz: Size(t), Why: "undef constant"}
}

func put(s []slot, off int64, v *Val) {
	if v.K == Agg {
		copy(s[off:off+v.Sz], v.A)
		return
	}
	n := sizeOf(v)
	for i := int64(0); i < n; i++ {
		s[off+i] = slot{v, i}
	}
}

// ---- arithmetic ---------------------------------------------------------------

func (m *M) bin(op string, a, b *Val) *Val {
	if a.K == Undef || b.K == Undef {
		return undef("arithmetic on undef: " + a.Why + b.Why)
	}
	if a.K == Bool && b.K == Bool {
		switch op {
		case "and", "mul":
			return BoolV(rt.And(a.B, b.B))
		case "or":
			return BoolV(rt.Or(a.B, b.B))
		case "xor", "add", "sub":
			return BoolV(a.B != b.B)
		}
		m.trap("i1 " + op)
	}
	if a.K != Int || b.K != Int || a.W != b.W {
		m.trap(op + " operands differ")
	}
	w := a.W
	x, y := a.U, b.U
	switch op {
	case "add":
		switch w {
		case 8:
			return IntV(w, uint64(uint8(x)+uint8(y)))
		case 16:
			return IntV(w, uint64(uint16(x)+uint16(y)))
		case 32:
			return IntV(w, uint64(uint32(x)+uint32(y)))
		}
		return IntV(w, x+y)
	case "sub":
		switch w {
		case 8:
			return IntV(w, uint64(uint8(x)-uint8(y)))
		case 16:
			return IntV(w, uint64(uint16(x)-uint16(y)))
		case 32:
			return IntV(w, uint64(uint32(x)-uint32(y)))
		}
		return IntV(w, x-y)
	case "mul":
		switch w {
		case 8:
			return IntV(w, uint64(uint8(x)*uint8(y)))
		case 16:
			return IntV(w, uint64(uint16(x)*uint16(y)))
		case 32:
			return IntV(w, uint64(uint32(x)*uint32(y)))
		}
		return IntV(w, x*y)
	case "and":
		return IntV(w, x&y)
	case "or":
		return IntV(w, x|y)
	case "xor":
		return IntV(w, x^y)
	}
	if op == "shl" || op == "lshr" || op == "ashr" {
		if y >= uint64(w) {
			return undef("shift amount out of range")
		}
		switch op {
		case "shl":
			switch w {
			case 8:
				return IntV(w, uint64(uint8(x)<<uint8(y)))
			case 16:
				return IntV(w, uint64(uint16(x)<<uint16(y)))
			case 32:
				return IntV(w, uint64(uint32(x)<<uint32(y)))
			}
			return IntV(w, x<<y)
		case "lshr":
			switch w {
			case 8:
				return IntV(w, uint64(uint8(x)>>uint8(y)))
			case 16:
				return IntV(w, uint64(uint16(x)>>uint16(y)))
			case 32:
				return IntV(w, uint64(uint32(x)>>uint32(y)))
			}
			return IntV(w, x>>y)
		}
		switch w {
		case 8:
			return IntV(w, uint64(uint8(int8(x)>>uint8(y))))
		case 16:
			return IntV(w, uint64(uint16(int16(x)>>uint16(y))))
		case 32:
			return IntV(w, uint64(uint32(int32(x)>>uint32(y))))
		}
		return IntV(w, uint64(int64(x)>>y))
	}
	if y == 0 {
		m.trap("division by zero")
	}
	if op == "udiv" || op == "urem" {
		switch w {
		case 8:
			if op == "udiv" {
				return IntV(w, uint64(uint8(x)/uint8(y)))
			}
			return IntV(w, uint64(uint8(x)%uint8(y)))
		case 16:
			if op == "udiv" {
				return IntV(w, uint64(uint16(x)/uint16(y)))
			}
			return IntV(w, uint64(uint16(x)%uint16(y)))
		case 32:
			if op == "udiv" {
				return IntV(w, uint64(uint32(x)/uint32(y)))
			}
			return IntV(w, uint64(uint32(x)%uint32(y)))
		}
		if op == "udiv" {
			return IntV(w, x/y)
		}
		return IntV(w, x%y)
	}
	if sext(w, y) == -1 && x == uint64(1)<<uint(w-1) {
		m.trap("signed division overflow")
	}
	switch w {
	case 8:
		if op == "sdiv" {
			return IntV(w, uint64(uint8(int8(x)/int8(y))))
		}
		return IntV(w, uint64(uint8(int8(x)%int8(y))))
	case 16:
		if op == "sdiv" {
			return IntV(w, uint64(uint16(int16(x)/int16(y))))
		}
		return IntV(w, uint64(uint16(int16(x)%int16(y))))
	case 32:
		if op == "sdiv" {
			return IntV(w, uint64(uint32(int32(x)/int32(y))))
		}
		return IntV(w, uint64(uint32(int32(x)%int32(y))))
	}
	if op == "sdiv" {
		return IntV(w, uint64(int64(x)/int64(y)))
	}
	return IntV(w, uint64(int64(x)%int64(y)))
}

func (m *M) fbin(op string, a, b *Val) *Val {
	if a.K == Undef || b.K == Undef {
		return undef("arithmetic on undef: " + a.Why + b.Why)
	}
	if a.K == F64 && b.K == F64 {
		switch op {
		case "fadd":
			return F64V(a.F + b.F)
		case "fsub":
			return F64V(a.F - b.F)
		case "fmul":
			return F64V(a.F * b.F)
		case "fdiv":
			return F64V(a.F / b.F)
		}
	}
	if a.K == F32 && b.K == F32 {
		switch op {
		case "fadd":
			return F32V(a.G + b.G)
		case "fsub":
			return F32V(a.G - b.G)
		case "fmul":
			return F32V(a.G * b.G)
		case "fdiv":
			return F32V(a.G / b.G)
		}
	}
	m.trap("unsupported " + op)
	return nil
}

func (m *M) icmp(p enum.IPred, a, b *Val) *Val {
	if a.K == Undef || b.K == Undef {
		return undef("comparison of undef: " + a.Why + b.Why)
	}
	if a.K == Pointer && b.K == Pointer {
		return m.pcmp(p, a.P, b.P)
	}
	if a.K == Bool && b.K == Bool {
		x, y := a.B, b.B
		switch p {
		case enum.IPredEQ:
			return BoolV(x == y)
		case enum.IPredNE:
			return BoolV(x != y)
		case enum.IPredUGT, enum.IPredSLT: // signed i1: true is -1
			return BoolV(rt.And(x, !y))
		case enum.IPredUGE, enum.IPredSLE:
			return BoolV(rt.Or(x, !y))
		case enum.IPredULT, enum.IPredSGT:
			return BoolV(rt.And(!x, y))
		}
		return BoolV(rt.Or(!x, y))
	}
	if a.K != Int || b.K != Int || a.W != b.W {
		m.trap("icmp operands differ")
	}
	x, y := a.U, b.U
	sx, sy := sext(a.W, x), sext(b.W, y)
	switch p {
	case enum.IPredEQ:
		return BoolV(x == y)
	case enum.IPredNE:
		return BoolV(x != y)
	case enum.IPredUGT:
		return BoolV(x > y)
	case enum.IPredUGE:
		return BoolV(x >= y)
	case enum.IPredULT:
		return BoolV(x < y)
	case enum.IPredULE:
		return BoolV(x <= y)
	case enum.IPredSGT:
		return BoolV(sx > sy)
	case enum.IPredSGE:
		return BoolV(sx >= sy)
	case enum.IPredSLT:
		return BoolV(sx < sy)
	}
	return BoolV(sx <= sy)
}

func (m *M) pcmp(p enum.IPred, a, b Ptr) *Val {
	if p == enum.IPredEQ || p == enum.IPredNE {
		var eq bool
		switch {
		case a.O != nil && b.O != nil:
			eq = a.O == b.O && a.Off == b.Off
		case a.Fn != nil || b.Fn != nil:
			eq = a.Fn == b.Fn
		case a.O != nil || b.O != nil:
			eq = false
			if a.O == nil && a.Raw != 0 || b.O == nil && b.Raw != 0 {
				m.trap("comparison of raw address")
			}
		default:
			eq = a.Raw == b.Raw
		}
		return BoolV(eq == (p == enum.IPredEQ))
	}
	if a.O != nil && a.O == b.O {
		return m.icmp(p, IntV(64, uint64(a.Off)), IntV(64, uint64(b.Off)))
	}
	m.trap("ordering of unrelated pointers")
	return nil
}

func (m *M) fcmp(p enum.FPred, a, b *Val) *Val {
	if a.K == Undef || b.K == Undef {
		return undef("comparison of undef: " + a.Why + b.Why)
	}
	if a.K == F32 && b.K == F32 {
		x, y := a.G, b.G
		switch p {
		case enum.FPredOEQ:
			return BoolV(x == y)
		case enum.FPredONE:
			return BoolV(rt.Or(x < y, x > y))
		case enum.FPredUNE:
			return BoolV(x != y)
		case enum.FPredOGT:
			return BoolV(x > y)
		case enum.FPredOGE:
			return BoolV(x >= y)
		case enum.FPredOLT:
			return BoolV(x < y)
		case enum.FPredOLE:
			return BoolV(x <= y)
		case enum.FPredUGT:
			return BoolV(!(x <= y))
		case enum.FPredUGE:
			return BoolV(!(x < y))
		case enum.FPredULT:
			return BoolV(!(x >= y))
		case enum.FPredULE:
			return BoolV(!(x > y))
		case enum.FPredUEQ:
			return BoolV(!rt.Or(x < y, x > y))
		}
	}
	if a.K == F64 && b.K == F64 {
		x, y := a.F, b.F
		switch p {
		case enum.FPredOEQ:
			return BoolV(x == y)
		case enum.FPredONE:
			return BoolV(rt.Or(x < y, x > y))
		case enum.FPredUNE:
			return BoolV(x != y)
		case enum.FPredOGT:
			return BoolV(x > y)
		case enum.FPredOGE:
			return BoolV(x >= y)
		case enum.FPredOLT:
			return BoolV(x < y)
		case enum.FPredOLE:
			return BoolV(x <= y)
		case enum.FPredUGT:
			return BoolV(!(x <= y))
		case enum.FPredUGE:
			return BoolV(!(x < y))
		case enum.FPredULT:
			return BoolV(!(x >= y))
		case enum.FPredULE:
			return BoolV(!(x > y))
		case enum.FPredUEQ:
			return BoolV(!rt.Or(x < y, x > y))
		}
	}
	m.trap("unsupported fcmp")
	return nil
}

func (m *M) conv(op string, v *Val, to types.Type) *Val {
	if v.K == Undef {
		return &Val{K: Undef, Why: v.Why, Sz: Size(to)}
	}
	switch op {
	case "trunc", "zext":
		m.intOf(v)
		return IntV(int(to.(*types.IntType).BitSize), v.Bits())
	case "sext":
		m.intOf(v)
		return IntV(int(to.(*types.IntType).BitSize), uint64(sext(v.W, v.Bits())))
	case "fptrunc":
		if v.K == F64 {
			return F32V(float32(v.F))
		}
	case "fpext":
		if v.K == F32 {
			return F64V(float64(v.G))
		}
	case "fptosi", "fptoui":
		w := int(to.(*types.IntType).BitSize)
		var lo, hi float64
		switch {
		case op == "fptosi":
			p := pow2(w - 1)
			lo, hi = -p, p
		default:
			lo, hi = 0, pow2(w)
		}
		if v.K == F32 {
			g := v.G
			if !(float64(g) > lo-1 || w == 64 && float64(g) >= lo) || !(float64(g) < hi) {
				return &Val{K: Undef, Sz: Size(to), Why: "float out of integer range"}
			}
			if op == "fptosi" {
				return IntV(w, uint64(int64(g)))
			}
			return IntV(w, f32tou(g))
		}
		if v.K == F64 {
			f := v.F
			if !(f > lo-1 || w == 64 && f >= lo) || !(f < hi) {
				return &Val{K: Undef, Sz: Size(to), Why: "float out of integer range"}
			}
			if op == "fptosi" {
				return IntV(w, uint64(int64(f)))
			}
			return IntV(w, f64tou(f))
		}
	case "sitofp":
		m.intOf(v)
		if to.(*types.FloatType).Kind == types.FloatKindDouble {
			return F64V(float64(v.Signed()))
		}
		return F32V(float32(v.Signed()))
	case "uitofp":
		m.intOf(v)
		if to.(*types.FloatType).Kind == types.FloatKindDouble {
			return F64V(float64(v.Bits()))
		}
		return F32V(float32(v.Bits()))
	case "ptrtoint":
		if v.K != Pointer {
			m.trap("ptrtoint of non-pointer")
		}
		return IntV(int(to.(*types.IntType).BitSize), addr(v.P))
	case "inttoptr":
		m.intOf(v)
		return m.toPtr(v.Bits())
	case "bitcast":
		switch to.(type) {
		case *types.PointerType:
			if v.K == Pointer {
				return v
			}
		case *types.IntType, *types.FloatType:
			return ofBits(rawBits(v), to)
		}
	}
	m.trap("invalid " + op)
	return nil
}

func pow2(n int) float64 {
	f := 1.0
	for i := 0; i < n; i++ {
		f *= 2
	}
	return f
}

func f64tou(f float64) uint64 {
	if f >= 9223372036854775808.0 {
		return uint64(int64(f-9223372036854775808.0)) ^ 1<<63
	}
	return uint64(int64(f))
}

func f32tou(g float32) uint64 {
	if g >= 9223372036854775808.0 {
		return uint64(int64(g-9223372036854775808.0)) ^ 1<<63
	}
	return uint64(int64(g))
}

// ---- execution ------------------------------------------------------------------

type frame struct {
	env    map[value.Value]*Val
	allocs []*Obj
}

func (m *M) op(f *frame, v value.Value, want types.Type) *Val {
	if c, ok := v.(constant.Constant); ok {
		return m.constant(c, want)
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	m.trap("use of a value that is not defined on this path")
	return nil
}

// FindFunc returns the function compiled for the source function name.
func (m *M) FindFunc(name string) *ir.Func {
	for _, f := range m.mod.Funcs {
		if f.Name() == name {
			return f
		}
	}
	for _, f := range m.mod.Funcs {
		n := f.Name()
		if len(n) > len(name) && n[:len(name)+1] == name+"-" {
			return f
		}
	}
	return nil
}

// Run calls a source-level function and reports a trap, if any.
func (m *M) Run(name string, args ...*Val) (ret *Val, trap string) {
	f := m.FindFunc(name)
	if f == nil {
		return nil, "no function " + name
	}
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(*Trap); ok {
				ret, trap = nil, t.Msg
				return
			}
			panic(r)
		}
	}()
	ret = m.Call(f, args)
	return
}

// Call runs f.
func (m *M) Call(f *ir.Func, args []*Val) *Val {
	if len(f.Blocks) == 0 {
		return m.external(f, args)
	}
	m.depth++
	if m.depth > 40 {
		m.trap("call depth")
	}
	fr := &frame{env: map[value.Value]*Val{}}
	if len(args) != len(f.Params) {
		m.trap("argument count")
	}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	b := f.Blocks[0]
	for {
		for _, in := range b.Insts {
			m.Steps++
			if m.Steps > m.Max {
				m.trap("step limit")
			}
			m.inst(fr, in)
		}
		m.Steps++
		if m.Steps > m.Max {
			m.trap("step limit")
		}
		switch t := b.Term.(type) {
		case *ir.TermRet:
			for _, o := range fr.allocs {
				o.Dead = true
			}
			m.depth--
			if t.X == nil {
				return &Val{K: Void}
			}
			return m.op(fr, t.X, nil)
		case *ir.TermBr:
			b = t.Target.(*ir.Block)
		case *ir.TermCondBr:
			c := m.op(fr, t.Cond, nil)
			if c.K == Undef {
				m.trap("branch on undef: " + c.Why)
			}
			if c.K != Bool {
				m.trap("branch on non-i1")
			}
			if c.B {
				b = t.TargetTrue.(*ir.Block)
			} else {
				b = t.TargetFalse.(*ir.Block)
			}
		case *ir.TermSwitch:
			x := m.op(fr, t.X, nil)
			if x.K == Undef {
				m.trap("switch on undef")
			}
			nb := t.TargetDefault.(*ir.Block)
			for _, c := range t.Cases {
				cv := m.constant(c.X.(constant.Constant), nil)
				if cv.W != x.W {
					m.trap("switch case width")
				}
				if cv.Bits() == x.Bits() {
					nb = c.Target.(*ir.Block)
					break
				}
			}
			b = nb
		case *ir.TermUnreachable:
			m.trap("unreachable executed")
		case nil:
			m.trap("block without terminator")
		default:
			m.trap("unsupported terminator")
		}
	}
}

func (m *M) inst(f *frame, in ir.Instruction) {
	switch i := in.(type) {
	case *ir.InstAlloca:
		o := m.newObj("stack", Size(i.ElemType), false)
		f.allocs = append(f.allocs, o)
		f.env[i] = &Val{K: Pointer, P: Ptr{O: o}}
	case *ir.InstLoad:
		f.env[i] = m.load(m.op(f, i.Src, nil), i.ElemType)
	case *ir.InstStore:
		m.store(m.op(f, i.Dst, nil), m.op(f, i.Src, nil))
	case *ir.InstGetElementPtr:
		f.env[i] = m.gep(f, i)
	case *ir.InstAdd:
		f.env[i] = m.bin2(f, "add", i.X, i.Y)
	case *ir.InstSub:
		f.env[i] = m.bin2(f, "sub", i.X, i.Y)
	case *ir.InstMul:
		f.env[i] = m.bin2(f, "mul", i.X, i.Y)
	case *ir.InstSDiv:
		f.env[i] = m.bin2(f, "sdiv", i.X, i.Y)
	case *ir.InstUDiv:
		f.env[i] = m.bin2(f, "udiv", i.X, i.Y)
	case *ir.InstSRem:
		f.env[i] = m.bin2(f, "srem", i.X, i.Y)
	case *ir.InstURem:
		f.env[i] = m.bin2(f, "urem", i.X, i.Y)
	case *ir.InstShl:
		f.env[i] = m.bin2(f, "shl", i.X, i.Y)
	case *ir.InstLShr:
		f.env[i] = m.bin2(f, "lshr", i.X, i.Y)
	case *ir.InstAShr:
		f.env[i] = m.bin2(f, "ashr", i.X, i.Y)
	case *ir.InstAnd:
		f.env[i] = m.bin2(f, "and", i.X, i.Y)
	case *ir.InstOr:
		f.env[i] = m.bin2(f, "or", i.X, i.Y)
	case *ir.InstXor:
		f.env[i] = m.bin2(f, "xor", i.X, i.Y)
	case *ir.InstFAdd:
		f.env[i] = m.fbin("fadd", m.op(f, i.X, nil), m.op(f, i.Y, nil))
	case *ir.InstFSub:
		f.env[i] = m.fbin("fsub", m.op(f, i.X, nil), m.op(f, i.Y, nil))
	case *ir.InstFMul:
		f.env[i] = m.fbin("fmul", m.op(f, i.X, nil), m.op(f, i.Y, nil))
	case *ir.InstFDiv:
		f.env[i] = m.fbin("fdiv", m.op(f, i.X, nil), m.op(f, i.Y, nil))
	case *ir.InstFRem:
		m.trap("unsupported frem")
	case *ir.InstFNeg:
		v := m.op(f, i.X, nil)
		if v.K == F64 {
			f.env[i] = F64V(-v.F)
		} else if v.K == F32 {
			f.env[i] = F32V(-v.G)
		} else {
			m.trap("invalid fneg")
		}
	case *ir.InstICmp:
		f.env[i] = m.icmp(i.Pred, m.op(f, i.X, nil), m.op(f, i.Y, i.X.Type()))
	case *ir.InstFCmp:
		f.env[i] = m.fcmp(i.Pred, m.op(f, i.X, nil), m.op(f, i.Y, nil))
	case *ir.InstSelect:
		c := m.op(f, i.Cond, nil)
		if c.K != Bool {
			m.trap("select on non-i1")
		}
		if c.B {
			f.env[i] = m.op(f, i.ValueTrue, nil)
		} else {
			f.env[i] = m.op(f, i.ValueFalse, nil)
		}
	case *ir.InstTrunc:
		f.env[i] = m.conv("trunc", m.op(f, i.From, nil), i.To)
	case *ir.InstZExt:
		f.env[i] = m.conv("zext", m.op(f, i.From, nil), i.To)
	case *ir.InstSExt:
		f.env[i] = m.conv("sext", m.op(f, i.From, nil), i.To)
	case *ir.InstFPTrunc:
		f.env[i] = m.conv("fptrunc", m.op(f, i.From, nil), i.To)
	case *ir.InstFPExt:
		f.env[i] = m.conv("fpext", m.op(f, i.From, nil), i.To)
	case *ir.InstFPToUI:
		f.env[i] = m.conv("fptoui", m.op(f, i.From, nil), i.To)
	case *ir.InstFPToSI:
		f.env[i] = m.conv("fptosi", m.op(f, i.From, nil), i.To)
	case *ir.InstUIToFP:
		f.env[i] = m.conv("uitofp", m.op(f, i.From, nil), i.To)
	case *ir.InstSIToFP:
		f.env[i] = m.conv("sitofp", m.op(f, i.From, nil), i.To)
	case *ir.InstPtrToInt:
		f.env[i] = m.conv("ptrtoint", m.op(f, i.From, nil), i.To)
	case *ir.InstIntToPtr:
		f.env[i] = m.conv("inttoptr", m.op(f, i.From, nil), i.To)
	case *ir.InstBitCast:
		f.env[i] = m.conv("bitcast", m.op(f, i.From, nil), i.To)
	case *ir.InstCall:
		callee := m.op(f, i.Callee, nil)
		if callee.K != Pointer || callee.P.Fn == nil {
			m.trap("call of a non-function")
		}
		args := make([]*Val, len(i.Args))
		for k, a := range i.Args {
			if x, ok := a.(*ir.Arg); ok {
				a = x.Value
			}
			args[k] = m.op(f, a, nil)
		}
		m.call = i
		f.env[i] = m.Call(callee.P.Fn, args)
	default:
		m.trap("unsupported instruction")
	}
}

func (m *M) bin2(f *frame, op string, x, y value.Value) *Val {
	return m.bin(op, m.op(f, x, nil), m.op(f, y, x.Type()))
}

func (m *M) gep(f *frame, i *ir.InstGetElementPtr) *Val {
	var ix []*Val
	for _, x := range i.Indices {
		ix = append(ix, m.op(f, x, nil))
	}
	return m.gepOf(m.op(f, i.Src, nil), i.ElemType, ix)
}

func (m *M) gepOf(base *Val, t types.Type, ix []*Val) *Val {
	if base.K == Undef {
		return undef("address computed from undef: " + base.Why)
	}
	if base.K != Pointer {
		m.trap("gep of non-pointer")
	}
	off := int64(0)
	for k, v := range ix {
		if v.K == Undef {
			return undef("address computed from undef: " + v.Why)
		}
		m.intOf(v)
		n := v.Signed()
		if k == 0 {
			off += n * Size(t)
			continue
		}
		switch tt := t.(type) {
		case *types.StructType:
			off += Offset(tt, n)
			t = tt.Fields[n]
		case *types.ArrayType:
			off += n * Size(tt.ElemType)
			t = tt.ElemType
		default:
			m.trap("gep into scalar")
		}
	}
	p := base.P
	if p.O == nil {
		p.Raw += uint64(off)
	} else {
		p.Off += off
	}
	return &Val{K: Pointer, P: p}
}

// Str reads a NUL-terminated string.
func (m *M) Str(p *Val) []byte {
	var out []byte
	for i := int64(0); ; i++ {
		q := *p
		q.P.Off += i
		b := m.load(&q, types.I8)
		if b.K == Undef {
			m.trap("string contains undef")
		}
		if b.U == 0 {
			return out
		}
		if i > 200 {
			m.trap("unterminated string")
		}
		out = append(out, byte(b.U))
	}
}

func (m *M) external(f *ir.Func, args []*Val) *Val {
	name := f.Name()
	switch name {
	case "malloc":
		n := m.intOf(args[0])
		k := n.U
		if m.NoHeap {
			m.Events = append(m.Events, Event{Name: "malloc", Args: []*Val{n}})
			return &Val{K: Pointer, P: Ptr{O: m.newObj("heap", 0, true)}}
		}
		if k > 4096 {
			m.trap("malloc size out of model")
		}
		o := m.newObj("heap", rt.Pick(int64(k)), true)
		m.Events = append(m.Events, Event{Name: "malloc", Args: []*Val{n}})
		return &Val{K: Pointer, P: Ptr{O: o}}
	case "realloc":
		n := m.intOf(args[1])
		if m.NoHeap {
			m.Events = append(m.Events, Event{Name: "realloc", Args: []*Val{args[0], n}})
			return &Val{K: Pointer, P: Ptr{O: m.newObj("heap", 0, true)}}
		}
		if n.U > 4096 {
			m.trap("realloc size out of model")
		}
		o := m.newObj("heap", rt.Pick(int64(n.U)), true)
		p := args[0]
		if p.K != Pointer {
			m.trap("realloc of non-pointer")
		}
		if p.P.O != nil {
			if !p.P.O.Heap || p.P.O.Dead || p.P.Off != 0 {
				m.trap("realloc of a pointer that is not a live heap block")
			}
			copy(o.S, p.P.O.S)
			p.P.O.Dead = true
		} else if p.P.Raw != 0 || p.P.Fn != nil {
			m.trap("realloc of a pointer that is not a live heap block")
		}
		m.Events = append(m.Events, Event{Name: "realloc", Args: []*Val{p, n}})
		return &Val{K: Pointer, P: Ptr{O: o}}
	case "free":
		p := args[0]
		if p.K != Pointer {
			m.trap("free of non-pointer")
		}
		if p.P.O == nil {
			if p.P.Raw != 0 || p.P.Fn != nil {
				m.trap("free of raw pointer")
			}
			return &Val{K: Void}
		}
		if !p.P.O.Heap || p.P.O.Dead || p.P.Off != 0 {
			m.trap("free of a pointer that is not a live heap block")
		}
		p.P.O.Dead = true
		m.Events = append(m.Events, Event{Name: "free", Args: []*Val{p}})
		return &Val{K: Void}
	case "strlen":
		return IntV(64, uint64(len(m.Str(args[0]))))
	case "strcmp":
		a, b := m.Str(args[0]), m.Str(args[1])
		for i := 0; ; i++ {
			var x, y int
			if i < len(a) {
				x = int(a[i])
			}
			if i < len(b) {
				y = int(b[i])
			}
			if x != y {
				return IntV(32, uint64(int64(x-y)))
			}
			if x == 0 {
				return IntV(32, 0)
			}
		}
	case "memcpy":
		n := rt.Pick(int64(m.intOf(args[2]).U))
		d, doff := m.access(args[0], n, "memcpy write")
		s, soff := m.access(args[1], n, "memcpy read")
		copy(d.S[doff:doff+n], s.S[soff:soff+n])
		return &Val{K: Void}
	case "printf":
		ev := Event{Name: "printf", Fmt: string(m.Str(args[0])), Args: args[1:]}
		ev.Out = m.printf(ev.Fmt, ev.Args)
		m.Events = append(m.Events, ev)
		return IntV(32, 0)
	}
	m.Events = append(m.Events, Event{Name: name, Args: args, Call: m.call})
	if m.Ext != nil {
		return m.Ext(m, name, args)
	}
	ret := f.Sig.RetType
	if m.call != nil {
		ret = m.call.Type()
	}
	if types.IsVoid(ret) {
		return &Val{K: Void}
	}
	return zeroOf(ret)
}

// Module is what m runs.
func (m *M) Module() *ir.Module { return m.mod }
