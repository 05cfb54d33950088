package lang

import (
	"strconv"

	"github.com/gabivlj/candice/internals/verifh/irx"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// Val is a value: an integer (U, zero-extended; B for i1), a float, a pointer,
// an aggregate or a function.
type Val struct {
	T  *Ty
	U  uint64
	B  bool
	F  float64
	G  float32
	P  *Cell
	A  []*Val
	Fn *Fn
	M  []mslot // bytes of a union
}

// Cell is a memory location; aggregates have sub-cells.
type Cell struct {
	T     *Ty
	V     *Val
	Kids  []*Cell
	Par   *Cell
	I     int
	Seq   []*Cell // neighbours for pointer arithmetic
	Dead  bool
	Const bool
	// unions and everything in them are views of bytes
	Mem []mslot
	Off int64
}

// mslot is byte i of v.
type mslot struct {
	v *Val
	i int64
}

// Event is an observation.
type Event struct {
	Name string
	V    *Val
	Out  []irx.Piece
	Ptrs []*Val // the addresses printed
}

type scope struct {
	names []string
	cells []*Cell
	up    *scope
}

func (s *scope) get(n string) *Cell {
	for ; s != nil; s = s.up {
		for i := len(s.names) - 1; i >= 0; i-- {
			if s.names[i] == n {
				return s.cells[i]
			}
		}
	}
	return nil
}

func (s *scope) add(n string, c *Cell) {
	s.names = append(s.names, n)
	s.cells = append(s.cells, c)
}

// M evaluates programs.
type M struct {
	P       *Prog
	Events  []Event
	globals *scope
	steps   int
	capt    map[*Fn]*scope
	strs    map[*E]*Val
	UB      string
}

type ubPanic struct{ why string }

func (m *M) ub(why string) { panic(&ubPanic{why}) }

// IntV, BoolV, F32V, F64V build values.
func IntV(t *Ty, u uint64) *Val {
	if t.W == 1 {
		return &Val{T: t, B: u&1 != 0}
	}
	return &Val{T: t, U: mask(t.W, u)}
}
func BoolV(b bool) *Val   { return &Val{T: I1, B: b} }
func F64V(f float64) *Val { return &Val{T: F64, F: f} }
func F32V(g float32) *Val { return &Val{T: F32, G: g} }

// Sym makes an arbitrary value of a scalar type.
func Sym(name string, t *Ty) *Val {
	switch t {
	case I1:
		return BoolV(rt.Bool(name))
	case F32:
		return F32V(rt.Float32(name))
	case F64:
		return F64V(rt.Float64(name))
	}
	switch t.W {
	case 8:
		return IntV(t, uint64(rt.Byte(name)))
	case 16:
		return IntV(t, uint64(rt.Uint16(name)))
	case 32:
		return IntV(t, uint64(rt.Uint32(name)))
	}
	return IntV(t, rt.Uint64(name))
}

func mask(w int, u uint64) uint64 {
	switch w {
	case 8:
		return uint64(uint8(u))
	case 16:
		return uint64(uint16(u))
	case 32:
		return uint64(uint32(u))
	case 1:
		return u & 1
	}
	return u
}

func sx(w int, u uint64) int64 {
	switch w {
	case 8:
		return int64(int8(u))
	case 16:
		return int64(int16(u))
	case 32:
		return int64(int32(u))
	}
	return int64(u)
}

// Num is the integer's mathematical value as int64 (or uint64 bits for u64).
func (v *Val) Num() int64 {
	if v.T.W == 1 {
		if v.B {
			return 1
		}
		return 0
	}
	if v.T.K == 'i' {
		return sx(v.T.W, v.U)
	}
	return int64(v.U)
}

func (m *M) newCell(t *Ty) *Cell { return m.cellIn(t, nil, 0) }

// cellIn makes a cell at offset off of the bytes mem of a union, if any.
func (m *M) cellIn(t *Ty, mem []mslot, off int64) *Cell {
	c := &Cell{T: t, Mem: mem, Off: off}
	switch t.K {
	case 'a':
		for i := 0; i < t.N; i++ {
			k := m.cellIn(t.E, mem, off+int64(i)*t.E.Size())
			k.Par, k.I = c, i
			c.Kids = append(c.Kids, k)
		}
		for _, k := range c.Kids {
			k.Seq = c.Kids
		}
	case 's':
		for i := range t.F {
			a := t.F[i].T.Align()
			off = (off + a - 1) / a * a
			k := m.cellIn(t.F[i].T, mem, off)
			off += t.F[i].T.Size()
			k.Par, k.I = c, i
			c.Kids = append(c.Kids, k)
		}
	case 'n':
		if mem == nil {
			c.Mem, c.Off, off = make([]mslot, t.Size()), 0, 0
		}
		for i := range t.F {
			k := m.cellIn(t.F[i].T, c.Mem, off)
			k.Par, k.I = c, i
			c.Kids = append(c.Kids, k)
		}
	case 'l':
		for i := range t.P {
			c.Kids = append(c.Kids, m.newCell(t.P[i]))
		}
	}
	return c
}

func (m *M) load(c *Cell) *Val {
	if c == nil {
		m.ub("null")
	}
	if c.Dead {
		m.ub("dead")
	}
	switch c.T.K {
	case 'a', 's', 'l':
		v := &Val{T: c.T}
		for _, k := range c.Kids {
			v.A = append(v.A, m.loadMaybe(k))
		}
		return v
	}
	if c.T.K == 'n' {
		v := &Val{T: c.T, M: make([]mslot, c.T.Size())}
		copy(v.M, c.Mem[c.Off:])
		return v
	}
	v := c.V
	if c.Mem != nil {
		v = m.fromBytes(c)
	}
	if v == nil {
		m.ub("uninitialised")
	}
	return v
}

// fromBytes reads a scalar in a union, nil if some byte isn't initialised.
func (m *M) fromBytes(c *Cell) *Val {
	n := c.T.Size()
	b := c.Mem[c.Off : c.Off+n]
	whole := true
	for i := range b {
		if b[i].v == nil {
			return nil
		}
		if b[i].v != b[0].v || b[i].i != int64(i) {
			whole = false
		}
	}
	f := b[0].v
	if whole && f.T.Size() == n && (f.T == c.T || f.T.K == c.T.K && (f.T.K == 'p' || f.T.K == 'c')) {
		return f
	}
	u := uint64(0)
	for i := n - 1; i >= 0; i-- {
		u = u<<8 | m.bits(b[i].v)>>(8*uint(b[i].i))&0xff
	}
	switch {
	case c.T == F32:
		return F32V(rt.F32frombits(uint32(u)))
	case c.T == F64:
		return F64V(rt.F64frombits(u))
	case c.T.W == 1:
		if u > 1 {
			m.ub("not a truth value")
		}
		return IntV(I1, u)
	case c.T.IsInt():
		return IntV(c.T, u)
	}
	m.ub("pointer made of bytes")
	return nil
}

// bits is the memory image of a number.
func (m *M) bits(v *Val) uint64 {
	switch {
	case v.T == F32:
		return uint64(rt.F32bits(v.G))
	case v.T == F64:
		return rt.F64bits(v.F)
	case v.T.W == 1:
		if v.B {
			return 1
		}
		return 0
	case v.T.IsInt():
		return v.U
	}
	m.ub("bytes of a pointer")
	return 0
}

func (m *M) loadMaybe(c *Cell) *Val {
	switch c.T.K {
	case 'a', 's', 'l', 'n':
		return m.load(c)
	}
	if c.Mem != nil {
		return m.fromBytes(c)
	}
	return c.V
}

func (m *M) store(c *Cell, v *Val) {
	if c == nil {
		m.ub("null")
	}
	if c.Dead {
		m.ub("dead")
	}
	switch c.T.K {
	case 'a', 's', 'l':
		if c.Mem != nil {
			// the padding isn't kept
			for j := int64(0); j < c.T.Size(); j++ {
				c.Mem[c.Off+j] = mslot{}
			}
		}
		for i, k := range c.Kids {
			if v.A[i] == nil {
				k.V = nil
				if k.Mem != nil {
					for j := int64(0); j < k.T.Size(); j++ {
						k.Mem[k.Off+j] = mslot{}
					}
				}
				continue
			}
			m.store(k, v.A[i])
		}
		return
	case 'n':
		if v.T.K == 'n' {
			copy(c.Mem[c.Off:], v.M)
			return
		}
		// a value of one of the members
		for _, k := range c.Kids {
			if k.T.name == v.T.name {
				m.store(k, v)
				return
			}
		}
		panic("no member of type " + v.T.name)
	}
	if c.Mem != nil {
		for j := int64(0); j < c.T.Size(); j++ {
			c.Mem[c.Off+j] = mslot{v, j}
		}
		return
	}
	c.V = v
}

func (v *Val) truth(m *M) bool {
	switch {
	case v.T.W == 1 && v.T.K == 'i':
		return v.B
	case v.T.K == 'p':
		return v.P != nil
	case v.T.IsInt():
		return v.U != 0
	case v.T == F32:
		return v.G != 0
	case v.T == F64:
		return v.F != 0
	}
	panic("truth of " + v.T.name)
}

func arith(m *M, op string, t *Ty, a, b *Val) *Val {
	if t == F32 {
		switch op {
		case "+":
			return F32V(a.G + b.G)
		case "-":
			return F32V(a.G - b.G)
		case "*":
			return F32V(a.G * b.G)
		case "/":
			return F32V(a.G / b.G)
		}
	}
	if t == F64 {
		switch op {
		case "+":
			return F64V(a.F + b.F)
		case "-":
			return F64V(a.F - b.F)
		case "*":
			return F64V(a.F * b.F)
		case "/":
			return F64V(a.F / b.F)
		}
	}
	if t.W == 1 {
		switch op {
		case "&":
			return BoolV(rt.And(a.B, b.B))
		case "|":
			return BoolV(rt.Or(a.B, b.B))
		case "^":
			return BoolV(a.B != b.B)
		}
	}
	x, y := a.U, b.U
	switch op {
	case "&":
		return IntV(t, x&y)
	case "|":
		return IntV(t, x|y)
	case "^":
		return IntV(t, x^y)
	}
	if op == "/" || op == "%" {
		if y == 0 {
			m.ub("division by zero")
		}
		if t.K == 'i' && sx(t.W, y) == -1 && x == uint64(1)<<uint(t.W-1) {
			m.ub("division overflow")
		}
	}
	if op == "<<" || op == ">>" {
		if y >= uint64(t.W) {
			m.ub("shift amount")
		}
	}
	switch t {
	case I8:
		x, y := int8(x), int8(y)
		switch op {
		case "+":
			return IntV(t, uint64(uint8(x)+uint8(y)))
		case "-":
			return IntV(t, uint64(uint8(x)-uint8(y)))
		case "*":
			return IntV(t, uint64(uint8(x)*uint8(y)))
		case "/":
			return IntV(t, uint64(x/y))
		case "%":
			return IntV(t, uint64(x%y))
		case "<<":
			return IntV(t, uint64(uint8(x)<<uint8(y)))
		case ">>":
			return IntV(t, uint64(uint8(x>>uint8(y))))
		}
	case U8:
		x, y := uint8(x), uint8(y)
		switch op {
		case "+":
			return IntV(t, uint64(x+y))
		case "-":
			return IntV(t, uint64(x-y))
		case "*":
			return IntV(t, uint64(x*y))
		case "/":
			return IntV(t, uint64(x/y))
		case "%":
			return IntV(t, uint64(x%y))
		case "<<":
			return IntV(t, uint64(x<<y))
		case ">>":
			return IntV(t, uint64(x>>y))
		}
	case I16:
		x, y := int16(x), int16(y)
		switch op {
		case "+":
			return IntV(t, uint64(uint16(x)+uint16(y)))
		case "-":
			return IntV(t, uint64(uint16(x)-uint16(y)))
		case "*":
			return IntV(t, uint64(uint16(x)*uint16(y)))
		case "/":
			return IntV(t, uint64(x/y))
		case "%":
			return IntV(t, uint64(x%y))
		case "<<":
			return IntV(t, uint64(uint16(x)<<uint16(y)))
		case ">>":
			return IntV(t, uint64(uint16(x>>uint16(y))))
		}
	case U16:
		x, y := uint16(x), uint16(y)
		switch op {
		case "+":
			return IntV(t, uint64(x+y))
		case "-":
			return IntV(t, uint64(x-y))
		case "*":
			return IntV(t, uint64(x*y))
		case "/":
			return IntV(t, uint64(x/y))
		case "%":
			return IntV(t, uint64(x%y))
		case "<<":
			return IntV(t, uint64(x<<y))
		case ">>":
			return IntV(t, uint64(x>>y))
		}
	case I32:
		x, y := int32(x), int32(y)
		switch op {
		case "+":
			return IntV(t, uint64(uint32(x)+uint32(y)))
		case "-":
			return IntV(t, uint64(uint32(x)-uint32(y)))
		case "*":
			return IntV(t, uint64(uint32(x)*uint32(y)))
		case "/":
			return IntV(t, uint64(x/y))
		case "%":
			return IntV(t, uint64(x%y))
		case "<<":
			return IntV(t, uint64(uint32(x)<<uint32(y)))
		case ">>":
			return IntV(t, uint64(uint32(x>>uint32(y))))
		}
	case U32:
		x, y := uint32(x), uint32(y)
		switch op {
		case "+":
			return IntV(t, uint64(x+y))
		case "-":
			return IntV(t, uint64(x-y))
		case "*":
			return IntV(t, uint64(x*y))
		case "/":
			return IntV(t, uint64(x/y))
		case "%":
			return IntV(t, uint64(x%y))
		case "<<":
			return IntV(t, uint64(x<<y))
		case ">>":
			return IntV(t, uint64(x>>y))
		}
	case I64:
		x, y := int64(x), int64(y)
		switch op {
		case "+":
			return IntV(t, uint64(x)+uint64(y))
		case "-":
			return IntV(t, uint64(x)-uint64(y))
		case "*":
			return IntV(t, uint64(x)*uint64(y))
		case "/":
			return IntV(t, uint64(x/y))
		case "%":
			return IntV(t, uint64(x%y))
		case "<<":
			return IntV(t, uint64(x)<<uint64(y))
		case ">>":
			return IntV(t, uint64(x>>uint64(y)))
		}
	case U64:
		switch op {
		case "+":
			return IntV(t, x+y)
		case "-":
			return IntV(t, x-y)
		case "*":
			return IntV(t, x*y)
		case "/":
			return IntV(t, x/y)
		case "%":
			return IntV(t, x%y)
		case "<<":
			return IntV(t, x<<y)
		case ">>":
			return IntV(t, x>>y)
		}
	}
	panic("arith " + op + " " + t.name)
}

func compare(m *M, op string, a, b *Val) *Val {
	t := a.T
	if isStr(t) {
		return compareStr(op, m.Str(a), m.Str(b))
	}
	if t.K == 'p' {
		switch op {
		case "==":
			return BoolV(a.P == b.P)
		case "!=":
			return BoolV(a.P != b.P)
		}
		// order within one sequence
		if a.P == nil || b.P == nil || a.P.Seq == nil || b.P.Seq == nil || a.P.Seq[0] != b.P.Seq[0] {
			m.ub("order of unrelated pointers")
		}
		return order(op, int64(a.P.I), int64(b.P.I))
	}
	if t == F32 {
		x, y := a.G, b.G
		switch op {
		case "==":
			return BoolV(x == y)
		case "!=":
			return BoolV(x != y)
		case "<":
			return BoolV(x < y)
		case ">":
			return BoolV(x > y)
		case "<=":
			return BoolV(x <= y)
		case ">=":
			return BoolV(x >= y)
		}
	}
	if t == F64 {
		x, y := a.F, b.F
		switch op {
		case "==":
			return BoolV(x == y)
		case "!=":
			return BoolV(x != y)
		case "<":
			return BoolV(x < y)
		case ">":
			return BoolV(x > y)
		case "<=":
			return BoolV(x <= y)
		case ">=":
			return BoolV(x >= y)
		}
	}
	if t.W == 1 {
		x, y := a.B, b.B
		switch op {
		case "==":
			return BoolV(x == y)
		case "!=":
			return BoolV(x != y)
		case "<":
			return BoolV(rt.And(!x, y))
		case ">":
			return BoolV(rt.And(x, !y))
		case "<=":
			return BoolV(rt.Or(!x, y))
		case ">=":
			return BoolV(rt.Or(x, !y))
		}
	}
	if t.K == 'i' {
		return order(op, sx(t.W, a.U), sx(t.W, b.U))
	}
	x, y := a.U, b.U
	switch op {
	case "==":
		return BoolV(x == y)
	case "!=":
		return BoolV(x != y)
	case "<":
		return BoolV(x < y)
	case ">":
		return BoolV(x > y)
	case "<=":
		return BoolV(x <= y)
	}
	return BoolV(x >= y)
}

func order(op string, x, y int64) *Val {
	switch op {
	case "==":
		return BoolV(x == y)
	case "!=":
		return BoolV(x != y)
	case "<":
		return BoolV(x < y)
	case ">":
		return BoolV(x > y)
	case "<=":
		return BoolV(x <= y)
	}
	return BoolV(x >= y)
}

func pow2(n int) float64 {
	f := 1.0
	for i := 0; i < n; i++ {
		f *= 2
	}
	return f
}

func cast(m *M, t *Ty, v *Val) *Val {
	s := v.T
	switch {
	case t.K == 'p' && s.K == 'p':
		return &Val{T: t, P: v.P}
	case t.K == 'p' && s.IsInt():
		// an integer made from a pointer, or null
		if v.P != nil && s.W == 64 {
			return &Val{T: t, P: v.P}
		}
		if v.U == 0 {
			return &Val{T: t}
		}
		m.ub("pointer from integer")
	case t.IsInt() && s.K == 'p':
		return &Val{T: t, P: v.P}
	case t.IsInt() && s.IsInt():
		if t.W == 1 {
			return BoolV(v.Num()&1 != 0)
		}
		return IntV(t, uint64(v.Num()))
	case t == F64 && s == F64, t == F32 && s == F32:
		return v
	case t == F64 && s == F32:
		return F64V(float64(v.G))
	case t == F32 && s == F64:
		return F32V(float32(v.F))
	case t == F64 && s == U64:
		return F64V(float64(v.U))
	case t == F32 && s == U64:
		return F32V(float32(v.U))
	case t == F64 && s.IsInt():
		return F64V(float64(v.Num()))
	case t == F32 && s.IsInt():
		return F32V(float32(v.Num()))
	case t.IsInt() && s.IsFloat():
		lo, hi := 0.0, pow2(t.W)
		if t.K == 'i' {
			lo, hi = -pow2(t.W-1), pow2(t.W-1)
		}
		var f float64
		if s == F32 {
			f = float64(v.G)
		} else {
			f = v.F
		}
		if !(f > lo-1 || t.W == 64 && f >= lo) || !(f < hi) {
			m.ub("float out of range")
		}
		if t == U64 {
			if s == F32 {
				g := v.G
				if g >= 9223372036854775808.0 {
					return IntV(t, uint64(int64(g-9223372036854775808.0))^1<<63)
				}
				return IntV(t, uint64(int64(g)))
			}
			if f >= 9223372036854775808.0 {
				return IntV(t, uint64(int64(f-9223372036854775808.0))^1<<63)
			}
			return IntV(t, uint64(int64(f)))
		}
		if s == F32 {
			return IntV(t, uint64(int64(v.G)))
		}
		return IntV(t, uint64(int64(f)))
	}
	panic("cast " + s.name + " to " + t.name)
}

// place evaluates an expression that designates memory.
func (m *M) place(sc *scope, e *E) *Cell {
	switch e.Op {
	case "var":
		c := sc.get(e.S)
		if c == nil {
			panic("unknown variable " + e.S)
		}
		return c
	case "deref":
		return m.eval(sc, e.A[0]).P
	case "idx":
		b := e.A[0]
		var kids []*Cell
		base := 0
		if b.T.K == 'p' {
			p := m.eval(sc, b).P
			if p == nil {
				m.ub("null")
			}
			kids, base = p.Seq, p.I
			if kids == nil {
				kids = []*Cell{p}
				base = 0
			}
		} else {
			kids = m.place(sc, b).Kids
		}
		i := m.eval(sc, e.A[1])
		n := i.Num() + int64(base)
		if n < 0 || n >= int64(len(kids)) {
			m.ub("index")
		}
		return kids[rt.Pick(n)]
	case "fld":
		b := e.A[0]
		var c *Cell
		if b.T.K == 'p' {
			c = m.eval(sc, b).P
			if c == nil {
				m.ub("null")
			}
		} else {
			c = m.place(sc, b)
		}
		t := c.T
		return c.Kids[t.field(e.S)]
	}
	// a temporary
	v := m.eval(sc, e)
	c := m.newCell(e.T)
	m.store(c, v)
	return c
}

func (m *M) eval(sc *scope, e *E) *Val {
	m.steps++
	if m.steps > 4000 {
		m.ub("step limit")
	}
	switch e.Op {
	case "lit", "raw", "cst":
		return IntV(e.T, e.N)
	case "str":
		if m.strs == nil {
			m.strs = map[*E]*Val{}
		}
		if m.strs[e] == nil {
			m.strs[e] = m.newStr([]byte(e.FS[0]))
		}
		return m.strs[e]
	case "text":
		return m.eval(sc, e.A[0])
	case "flit":
		if e.T == F64 {
			// the literal is an f32
			return F64V(float64(float32(e.F)))
		}
		return F32V(float32(e.F))
	case "var", "idx", "fld", "deref":
		return m.load(m.place(sc, e))
	case "sizeof":
		return IntV(I32, e.N)
	case "addr":
		c := m.place(sc, e.A[0])
		if c.Const {
			// the address of a copy
			k := m.newCell(c.T)
			m.store(k, m.load(c))
			c = k
		}
		return &Val{T: e.T, P: c}
	case "cast":
		if e.T.K == 'p' && e.A[0].T.K == 'a' {
			return &Val{T: e.T, P: m.place(sc, e.A[0]).Kids[0]}
		}
		return cast(m, e.T, m.eval(sc, e.A[0]))
	case "un":
		if e.S == "++" || e.S == "--" {
			c := m.place(sc, e.A[0])
			v := m.load(c)
			op := "+"
			if e.S == "--" {
				op = "-"
			}
			var one *Val
			switch e.T {
			case F32:
				one = F32V(1)
			case F64:
				one = F64V(1)
			default:
				one = IntV(e.T, 1)
			}
			r := arith(m, op, e.T, v, one)
			m.store(c, r)
			return r
		}
		v := m.eval(sc, e.A[0])
		if e.S == "!" {
			return BoolV(!v.truth(m))
		}
		if e.S == "+" {
			return v
		}
		switch e.T {
		case F32:
			return F32V(-v.G)
		case F64:
			return F64V(-v.F)
		}
		return arith(m, "-", e.T, IntV(e.T, 0), v)
	case "bin":
		if e.S == "&&" {
			if !m.eval(sc, e.A[0]).truth(m) {
				return BoolV(false)
			}
			return BoolV(m.eval(sc, e.A[1]).truth(m))
		}
		if e.S == "||" {
			if m.eval(sc, e.A[0]).truth(m) {
				return BoolV(true)
			}
			return BoolV(m.eval(sc, e.A[1]).truth(m))
		}
		a := m.eval(sc, e.A[0])
		b := m.eval(sc, e.A[1])
		if isCmp(e.S) {
			return compare(m, e.S, a, b)
		}
		if isStr(a.T) && isStr(b.T) && e.S == "+" {
			return m.newStr(append(append([]byte{}, m.Str(a)...), m.Str(b)...))
		}
		if a.T.K == 'p' && b.T.IsInt() {
			d := b.Num()
			if e.S == "-" {
				d = -d
			}
			if a.P == nil || a.P.Seq == nil {
				m.ub("pointer arithmetic")
			}
			n := int64(a.P.I) + d
			if n < 0 || n >= int64(len(a.P.Seq)) {
				m.ub("pointer arithmetic")
			}
			return &Val{T: a.T, P: a.P.Seq[rt.Pick(n)]}
		}
		return arith(m, e.S, e.T, a, b)
	case "alloc":
		n := rt.Pick(m.eval(sc, e.A[0]).Num())
		if n <= 0 || n > 8 {
			m.ub("allocation size")
		}
		var seq []*Cell
		for i := int64(0); i < n; i++ {
			c := m.newCell(e.T.E)
			c.I = int(i)
			seq = append(seq, c)
		}
		for _, c := range seq {
			c.Seq = seq
		}
		return &Val{T: e.T, P: seq[0]}
	case "call", "method":
		var args []*Val
		for _, a := range e.A {
			args = append(args, m.eval(sc, a))
		}
		return m.call(e.Fn, args)
	case "callv":
		f := m.eval(sc, e.A[0])
		var args []*Val
		for _, a := range e.A[1:] {
			args = append(args, m.eval(sc, a))
		}
		return m.call(f.Fn, args)
	case "fnref":
		return &Val{T: e.T, Fn: e.Fn}
	case "lambda":
		// captured by value, one instance per source occurrence
		cs := &scope{up: m.globals}
		for _, n := range e.Fn.Cap {
			src := sc.get(n)
			c := m.newCell(src.T)
			m.store(c, m.load(src))
			c.Const = src.Const
			cs.add(n, c)
		}
		m.capt[e.Fn] = cs
		return &Val{T: e.T, Fn: e.Fn}
	case "block":
		ctl, v := m.block(sc, e.B)
		if ctl != ctlRet {
			panic("block expression without value")
		}
		return v
	case "alit":
		v := &Val{T: e.T}
		for i := 0; i < e.T.N; i++ {
			if i < len(e.A) {
				v.A = append(v.A, m.eval(sc, e.A[i]))
			} else {
				v.A = append(v.A, nil)
			}
		}
		return v
	case "slit":
		v := &Val{T: e.T, A: make([]*Val, len(e.T.F))}
		for i, x := range e.A {
			v.A[e.T.field(e.FS[i])] = m.eval(sc, x)
		}
		return v
	case "comma":
		v := &Val{T: e.T}
		for _, x := range e.A {
			v.A = append(v.A, m.eval(sc, x))
		}
		return v
	}
	panic("eval " + e.Op)
}

const (
	ctlNext = iota
	ctlBreak
	ctlCont
	ctlRet
)

func (m *M) block(sc *scope, b []*S) (int, *Val) {
	in := &scope{up: sc}
	for _, s := range b {
		if c, v := m.exec(in, s); c != ctlNext {
			return c, v
		}
	}
	return ctlNext, nil
}

func (m *M) exec(sc *scope, s *S) (int, *Val) {
	switch s.Op {
	case "decl", "const":
		v := m.eval(sc, s.E)
		c := m.newCell(s.T)
		m.store(c, v)
		c.Const = s.Op == "const"
		sc.add(s.Name, c)
	case "mdecl":
		v := m.eval(sc, s.E)
		for i, n := range s.Names {
			c := m.newCell(s.E.T.P[i])
			m.store(c, v.A[i])
			sc.add(n, c)
		}
	case "assign":
		if s.L.Op == "comma" {
			var cs []*Cell
			for _, l := range s.L.A {
				cs = append(cs, m.place(sc, l))
			}
			v := m.eval(sc, s.E)
			for i, c := range cs {
				m.store(c, v.A[i])
			}
			return ctlNext, nil
		}
		c := m.place(sc, s.L)
		m.store(c, m.eval(sc, s.E))
	case "ret":
		if s.E == nil {
			return ctlRet, nil
		}
		return ctlRet, m.eval(sc, s.E)
	case "expr":
		m.eval(sc, s.E)
	case "ob":
		v := m.eval(sc, s.E)
		m.Events = append(m.Events, Event{Name: "ob_" + obName(s.E.T), V: v})
	case "print":
		m.print(sc, s)
	case "blk":
		return m.block(sc, s.B)
	case "break":
		return ctlBreak, nil
	case "continue":
		return ctlCont, nil
	case "unreachable":
		m.ub("unreachable")
	case "if":
		for i, c := range s.Conds {
			if m.eval(sc, c).truth(m) {
				return m.block(sc, s.Bs[i])
			}
		}
		if s.HasE {
			return m.block(sc, s.Else)
		}
	case "while", "loop", "for":
		in := &scope{up: sc}
		if s.Init != nil {
			m.exec(in, s.Init)
		}
		for n := 0; ; n++ {
			m.steps++
			if m.steps > 4000 || n > MaxLoop {
				m.ub("step limit")
			}
			if s.E != nil && !m.eval(in, s.E).truth(m) {
				break
			}
			c, v := m.block(in, s.B)
			if c == ctlBreak {
				break
			}
			if c == ctlRet {
				return c, v
			}
			if s.Upd != nil {
				m.exec(in, s.Upd)
			}
		}
	case "switch":
		v := m.eval(sc, s.E)
		for i, l := range s.Lits {
			if compare(m, "==", v, m.eval(sc, l)).B {
				return m.block(sc, s.Bs[i])
			}
		}
		if s.HasE {
			return m.block(sc, s.Else)
		}
	default:
		panic("exec " + s.Op)
	}
	return ctlNext, nil
}

// MaxLoop bounds the iterations of one loop explored.
var MaxLoop = 8

func (m *M) call(f *Fn, args []*Val) *Val {
	m.steps += 5
	if m.steps > 4000 {
		m.ub("step limit")
	}
	up := m.globals
	if c, ok := m.capt[f]; ok {
		up = c
	}
	sc := &scope{up: up}
	for i, p := range f.Params {
		c := m.newCell(p.T)
		m.store(c, args[i])
		sc.add(p.Name, c)
	}
	c, v := m.block(sc, f.Body)
	if c != ctlRet && f.Ret != nil && f.Ret.K != 'v' {
		panic("function " + f.Name + " fell off its end")
	}
	return v
}

// Run evaluates function f; ub is the undefined behaviour met, if any.
func Run(p *Prog, f *Fn, args []*Val) (v *Val, m *M) {
	m = &M{P: p, capt: map[*Fn]*scope{}}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(*ubPanic); ok {
				m.UB = u.why
				return
			}
			panic(r)
		}
	}()
	m.globals = &scope{}
	for _, g := range p.Globals {
		m.exec(m.globals, g)
	}
	v = m.call(f, args)
	return
}

func itoa(i int) string { return strconv.Itoa(i) }
