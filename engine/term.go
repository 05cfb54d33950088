package main

// Hash-consed terms over Bool, bit-vectors (1..64) and IEEE floats (32/64).

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // BV / Bool / FP constant, value in k (bool: 0/1, fp: IEEE bits)
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // k = hi<<8|lo
	OZExt
	OSExt
	OIte
	OEq
	OULt
	OSLt
	OULe
	OSLe
	OBNot
	OBAnd
	OBOr
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OFFromS // signed bv -> fp
	OFFromU
	OFToS // fp -> signed bv (width w), RTZ
	OFToU
	OFCvt      // fp -> fp
	OFFromBits // bv -> fp reinterpret
	OFBits     // fp -> bv reinterpret (via to_ieee_bv)
	OFSame     // fp identity (=)
)

const (
	SBool = 0
	SF32  = 132
	SF64  = 164
)

type Term struct {
	op   Op
	w    uint8
	id   int32
	k    uint64
	name string
	a    [3]*Term
	n    uint8
	vars []uint64 // bitset of variable indices
	gen  uint32
	ev   uint64
	pgen uint32
}

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
	name    string
}

type TermCtx struct {
	tab    map[tkey]*Term
	next   int32
	vars   []*Term
	varIdx map[string]int
	True   *Term
	False  *Term
	gen    uint32
	pgen   uint32
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}, varIdx: map[string]int{}}
	c.False = c.konst(0, 0)
	c.True = c.konst(0, 1)
	return c
}

func isBV(w uint8) bool { return w >= 1 && w <= 64 }
func isFP(w uint8) bool { return w == SF32 || w == SF64 }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *TermCtx) mk(op Op, w uint8, k uint64, name string, args ...*Term) *Term {
	key := tkey{op: op, w: w, k: k, name: name, a: -1, b: -1, c: -1}
	if len(args) > 0 {
		key.a = args[0].id
	}
	if len(args) > 1 {
		key.b = args[1].id
	}
	if len(args) > 2 {
		key.c = args[2].id
	}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, id: c.next, k: k, name: name, n: uint8(len(args))}
	c.next++
	copy(t.a[:], args)
	switch len(args) {
	case 0:
	case 1:
		t.vars = args[0].vars
	default:
		t.vars = args[0].vars
		for _, x := range args[1:] {
			t.vars = unionBits(t.vars, x.vars)
		}
	}
	c.tab[key] = t
	return t
}

func subsetBits(a, b []uint64) bool {
	for i, x := range a {
		if x == 0 {
			continue
		}
		if i >= len(b) || x&^b[i] != 0 {
			return false
		}
	}
	return true
}

func unionBits(a, b []uint64) []uint64 {
	if subsetBits(b, a) {
		return a
	}
	if subsetBits(a, b) {
		return b
	}
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make([]uint64, n)
	copy(r, a)
	for i, x := range b {
		r[i] |= x
	}
	return r
}

func interBits(a, b []uint64) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

func (c *TermCtx) konst(w uint8, v uint64) *Term {
	switch {
	case w == 0:
		v &= 1
	case isBV(w):
		v &= mask(w)
	case w == SF32:
		v &= 0xffffffff
	}
	return c.mk(OConst, w, v, "")
}

func (c *TermCtx) boolT(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *TermCtx) variable(name string, w uint8) *Term {
	t := c.mk(OVar, w, 0, name)
	if _, ok := c.varIdx[name]; !ok {
		i := len(c.vars)
		c.varIdx[name] = i
		c.vars = append(c.vars, t)
		t.k = uint64(i)
		t.vars = make([]uint64, i/64+1)
		t.vars[i/64] |= 1 << uint(i%64)
	}
	return t
}

func (t *Term) isC() bool { return t.op == OConst }

func (c *TermCtx) not(a *Term) *Term {
	if a.isC() {
		return c.boolT(a.k == 0)
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return c.mk(OBNot, 0, 0, "", a)
}

func (c *TermCtx) and(a, b *Term) *Term {
	if a == c.False || b == c.False {
		return c.False
	}
	if a == c.True {
		return b
	}
	if b == c.True {
		return a
	}
	if a == b {
		return a
	}
	if c.not(a) == b {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBAnd, 0, 0, "", a, b)
}

func (c *TermCtx) or(a, b *Term) *Term {
	if a == c.True || b == c.True {
		return c.True
	}
	if a == c.False {
		return b
	}
	if b == c.False {
		return a
	}
	if a == b {
		return a
	}
	if c.not(a) == b {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBOr, 0, 0, "", a, b)
}

func (c *TermCtx) ite(g, a, b *Term) *Term {
	if a == b {
		return a
	}
	if g.isC() {
		if g.k != 0 {
			return a
		}
		return b
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a == c.True {
			return c.or(g, b)
		}
		if a == c.False {
			return c.and(c.not(g), b)
		}
		if b == c.True {
			return c.or(c.not(g), a)
		}
		if b == c.False {
			return c.and(g, a)
		}
	}
	if g.op == OBNot {
		return c.ite(g.a[0], b, a)
	}
	// ite(g, x, ite(g, y, z)) = ite(g, x, z)
	if b.op == OIte && b.a[0] == g {
		return c.ite(g, a, b.a[2])
	}
	if a.op == OIte && a.a[0] == g {
		return c.ite(g, a.a[1], b)
	}
	return c.mk(OIte, a.w, 0, "", g, a, b)
}

func evalBV(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		a := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(a>>y) & m
	}
	panic("evalBV")
}

func (c *TermCtx) bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin %d width mismatch %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isC() && b.isC() {
		return c.konst(w, evalBV(op, w, a.k, b.k))
	}
	switch op {
	case OAdd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].isC() {
				return c.bin(OAdd, a.a[0], c.konst(w, a.a[1].k+b.k))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return c.konst(w, 0)
		}
		if b.isC() {
			return c.bin(OAdd, a, c.konst(w, -b.k))
		}
	case OMul:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OAnd:
		if a == b {
			return a
		}
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OOr:
		if a == b {
			return a
		}
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return b
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OXor:
		if a == b {
			return c.konst(w, 0)
		}
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return a
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OUDiv, OSDiv:
		if b.isC() && b.k == 1 {
			return a
		}
	case OShl, OLShr:
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return c.konst(w, 0)
			}
		}
	case OAShr:
		if b.isC() && b.k == 0 {
			return a
		}
	}
	return c.mk(op, w, 0, "", a, b)
}

func (c *TermCtx) bvnot(a *Term) *Term {
	if a.isC() {
		return c.konst(a.w, ^a.k)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return c.mk(ONot, a.w, 0, "", a)
}

func (c *TermCtx) neg(a *Term) *Term {
	if a.isC() {
		return c.konst(a.w, -a.k)
	}
	if a.op == ONeg {
		return a.a[0]
	}
	return c.mk(ONeg, a.w, 0, "", a)
}

func (c *TermCtx) concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isC() && b.isC() {
		return c.konst(w, a.k<<b.w|b.k)
	}
	if a.isC() && a.k == 0 {
		return c.zext(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a[0] == b.a[0] {
		ah, al := a.k>>8, a.k&255
		bh, bl := b.k>>8, b.k&255
		if al == bh+1 {
			return c.extract(a.a[0], uint8(ah), uint8(bl))
		}
	}
	return c.mk(OConcat, w, 0, "", a, b)
}

func (c *TermCtx) extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isC() {
		return c.konst(w, a.k>>lo)
	}
	switch a.op {
	case OExtract:
		l := uint8(a.a[0].k)
		_ = l
		base := uint8(a.k & 255)
		return c.extract(a.a[0], hi+base, lo+base)
	case OConcat:
		lw := a.a[1].w
		if hi < lw {
			return c.extract(a.a[1], hi, lo)
		}
		if lo >= lw {
			return c.extract(a.a[0], hi-lw, lo-lw)
		}
	case OZExt:
		iw := a.a[0].w
		if hi < iw {
			return c.extract(a.a[0], hi, lo)
		}
		if lo >= iw {
			return c.konst(w, 0)
		}
		return c.zext(c.extract(a.a[0], iw-1, lo), w)
	case OSExt:
		iw := a.a[0].w
		if hi < iw {
			return c.extract(a.a[0], hi, lo)
		}
		if lo == 0 && hi >= iw {
			return c.sext(a.a[0], w)
		}
	case OIte:
		if a.a[1].isC() || a.a[2].isC() {
			return c.ite(a.a[0], c.extract(a.a[1], hi, lo), c.extract(a.a[2], hi, lo))
		}
	case OAnd, OOr, OXor:
		if lo == 0 {
			return c.bin(a.op, c.extract(a.a[0], hi, lo), c.extract(a.a[1], hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.bin(a.op, c.extract(a.a[0], hi, lo), c.extract(a.a[1], hi, lo))
		}
	case ONeg:
		if lo == 0 {
			return c.neg(c.extract(a.a[0], hi, lo))
		}
	case ONot:
		return c.bvnot(c.extract(a.a[0], hi, lo))
	}
	return c.mk(OExtract, w, uint64(hi)<<8|uint64(lo), "", a)
}

func (c *TermCtx) zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return c.konst(w, a.k)
	}
	if a.op == OZExt {
		return c.zext(a.a[0], w)
	}
	if a.op == OIte && a.a[1].isC() && a.a[2].isC() {
		return c.ite(a.a[0], c.zext(a.a[1], w), c.zext(a.a[2], w))
	}
	return c.mk(OZExt, w, 0, "", a)
}

func (c *TermCtx) sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return c.konst(w, uint64(sx(a.k, a.w)))
	}
	if a.op == OSExt {
		return c.sext(a.a[0], w)
	}
	if a.op == OZExt {
		return c.zext(a.a[0], w)
	}
	if a.op == OIte && a.a[1].isC() && a.a[2].isC() {
		return c.ite(a.a[0], c.sext(a.a[1], w), c.sext(a.a[2], w))
	}
	return c.mk(OSExt, w, 0, "", a)
}

// resize truncates or extends a to width w.
func (c *TermCtx) resize(a *Term, w uint8, signed bool) *Term {
	if w < a.w {
		return c.extract(a, w-1, 0)
	}
	if signed {
		return c.sext(a, w)
	}
	return c.zext(a, w)
}

func (c *TermCtx) eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isC() && b.isC() {
		return c.boolT(a.k == b.k)
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.not(a)
		}
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() && isBV(a.w) {
		switch a.op {
		case OZExt:
			iw := a.a[0].w
			if b.k&^mask(iw) != 0 {
				return c.False
			}
			return c.eq(a.a[0], c.konst(iw, b.k))
		case OSExt:
			iw := a.a[0].w
			if uint64(sx(b.k&mask(iw), iw))&mask(a.w) != b.k {
				return c.False
			}
			return c.eq(a.a[0], c.konst(iw, b.k))
		case OIte:
			if a.a[1].isC() || a.a[2].isC() {
				return c.ite(a.a[0], c.eq(a.a[1], b), c.eq(a.a[2], b))
			}
		case OAdd:
			if a.a[1].isC() {
				return c.eq(a.a[0], c.konst(a.w, b.k-a.a[1].k))
			}
		case OConcat:
			lw := a.a[1].w
			return c.and(c.eq(a.a[0], c.konst(a.a[0].w, b.k>>lw)), c.eq(a.a[1], c.konst(lw, b.k)))
		}
	}
	if !b.isC() && a.op == b.op && (a.op == OZExt || a.op == OSExt) && a.a[0].w == b.a[0].w {
		return c.eq(a.a[0], b.a[0])
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, "", a, b)
}

func (c *TermCtx) ult(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return c.boolT(a.k < b.k)
	}
	if a == b || (b.isC() && b.k == 0) {
		return c.False
	}
	if a.op == OZExt && b.isC() {
		if b.k > mask(a.a[0].w) {
			return c.True
		}
		return c.ult(a.a[0], c.konst(a.a[0].w, b.k))
	}
	if b.op == OZExt && a.isC() {
		if a.k >= mask(b.a[0].w) {
			return c.False
		}
		return c.ult(c.konst(b.a[0].w, a.k), b.a[0])
	}
	return c.mk(OULt, 0, 0, "", a, b)
}

func (c *TermCtx) slt(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return c.boolT(sx(a.k, a.w) < sx(b.k, b.w))
	}
	if a == b {
		return c.False
	}
	if a.op == OZExt && b.isC() { // a is non-negative
		if sx(b.k, b.w) < 0 {
			return c.False
		}
		return c.ult(a, b)
	}
	if b.op == OZExt && a.isC() {
		if sx(a.k, a.w) < 0 {
			return c.True
		}
		return c.ult(a, b)
	}
	return c.mk(OSLt, 0, 0, "", a, b)
}
func (c *TermCtx) ule(a, b *Term) *Term { return c.not(c.ult(b, a)) }
func (c *TermCtx) sle(a, b *Term) *Term { return c.not(c.slt(b, a)) }

// ---- floats

func fval(w uint8, k uint64) float64 {
	if w == SF32 {
		return float64(math.Float32frombits(uint32(k)))
	}
	return math.Float64frombits(k)
}

func fbits(w uint8, f float64) uint64 {
	if w == SF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalF(op Op, w uint8, x, y uint64) uint64 {
	if w == SF32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		case OFDiv:
			r = a / b
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OFAdd:
		r = a + b
	case OFSub:
		r = a - b
	case OFMul:
		r = a * b
	case OFDiv:
		r = a / b
	}
	return math.Float64bits(r)
}

func (c *TermCtx) fbin(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return c.konst(a.w, evalF(op, a.w, a.k, b.k))
	}
	if op == OFMul {
		// x * -1 = -x for every x (NaN is one value)
		if b.isC() && fval(b.w, b.k) == -1 {
			return c.fneg(a)
		}
		if a.isC() && fval(a.w, a.k) == -1 {
			return c.fneg(b)
		}
	}
	return c.mk(op, a.w, 0, "", a, b)
}
func (c *TermCtx) fneg(a *Term) *Term {
	if a.isC() {
		return c.konst(a.w, fbits(a.w, -fval(a.w, a.k)))
	}
	return c.mk(OFNeg, a.w, 0, "", a)
}
func (c *TermCtx) fcmp(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		x, y := fval(a.w, a.k), fval(b.w, b.k)
		switch op {
		case OFEq:
			return c.boolT(x == y)
		case OFLt:
			return c.boolT(x < y)
		case OFLe:
			return c.boolT(x <= y)
		}
	}
	return c.mk(op, 0, 0, "", a, b)
}
func (c *TermCtx) fsame(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isC() && b.isC() {
		x, y := fval(a.w, a.k), fval(b.w, b.k)
		return c.boolT(a.k == b.k || (x != x && y != y))
	}
	return c.mk(OFSame, 0, 0, "", a, b)
}

func evalConv(op Op, dw uint8, sw uint8, x uint64) uint64 {
	switch op {
	case OFFromS:
		if dw == SF32 {
			return uint64(math.Float32bits(float32(sx(x, sw))))
		}
		return math.Float64bits(float64(sx(x, sw)))
	case OFFromU:
		if dw == SF32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	case OFToS:
		return uint64(int64(fval(sw, x))) & mask(dw)
	case OFToU:
		return uint64(fval(sw, x)) & mask(dw)
	case OFCvt:
		return fbits(dw, fval(sw, x))
	case OFFromBits, OFBits:
		return x
	}
	panic("evalConv")
}

func (c *TermCtx) fconv(op Op, a *Term, w uint8) *Term {
	if op == OFCvt && a.w == w {
		return a
	}
	if op == OFBits && a.op == OFFromBits {
		return a.a[0]
	}
	if op == OFFromBits && a.op == OFBits {
		return a.a[0]
	}
	if a.isC() {
		return c.konst(w, evalConv(op, w, a.w, a.k))
	}
	return c.mk(op, w, 0, "", a)
}

// ---- evaluation under a model (missing variables are 0)

type Model map[string]uint64

func (c *TermCtx) eval(t *Term, m Model) uint64 {
	c.gen++
	return c.ev(t, m)
}

func (c *TermCtx) ev(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.gen == c.gen {
		return t.ev
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m[t.name]
		if isBV(t.w) || t.w == 0 {
			r &= mask(t.w)
		}
	case OIte:
		if c.ev(t.a[0], m) != 0 {
			r = c.ev(t.a[1], m)
		} else {
			r = c.ev(t.a[2], m)
		}
	case OBAnd:
		r = 0
		if c.ev(t.a[0], m) != 0 && c.ev(t.a[1], m) != 0 {
			r = 1
		}
	case OBOr:
		r = 0
		if c.ev(t.a[0], m) != 0 || c.ev(t.a[1], m) != 0 {
			r = 1
		}
	case OBNot:
		r = 1 - c.ev(t.a[0], m)
	case OEq:
		r = b2u(c.ev(t.a[0], m) == c.ev(t.a[1], m))
	case OULt:
		r = b2u(c.ev(t.a[0], m) < c.ev(t.a[1], m))
	case OULe:
		r = b2u(c.ev(t.a[0], m) <= c.ev(t.a[1], m))
	case OSLt:
		r = b2u(sx(c.ev(t.a[0], m), t.a[0].w) < sx(c.ev(t.a[1], m), t.a[1].w))
	case OSLe:
		r = b2u(sx(c.ev(t.a[0], m), t.a[0].w) <= sx(c.ev(t.a[1], m), t.a[1].w))
	case ONot:
		r = ^c.ev(t.a[0], m) & mask(t.w)
	case ONeg:
		r = -c.ev(t.a[0], m) & mask(t.w)
	case OConcat:
		r = c.ev(t.a[0], m)<<t.a[1].w | c.ev(t.a[1], m)
	case OExtract:
		r = (c.ev(t.a[0], m) >> (t.k & 255)) & mask(t.w)
	case OZExt:
		r = c.ev(t.a[0], m)
	case OSExt:
		r = uint64(sx(c.ev(t.a[0], m), t.a[0].w)) & mask(t.w)
	case OFAdd, OFSub, OFMul, OFDiv:
		r = evalF(t.op, t.w, c.ev(t.a[0], m), c.ev(t.a[1], m))
	case OFNeg:
		r = fbits(t.w, -fval(t.w, c.ev(t.a[0], m)))
	case OFEq:
		r = b2u(fval(t.a[0].w, c.ev(t.a[0], m)) == fval(t.a[1].w, c.ev(t.a[1], m)))
	case OFLt:
		r = b2u(fval(t.a[0].w, c.ev(t.a[0], m)) < fval(t.a[1].w, c.ev(t.a[1], m)))
	case OFLe:
		r = b2u(fval(t.a[0].w, c.ev(t.a[0], m)) <= fval(t.a[1].w, c.ev(t.a[1], m)))
	case OFSame:
		x, y := c.ev(t.a[0], m), c.ev(t.a[1], m)
		fx, fy := fval(t.a[0].w, x), fval(t.a[1].w, y)
		r = b2u(x == y || (fx != fx && fy != fy))
	case OFFromS, OFFromU, OFToS, OFToU, OFCvt, OFFromBits, OFBits:
		r = evalConv(t.op, t.w, t.a[0].w, c.ev(t.a[0], m))
	default:
		r = evalBV(t.op, t.w, c.ev(t.a[0], m), c.ev(t.a[1], m))
	}
	t.gen = c.gen
	t.ev = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// ---- SMT-LIB printing

func sortName(w uint8) string {
	switch {
	case w == 0:
		return "Bool"
	case w == SF32:
		return "(_ FloatingPoint 8 24)"
	case w == SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

var opName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
	OIte: "ite", OEq: "=", OULt: "bvult", OSLt: "bvslt", OULe: "bvule", OSLe: "bvsle", OBNot: "not", OBAnd: "and", OBOr: "or",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFSame: "="}

func fpDims(w uint8) string {
	if w == SF32 {
		return "8 24"
	}
	return "11 53"
}

func constSMT(t *Term) string {
	switch {
	case t.w == 0:
		if t.k != 0 {
			return "true"
		}
		return "false"
	case isFP(t.w):
		if t.w == SF32 {
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.k)
		}
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.k)
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w)/4, t.k)
	}
	return fmt.Sprintf("#b%0*b", int(t.w), t.k)
}

func smtVar(name string) string { return "|" + name + "|" }

// writeSMT emits declarations and definitions needed for the roots.
func (c *TermCtx) writeSMT(sb *strings.Builder, roots []*Term) []*Term {
	c.pgen++
	var vars []*Term
	var visit func(t *Term)
	ref := func(t *Term) string {
		switch t.op {
		case OConst:
			return constSMT(t)
		case OVar:
			return smtVar(t.name)
		}
		return fmt.Sprintf("t%d", t.id)
	}
	visit = func(t *Term) {
		if t.pgen == c.pgen || t.op == OConst {
			return
		}
		t.pgen = c.pgen
		if t.op == OVar {
			vars = append(vars, t)
			fmt.Fprintf(sb, "(declare-const %s %s)\n", smtVar(t.name), sortName(t.w))
			return
		}
		for i := 0; i < int(t.n); i++ {
			visit(t.a[i])
		}
		fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortName(t.w))
		a0 := ref(t.a[0])
		switch t.op {
		case OExtract:
			fmt.Fprintf(sb, "((_ extract %d %d) %s)", t.k>>8, t.k&255, a0)
		case OZExt:
			fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a[0].w, a0)
		case OSExt:
			fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a[0].w, a0)
		case OFFromS:
			fmt.Fprintf(sb, "((_ to_fp %s) RNE %s)", fpDims(t.w), a0)
		case OFFromU:
			fmt.Fprintf(sb, "((_ to_fp_unsigned %s) RNE %s)", fpDims(t.w), a0)
		case OFToS:
			fmt.Fprintf(sb, "((_ fp.to_sbv %d) RTZ %s)", t.w, a0)
		case OFToU:
			fmt.Fprintf(sb, "((_ fp.to_ubv %d) RTZ %s)", t.w, a0)
		case OFCvt:
			fmt.Fprintf(sb, "((_ to_fp %s) RNE %s)", fpDims(t.w), a0)
		case OFFromBits:
			fmt.Fprintf(sb, "((_ to_fp %s) %s)", fpDims(t.w), a0)
		case OFBits:
			fmt.Fprintf(sb, "(fp.to_ieee_bv %s)", a0)
		default:
			fmt.Fprintf(sb, "(%s", opName[t.op])
			for i := 0; i < int(t.n); i++ {
				sb.WriteByte(' ')
				sb.WriteString(ref(t.a[i]))
			}
			sb.WriteByte(')')
		}
		sb.WriteString(")\n")
	}
	for _, r := range roots {
		visit(r)
	}
	for _, r := range roots {
		fmt.Fprintf(sb, "(assert %s)\n", ref(r))
	}
	return vars
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.k != 0)
		}
		return fmt.Sprintf("%d:%d", t.k, t.w)
	case OVar:
		return t.name
	}
	n := opName[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d[%d,%x]", t.op, t.w, t.k)
	}
	s := "(" + n
	for i := 0; i < int(t.n); i++ {
		s += " " + t.a[i].String()
	}
	return s + ")"
}

var _ = bits.Len
