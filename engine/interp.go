package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// target-level panic
type tPanic struct {
	v   V // interface value
	msg string
	tr  string
}

// end of path (infeasible, violation, unsupported, exit, step limit)
type pathEnd struct {
	kind string
	msg  string
}

type deferRec struct {
	in   *Ins
	fn   *Fn
	cl   *Closure
	bi   string
	args []V
	t2   *TI
}

type Frame struct {
	fn      *Fn
	regs    []V
	defers  []deferRec
	pan     *tPanic
	deferOf *Frame
	caller  *Frame
}

func (p *Path) fatal(format string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(format, a...) + p.where()})
}

func (p *Path) where() string {
	s := ""
	n := 0
	for f := p.fr; f != nil && n < 12; f = f.caller {
		s += " <- " + f.fn.name
		n++
	}
	return s
}

func (p *Path) gopanic(msg string) {
	panic(&tPanic{v: V{r: &Iface{t: TypeInfo(types.Typ[types.String]), v: mkStr("runtime error: " + msg)}}, msg: "runtime error: " + msg, tr: p.where()})
}

func (p *Path) get(fr *Frame, o Opd) V {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return fr.fn.consts[o.i]
	}
	return V{r: p.global(o.i)}
}

func (p *Path) callFn(fn *Fn, args []V, env []V) V {
	return p.callFnD(fn, args, env, nil)
}

func (p *Path) callFnD(fn *Fn, args []V, env []V, deferOf *Frame) V {
	if fn.intr != nil {
		return fn.intr(p, fn, args)
	}
	return p.callBody(fn, args, env, deferOf)
}

// callBody interprets the function even if an intrinsic exists for it.
func (p *Path) callBody(fn *Fn, args []V, env []V, deferOf *Frame) V {
	fn.ensure()
	if fn.blocks == nil {
		p.fatal("call of body-less function %s", fn.name)
	}
	p.depth++
	if p.depth > p.maxDepth {
		panic(pathEnd{"stackoverflow", "call depth exceeded" + p.where()})
	}
	if fn.id < len(p.w.fnSeen) {
		p.w.fnSeen[fn.id] = true
	} else {
		p.w.growSeen(fn.id)
	}
	sp := p.sp
	if sp+fn.nregs > len(p.stack) {
		p.stack = make([]V, 1<<16+fn.nregs)
		sp = 0
		p.sp = 0
	}
	stk := p.stack
	regs := stk[sp : sp+fn.nregs : sp+fn.nregs]
	p.sp = sp + fn.nregs
	for i := range regs {
		regs[i] = V{}
	}
	copy(regs, args)
	copy(regs[fn.nparams:], env)
	fr := &Frame{fn: fn, regs: regs, deferOf: deferOf, caller: p.fr}
	p.fr = fr
	var res V
	if fn.hasDefer {
		res = p.runDeferFrame(fr)
	} else {
		res = p.run(fr, fn.blocks[0], nil)
	}
	p.fr = fr.caller
	p.stack = stk
	p.sp = sp
	p.depth--
	return res
}

func (p *Path) runDeferFrame(fr *Frame) (res V) {
	depth := p.depth
	sp := p.sp
	stk := p.stack
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*tPanic)
				if !ok {
					panic(r)
				}
				fr.pan = tp
			}
		}()
		res = p.run(fr, fr.fn.blocks[0], nil)
	}()
	if fr.pan == nil {
		return res
	}
	p.fr = fr
	p.depth = depth
	p.sp = sp
	p.stack = stk
	p.runDefers(fr)
	if fr.pan != nil {
		panic(fr.pan)
	}
	// recovered
	if fr.fn.recov != nil {
		return p.run(fr, fr.fn.recov, nil)
	}
	return zeroResult(fr.fn)
}

func zeroResult(fn *Fn) V {
	t := fn.resT
	switch len(t.fields) {
	case 0:
		return V{}
	case 1:
		return zero(t.fields[0])
	}
	return zero(t)
}

func (p *Path) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := p.depth
		sp := p.sp
		stk := p.stack
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*tPanic)
					if !ok {
						panic(r)
					}
					fr.pan = tp
					p.fr = fr
					p.depth = depth
					p.sp = sp
					p.stack = stk
				}
			}()
			if d.bi != "" {
				p.builtin(d.bi, d.args, d.t2, nil, fr)
			} else {
				p.callFnD(d.fn, d.args, d.cl.env, fr)
			}
		}()
	}
}

func (p *Path) run(fr *Frame, blk *Blk, prev *Blk) V {
	var phiTmp [16]V
	regs := fr.regs
	for {
		if len(blk.phis) > 0 && prev != nil {
			pi := blk.pidx[prev.idx]
			ph := blk.phis
			if len(ph) == 1 {
				regs[ph[0].dst] = p.get(fr, ph[0].edges[pi])
			} else {
				tmp := phiTmp[:0]
				for i := range ph {
					tmp = append(tmp, p.get(fr, ph[i].edges[pi]))
				}
				for i := range ph {
					regs[ph[i].dst] = tmp[i]
				}
			}
		}
	resume:
		p.steps += int64(len(blk.ins))
		if p.steps > p.maxSteps {
			panic(pathEnd{"steplimit", "step limit exceeded" + p.where()})
		}
		for ii := range blk.ins {
			in := &blk.ins[ii]
			switch in.op {
			case iJump:
				prev, blk = blk, blk.succs[0]
				goto next
			case iIf:
				c := p.get(fr, in.a)
				if t, ok := c.r.(*Term); ok {
					if t.isC() {
						c = V{u: t.k}
					} else {
						if kv, ok := p.known[t]; ok {
							c = V{u: b2u(kv)}
						} else if mb, ret, ok := p.tryMerge(fr, blk, in, t); ok {
							if mb == nil {
								return ret
							}
							prev, blk = nil, mb
							// phis already assigned
							goto resume
						} else {
							c = V{u: b2u(p.branch(t))}
						}
					}
				}
				if c.u != 0 {
					prev, blk = blk, blk.succs[0]
				} else {
					prev, blk = blk, blk.succs[1]
				}
				goto next
			case iReturn:
				switch len(in.args) {
				case 0:
					return V{}
				case 1:
					return p.get(fr, in.args[0])
				}
				tu := make(Tuple, len(in.args))
				for i, a := range in.args {
					tu[i] = p.get(fr, a)
				}
				return V{r: tu}
			default:
				p.exec(fr, in)
			}
		}
		p.fatal("block without terminator in %s", fr.fn.name)
	next:
	}
}

func (p *Path) exec(fr *Frame, in *Ins) {
	regs := fr.regs
	switch in.op {
	case iNop:
	case iAlloc:
		v := new(V)
		*v = zero(in.t2)
		regs[in.dst] = V{r: v}
	case iLoad:
		regs[in.dst] = p.load(p.get(fr, in.a))
	case iStore:
		p.store(p.get(fr, in.a), p.get(fr, in.b))
	case iBinOp:
		regs[in.dst] = p.binop(in, p.get(fr, in.a), p.get(fr, in.b))
	case iUnOp:
		regs[in.dst] = p.unop(in, p.get(fr, in.a))
	case iCall:
		v := p.doCall(fr, in)
		if in.dst >= 0 {
			regs[in.dst] = v
		}
	case iChangeType:
		regs[in.dst] = p.get(fr, in.a)
	case iConvert:
		regs[in.dst] = p.convert(p.get(fr, in.a), in.t2, in.t)
	case iDefer:
		d := deferRec{in: in}
		fn, cl, bi, args := p.resolve(fr, in)
		d.fn, d.cl, d.bi, d.args, d.t2 = fn, cl, bi, args, in.t2
		if d.cl == nil {
			d.cl = &Closure{}
		}
		fr.defers = append(fr.defers, d)
	case iRunDefers:
		p.runDefers(fr)
		if fr.pan != nil {
			pn := fr.pan
			panic(pn)
		}
	case iExtract:
		t := p.get(fr, in.a).r.(Tuple)
		regs[in.dst] = t[in.n]
	case iField:
		regs[in.dst] = copyV(p.get(fr, in.a).r.(*Agg).f[in.n])
	case iFieldAddr:
		regs[in.dst] = p.fieldAddr(p.get(fr, in.a), in.n)
	case iIndex:
		regs[in.dst] = p.index(p.get(fr, in.a), p.get(fr, in.b), in.t2)
	case iIndexAddr:
		regs[in.dst] = p.indexAddr(p.get(fr, in.a), p.get(fr, in.b), in.t2)
	case iLookup:
		regs[in.dst] = p.lookup(p.get(fr, in.a), p.get(fr, in.b), in)
	case iMakeClosure:
		c := p.get(fr, in.a).r.(*Closure)
		env := make([]V, len(in.args))
		for i, a := range in.args {
			env[i] = p.get(fr, a)
		}
		regs[in.dst] = V{r: &Closure{fn: c.fn, env: env}}
	case iMakeInterface:
		regs[in.dst] = V{r: &Iface{t: in.t2, v: p.get(fr, in.a)}}
	case iMakeMap:
		regs[in.dst] = V{r: &Map{idx: map[any]*mapEnt{}}}
	case iMakeSlice:
		n := p.concInt(p.get(fr, in.a))
		c := p.concInt(p.get(fr, in.b))
		if n < 0 || n > 1<<24 {
			p.gopanic("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			p.gopanic("makeslice: cap out of range")
		}
		s := make([]V, n, c)
		et := in.t.elem
		if et.kind == KStruct || et.kind == KArray {
			full := s[:c]
			for i := range full {
				full[i] = zero(et)
			}
		}
		regs[in.dst] = V{r: s}
	case iMapUpdate:
		p.mapUpdate(p.get(fr, in.a), p.get(fr, in.b), copyV(p.get(fr, in.c)), in.t2)
	case iNext:
		regs[in.dst] = p.next(p.get(fr, in.a).r.(*RangeIter), in)
	case iPanic:
		v := p.get(fr, in.a)
		panic(&tPanic{v: v, msg: p.show(v, nil, 0), tr: p.where()})
	case iRange:
		v := p.get(fr, in.a)
		if in.t2.kind == KString {
			regs[in.dst] = V{r: &RangeIter{s: v}}
		} else {
			it := &RangeIter{}
			if m, ok := v.r.(*Map); ok {
				it.m = m
				for _, e := range m.ent {
					if !e.dead {
						it.order = append(it.order, e)
					}
				}
				p.permute(it)
			}
			regs[in.dst] = V{r: it}
		}
	case iSlice:
		regs[in.dst] = p.slice(fr, in)
	case iSliceToArrPtr:
		s := p.get(fr, in.a)
		n := in.t.elem.n
		sl := sliceOf(s)
		if len(sl) < n {
			p.gopanic("slice to array pointer conversion")
		}
		regs[in.dst] = V{r: &V{r: &Agg{f: sl[:n:n]}}}
	case iTypeAssert:
		regs[in.dst] = p.typeAssert(p.get(fr, in.a), in)
	case iGo:
		p.fatal("go statement")
	default:
		p.fatal("unsupported instruction %s in %s", in.src, fr.fn.name)
	}
}

func sliceOf(v V) []V {
	if v.r == nil {
		return nil
	}
	return v.r.([]V)
}

func (p *Path) load(a V) V {
	switch x := a.r.(type) {
	case *V:
		if ag, ok := x.r.(*Agg); ok {
			_ = ag
			return copyV(*x)
		}
		return *x
	case *SymPtr:
		return p.symLoad(x)
	case nil:
		p.gopanic("invalid memory address or nil pointer dereference")
	}
	p.fatal("load through %T", a.r)
	return V{}
}

func (p *Path) symLoad(x *SymPtr) V {
	c := p.w.ctx
	var acc *Term
	n := len(x.base)
	for i := n - 1; i >= 0; i-- {
		t := p.term(x.base[i], x.w)
		if acc == nil {
			acc = t
		} else {
			acc = c.ite(c.eq(x.idx, c.konst(x.idx.w, uint64(i))), t, acc)
		}
	}
	return p.fromTerm(acc)
}

func (p *Path) fromTerm(t *Term) V {
	if t.isC() {
		return V{u: t.k}
	}
	return V{r: t}
}

func (p *Path) term(v V, w uint8) *Term {
	if t, ok := v.r.(*Term); ok {
		if t.w != w {
			p.fatal("width mismatch: term %d expected %d", t.w, w)
		}
		return t
	}
	return p.w.ctx.konst(w, v.u)
}

func (p *Path) store(a V, v V) {
	switch x := a.r.(type) {
	case *V:
		storeV(x, v)
		return
	case *SymPtr:
		c := p.w.ctx
		w := x.w
		for i := range x.base {
			g := c.eq(x.idx, c.konst(x.idx.w, uint64(i)))
			x.base[i] = p.fromTerm(c.ite(g, p.term(v, w), p.term(x.base[i], w)))
		}
		return
	case nil:
		p.gopanic("invalid memory address or nil pointer dereference")
	}
	p.fatal("store through %T", a.r)
}

func (p *Path) fieldAddr(a V, n int) V {
	switch x := a.r.(type) {
	case *V:
		ag, ok := x.r.(*Agg)
		if !ok {
			p.fatal("fieldAddr on %T", x.r)
		}
		return V{r: &ag.f[n]}
	case nil:
		p.gopanic("invalid memory address or nil pointer dereference")
	}
	p.fatal("fieldAddr on %T", a.r)
	return V{}
}

// concInt returns a concrete int, concretising by forking when symbolic.
func (p *Path) concInt(v V) int {
	if t, ok := v.r.(*Term); ok {
		return int(sx(p.concretize(t), t.w))
	}
	return int(int64(v.u))
}

// checkIndex forks on bounds; returns concrete index or (symbolic term).
func (p *Path) checkIndex(idx V, n int) (int, *Term) {
	if t, ok := idx.r.(*Term); ok {
		c := p.w.ctx
		w := t.w
		if w < 64 && uint64(n) > mask(w) {
			// cannot be out of range when unsigned; be conservative: extend
			t = c.zext(t, 64)
			w = 64
		}
		in := c.ult(t, c.konst(w, uint64(n)))
		if !p.branchV(in) {
			p.gopanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		if n == 1 {
			return 0, nil
		}
		return -1, t
	}
	i := int(int64(idx.u))
	if i < 0 || i >= n {
		p.gopanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return i, nil
}

func signExtIdx(idx V, ti *TI) V { return idx }

func (p *Path) index(x V, idx V, ti *TI) V {
	if ti.kind == KString {
		n := strLen(x)
		i, t := p.checkIndex(idx, n)
		if t == nil {
			return strAt(x, i)
		}
		c := p.w.ctx
		var acc *Term
		for k := n - 1; k >= 0; k-- {
			e := p.term(strAt(x, k), 8)
			if acc == nil {
				acc = e
			} else {
				acc = c.ite(c.eq(t, c.konst(t.w, uint64(k))), e, acc)
			}
		}
		return p.fromTerm(acc)
	}
	ag := x.r.(*Agg)
	i, t := p.checkIndex(idx, len(ag.f))
	if t != nil {
		i = int(p.concretize(t))
	}
	return copyV(ag.f[i])
}

func (p *Path) indexAddr(x V, idx V, ti *TI) V {
	var base []V
	et := ti.elem
	switch y := x.r.(type) {
	case nil:
		if ti.kind == KPtr {
			p.gopanic("invalid memory address or nil pointer dereference")
		}
	case []V:
		base = y
	case *V:
		base = y.r.(*Agg).f
		et = ti.elem.elem
	default:
		p.fatal("indexAddr on %T", x.r)
	}
	i, t := p.checkIndex(idx, len(base))
	if t == nil {
		return V{r: &base[i]}
	}
	if et.scalar() {
		return V{r: &SymPtr{base: base, idx: t, w: et.w}}
	}
	return V{r: &base[int(p.concretize(t))]}
}

func (p *Path) slice(fr *Frame, in *Ins) V {
	x := p.get(fr, in.a)
	var n, c int
	var sl []V
	isStr := in.t2.kind == KString
	if isStr {
		n = strLen(x)
		c = n
	} else {
		switch y := x.r.(type) {
		case nil:
			if in.t2.kind == KPtr {
				p.gopanic("invalid memory address or nil pointer dereference")
			}
		case []V:
			sl = y
		case *V:
			sl = y.r.(*Agg).f
		}
		n, c = len(sl), cap(sl)
	}
	lo, hi, mx := 0, n, c
	if in.hasD {
		mx = p.boundInt(p.get(fr, in.d), 0, c)
	}
	if in.hasC {
		hi = p.boundInt(p.get(fr, in.c), 0, mx)
	}
	if in.hasB {
		lo = p.boundInt(p.get(fr, in.b), 0, hi)
	}
	if hi < 0 || hi > mx || lo < 0 || lo > hi || mx > c || mx < 0 {
		p.gopanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, c))
	}
	if isStr {
		return strSlice(x, lo, hi)
	}
	if sl == nil {
		return V{}
	}
	return V{r: sl[lo:hi:mx]}
}

// boundInt concretises a slice bound, forking first on being in range.
func (p *Path) boundInt(v V, lo, hi int) int {
	t, ok := v.r.(*Term)
	if !ok {
		return int(int64(v.u))
	}
	c := p.w.ctx
	in := c.ule(c.zext(t, 64), c.konst(64, uint64(hi)))
	if !p.branchV(in) {
		p.gopanic("slice bounds out of range [symbolic]")
	}
	return int(p.concretize(t))
}

func (p *Path) typeAssert(x V, in *Ins) V {
	it, _ := x.r.(*Iface)
	ok := false
	if it != nil {
		if in.t2.kind == KIface {
			ok = p.implements(it.t, in.t2)
		} else {
			ok = it.t == in.t2
		}
	}
	var v V
	if ok {
		if in.t2.kind == KIface {
			v = x
		} else {
			v = it.v
		}
	} else {
		v = zero(in.t2)
	}
	if in.commaOk {
		return V{r: Tuple{v, {u: b2u(ok)}}}
	}
	if !ok {
		got := "nil"
		if it != nil {
			got = it.t.name
		}
		p.gopanic("interface conversion: interface is " + got + ", not " + in.t2.name)
	}
	return v
}

var implCache = newSyncMap2()

func (p *Path) implements(t, it *TI) bool {
	return implCache.get(t.id, it.id, func() bool {
		return types.Implements(t.typ, it.typ.Underlying().(*types.Interface))
	})
}

func (p *Path) findMethod(t *TI, m *types.Func) *Fn {
	key := m.Id()
	t.mu.Lock()
	defer t.mu.Unlock()
	if f, ok := t.methods[key]; ok {
		return f
	}
	sf := p.w.eng.prog.LookupMethod(t.typ, m.Pkg(), m.Name())
	if sf == nil {
		return nil
	}
	if t.methods == nil {
		t.methods = map[string]*Fn{}
	}
	f := getFn(sf)
	t.methods[key] = f
	return f
}

func (p *Path) resolve(fr *Frame, in *Ins) (*Fn, *Closure, string, []V) {
	switch in.n {
	case 0:
		args := make([]V, len(in.args))
		for i, a := range in.args {
			args[i] = p.get(fr, a)
		}
		return in.fn, nil, "", args
	case 1:
		args := make([]V, len(in.args))
		for i, a := range in.args {
			args[i] = p.get(fr, a)
		}
		return nil, nil, in.bi, args
	case 2:
		x := p.get(fr, in.a)
		it, _ := x.r.(*Iface)
		if it == nil {
			p.gopanic("invalid memory address or nil pointer dereference (nil interface method " + in.method.Name() + ")")
		}
		fn := p.findMethod(it.t, in.method)
		if fn == nil {
			p.fatal("method %s not found on %s", in.method.Name(), it.t.name)
		}
		args := make([]V, len(in.args)+1)
		args[0] = it.v
		for i, a := range in.args {
			args[i+1] = p.get(fr, a)
		}
		return fn, nil, "", args
	default:
		c, _ := p.get(fr, in.a).r.(*Closure)
		if c == nil {
			p.gopanic("invalid memory address or nil pointer dereference (nil func)")
		}
		args := make([]V, len(in.args))
		for i, a := range in.args {
			args[i] = p.get(fr, a)
		}
		return c.fn, c, c.bi, args
	}
}

func (p *Path) doCall(fr *Frame, in *Ins) V {
	fn, cl, bi, args := p.resolve(fr, in)
	if bi != "" {
		return p.builtin(bi, args, in.t2, in, fr)
	}
	if cl != nil {
		return p.callFn(fn, args, cl.env)
	}
	return p.callFn(fn, args, nil)
}

func (p *Path) callClosure(v V, args ...V) V {
	c, _ := v.r.(*Closure)
	if c == nil {
		p.gopanic("invalid memory address or nil pointer dereference (nil func)")
	}
	return p.callFn(c.fn, args, c.env)
}

func (p *Path) builtin(name string, args []V, t2 *TI, in *Ins, fr *Frame) V {
	switch name {
	case "len":
		switch x := args[0].r.(type) {
		case nil:
			return V{}
		case []V:
			return V{u: uint64(len(x))}
		case string:
			return V{u: uint64(len(x))}
		case *SymStr:
			return V{u: uint64(len(x.b))}
		case *Map:
			return V{u: uint64(x.n)}
		case *Agg:
			return V{u: uint64(len(x.f))}
		case *V:
			return V{u: uint64(len(x.r.(*Agg).f))}
		}
	case "cap":
		switch x := args[0].r.(type) {
		case nil:
			return V{}
		case []V:
			return V{u: uint64(cap(x))}
		case *V:
			return V{u: uint64(len(x.r.(*Agg).f))}
		}
	case "append":
		s := sliceOf(args[0])
		if args[1].r == nil {
			return args[0]
		}
		var add []V
		switch x := args[1].r.(type) {
		case []V:
			add = x
		default:
			add = strBytes(args[1])
		}
		if len(add) == 0 {
			return args[0]
		}
		// Go semantics: append into spare capacity aliases the backing array.
		if len(s)+len(add) <= cap(s) {
			d := s[:len(s)+len(add)]
			if _, isAgg := add[0].r.(*Agg); isAgg {
				tmp := make([]V, len(add))
				for i := range add {
					tmp[i] = copyV(add[i])
				}
				for i := range tmp {
					storeV(&d[len(s)+i], tmp[i])
				}
			} else {
				copy(d[len(s):], add)
			}
			return V{r: d}
		}
		nc := growCap(cap(s), len(s)+len(add), t2)
		d := make([]V, len(s)+len(add), nc)
		for i := range s {
			d[i] = copyV(s[i])
		}
		for i := range add {
			d[len(s)+i] = copyV(add[i])
		}
		if nc > len(d) {
			if _, isAgg := d[0].r.(*Agg); isAgg {
				et := t2.elem
				full := d[:nc]
				for i := len(d); i < nc; i++ {
					full[i] = zero(et)
				}
			}
		}
		return V{r: d}
	case "copy":
		d := sliceOf(args[0])
		var src []V
		switch x := args[1].r.(type) {
		case nil:
		case []V:
			src = x
		default:
			src = strBytes(args[1])
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		if n > 0 {
			if _, isAgg := src[0].r.(*Agg); isAgg {
				tmp := make([]V, n)
				for i := range tmp {
					tmp[i] = copyV(src[i])
				}
				for i := range tmp {
					storeV(&d[i], tmp[i])
				}
			} else {
				copy(d, src[:n])
			}
		}
		return V{u: uint64(n)}
	case "delete":
		if m, ok := args[0].r.(*Map); ok {
			if e := p.mapFind(m, args[1], t2.key); e != nil {
				e.dead = true
				delete(m.idx, e.ks)
				m.n--
				for i, x := range m.ent {
					if x == e {
						m.ent = append(append([]*mapEnt(nil), m.ent[:i]...), m.ent[i+1:]...)
						break
					}
				}
			}
		}
		return V{}
	case "clear":
		switch x := args[0].r.(type) {
		case *Map:
			for _, e := range x.ent {
				e.dead = true
			}
			x.ent, x.idx, x.n = nil, map[any]*mapEnt{}, 0
		case []V:
			for i := range x {
				x[i] = zero(t2.elem)
			}
		}
		return V{}
	case "panic":
		panic(&tPanic{v: args[0], msg: p.show(args[0], nil, 0), tr: p.where()})
	case "recover":
		if fr != nil && fr.deferOf != nil && fr.deferOf.pan != nil {
			pn := fr.deferOf.pan
			fr.deferOf.pan = nil
			p.lastPanic = pn.msg + pn.tr
			return pn.v
		}
		return V{}
	case "print", "println":
		return V{}
	case "min", "max":
		acc := args[0]
		for _, a := range args[1:] {
			tk := token.LSS
			if name == "max" {
				tk = token.GTR
			}
			lt := p.binop(&Ins{tok: tk, t2: t2, t: TypeInfo(types.Typ[types.Bool])}, a, acc)
			if t, ok := lt.r.(*Term); ok {
				acc = p.fromTerm(p.w.ctx.ite(t, p.term(a, t2.w), p.term(acc, t2.w)))
			} else if lt.u != 0 {
				acc = a
			}
		}
		return acc
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			p.gopanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		s := sliceOf(args[0])
		if cap(s) == 0 {
			return V{}
		}
		return V{r: &s[:1][0]}
	}
	p.fatal("builtin %s on %T", name, func() any {
		if len(args) > 0 {
			return args[0].r
		}
		return nil
	}())
	return V{}
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var gcSizes = types.SizesFor("gc", "amd64")

// growCap mirrors runtime.growslice.
func growCap(old, need int, st *TI) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 768) / 4
		}
	}
	es := 8
	if st != nil && st.elem != nil {
		es = int(gcSizes.Sizeof(st.elem.typ))
	}
	if es == 0 {
		return need
	}
	bytes := nc * es
	if bytes <= 32768-8 {
		for _, c := range sizeClasses {
			if c >= bytes {
				return c / es
			}
		}
	}
	bytes = (bytes + 8191) / 8192 * 8192
	return bytes / es
}

// ---- maps

func (p *Path) mapKey(k V, ti *TI) (any, bool) {
	switch ti.kind {
	case KBool, KInt:
		if _, ok := k.r.(*Term); ok {
			return nil, false
		}
		return k.u, true
	case KFloat:
		if _, ok := k.r.(*Term); ok {
			return nil, false
		}
		return k.u, true
	case KString:
		s, ok := strConc(k)
		return s, ok
	case KPtr, KChan, KUnsafe:
		return k.r, true
	case KIface:
		it, _ := k.r.(*Iface)
		if it == nil {
			return nil, true
		}
		x, ok := p.mapKey(it.v, it.t)
		return [2]any{it.t, x}, ok
	case KStruct, KArray:
		var sb strings.Builder
		ag := k.r.(*Agg)
		var ptrs [4]any
		np := 0
		for i, f := range ag.f {
			ft := ti.elem
			if ti.kind == KStruct {
				ft = ti.fields[i]
			}
			x, ok := p.mapKey(f, ft)
			if !ok {
				return nil, false
			}
			switch x.(type) {
			case uint64, string, nil:
				fmt.Fprintf(&sb, "%T%v|", x, x)
			default:
				if np >= 4 {
					p.fatal("map key too complex")
				}
				ptrs[np] = x
				np++
			}
		}
		return [5]any{sb.String(), ptrs[0], ptrs[1], ptrs[2], ptrs[3]}, true
	}
	p.fatal("map key kind %s", ti.name)
	return nil, false
}

func (p *Path) mapFind(m *Map, k V, kt *TI) *mapEnt {
	ks, ok := p.mapKey(k, kt)
	if ok {
		// concrete key; entries may still be symbolic
		if e, ok := m.idx[ks]; ok {
			return e
		}
		if kt.kind == KString || kt.scalar() {
			for _, e := range m.ent {
				if _, isSym := e.ks.(*symKey); isSym {
					if p.condV(p.eqV(k, e.k, kt)) {
						return e
					}
				}
			}
		}
		return nil
	}
	for _, e := range m.ent {
		if p.condV(p.eqV(k, e.k, kt)) {
			return e
		}
	}
	return nil
}

type symKey struct{ n int }

func (p *Path) mapUpdate(mv V, k V, v V, mt *TI) {
	m, _ := mv.r.(*Map)
	if m == nil {
		p.gopanic("assignment to entry in nil map")
	}
	if e := p.mapFind(m, k, mt.key); e != nil {
		e.v = v
		return
	}
	ks, ok := p.mapKey(k, mt.key)
	if !ok {
		ks = &symKey{}
	}
	e := &mapEnt{k: copyV(k), v: v, ks: ks}
	m.ent = append(m.ent, e)
	m.idx[ks] = e
	m.n++
}

func (p *Path) lookup(x, k V, in *Ins) V {
	if in.t2.kind == KString {
		return p.index(x, k, in.t2)
	}
	var v V
	found := false
	if m, ok := x.r.(*Map); ok {
		if e := p.mapFind(m, k, in.t2.key); e != nil {
			v, found = copyV(e.v), true
		}
	}
	if !found {
		v = zero(in.t2.elem)
	}
	if in.commaOk {
		return V{r: Tuple{v, {u: b2u(found)}}}
	}
	return v
}

func (p *Path) next(it *RangeIter, in *Ins) V {
	if in.commaOk { // string
		n := strLen(it.s)
		if it.pos >= n {
			return V{r: Tuple{{}, {}, {}}}
		}
		b := strAt(it.s, it.pos)
		pos := V{u: uint64(it.pos)}
		if t, ok := b.r.(*Term); ok {
			c := p.w.ctx
			if p.branchV(c.ult(t, c.konst(8, 0x80))) {
				it.pos++
				return V{r: Tuple{{u: 1}, pos, p.fromTerm(c.zext(t, 32))}}
			}
			r, sz := p.decodeRune(strSlice(it.s, it.pos, n))
			it.pos += sz
			return V{r: Tuple{{u: 1}, pos, r}}
		}
		if b.u < 0x80 {
			it.pos++
			return V{r: Tuple{{u: 1}, pos, {u: b.u}}}
		}
		r, sz := p.decodeRune(strSlice(it.s, it.pos, n))
		it.pos += sz
		return V{r: Tuple{{u: 1}, pos, r}}
	}
	for it.pos < len(it.order) {
		e := it.order[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return V{r: Tuple{{u: 1}, e.k, copyV(e.v)}}
	}
	return V{r: Tuple{{}, {}, {}}}
}

func (p *Path) decodeRune(s V) (V, int) {
	if c, ok := strConc(s); ok {
		r, n := utf8.DecodeRuneInString(c)
		return V{u: uint64(uint32(r))}, n
	}
	f := p.w.eng.lookupFunc("unicode/utf8", "DecodeRuneInString")
	res := p.callFn(getFn(f), []V{s}, nil).r.(Tuple)
	return res[0], p.concInt(res[1])
}

// permute picks the iteration order of a map range (p.mapOrder mode).
func (p *Path) permute(it *RangeIter) {
	n := len(it.order)
	if n < 2 || p.mapOrder == 0 {
		return
	}
	if p.mapOrder == 1 { // explore
		if n <= 3 {
			// full permutations
			rest := it.order
			var out []*mapEnt
			for len(rest) > 1 {
				i := p.choose(len(rest))
				out = append(out, rest[i])
				rest = append(append([]*mapEnt(nil), rest[:i]...), rest[i+1:]...)
			}
			it.order = append(out, rest[0])
			return
		}
		i := p.choose(n + 1)
		if i == n {
			out := make([]*mapEnt, n)
			for k := range out {
				out[k] = it.order[n-1-k]
			}
			it.order = out
			return
		}
		it.order = append(append([]*mapEnt(nil), it.order[i:]...), it.order[:i]...)
	}
	if p.mapOrder == 2 { // reversed
		out := make([]*mapEnt, n)
		for k := range out {
			out[k] = it.order[n-1-k]
		}
		it.order = out
	}
}

// condV turns a boolean V into a concrete decision, forking if needed.
func (p *Path) condV(v V) bool {
	if t, ok := v.r.(*Term); ok {
		return p.branchV(t)
	}
	return v.u != 0
}

func (p *Path) branchV(t *Term) bool {
	if t.isC() {
		return t.k != 0
	}
	return p.branch(t)
}

// ---- equality

func (p *Path) boolV(t *Term) V {
	if t.isC() {
		return V{u: t.k}
	}
	return V{r: t}
}

func (p *Path) andV(a, b V) V {
	ta, oka := a.r.(*Term)
	tb, okb := b.r.(*Term)
	if !oka {
		if a.u == 0 {
			return V{}
		}
		return b
	}
	if !okb {
		if b.u == 0 {
			return V{}
		}
		return a
	}
	return p.boolV(p.w.ctx.and(ta, tb))
}

func (p *Path) eqV(a, b V, ti *TI) V {
	switch ti.kind {
	case KBool, KInt:
		if a.r == nil && b.r == nil {
			return V{u: b2u(a.u == b.u)}
		}
		return p.boolV(p.w.ctx.eq(p.term(a, ti.w), p.term(b, ti.w)))
	case KFloat:
		if a.r == nil && b.r == nil {
			return V{u: b2u(fval(ti.w, a.u) == fval(ti.w, b.u))}
		}
		return p.boolV(p.w.ctx.fcmp(OFEq, p.term(a, ti.w), p.term(b, ti.w)))
	case KString:
		n := strLen(a)
		if n != strLen(b) {
			return V{}
		}
		x, ok1 := strConc(a)
		y, ok2 := strConc(b)
		if ok1 && ok2 {
			return V{u: b2u(x == y)}
		}
		acc := p.w.ctx.True
		for i := 0; i < n; i++ {
			acc = p.w.ctx.and(acc, p.w.ctx.eq(p.term(strAt(a, i), 8), p.term(strAt(b, i), 8)))
		}
		return p.boolV(acc)
	case KStruct, KArray:
		x, y := a.r.(*Agg), b.r.(*Agg)
		acc := V{u: 1}
		for i := range x.f {
			ft := ti.elem
			if ti.kind == KStruct {
				ft = ti.fields[i]
			}
			acc = p.andV(acc, p.eqV(x.f[i], y.f[i], ft))
		}
		return acc
	case KIface:
		x, _ := a.r.(*Iface)
		y, _ := b.r.(*Iface)
		if x == nil || y == nil {
			return V{u: b2u(x == nil && y == nil)}
		}
		if x.t != y.t {
			return V{}
		}
		switch x.t.kind {
		case KSlice, KMap, KFunc:
			p.gopanic("comparing uncomparable type " + x.t.name)
		}
		return p.eqV(x.v, y.v, x.t)
	case KPtr, KUnsafe, KChan:
		if sp, ok := a.r.(*SymPtr); ok {
			_ = sp
			p.fatal("comparison of symbolic pointer")
		}
		return V{u: b2u(a.r == b.r)}
	case KSlice, KMap, KFunc:
		// only nil comparison is legal
		return V{u: b2u((a.r == nil) == (b.r == nil))}
	}
	p.fatal("eq on %s", ti.name)
	return V{}
}

func (p *Path) strLess(a, b V) V {
	x, ok1 := strConc(a)
	y, ok2 := strConc(b)
	if ok1 && ok2 {
		return V{u: b2u(x < y)}
	}
	c := p.w.ctx
	n := strLen(a)
	m := strLen(b)
	k := n
	if m < k {
		k = m
	}
	acc := c.boolT(n < m)
	for i := k - 1; i >= 0; i-- {
		ta, tb := p.term(strAt(a, i), 8), p.term(strAt(b, i), 8)
		acc = c.or(c.ult(ta, tb), c.and(c.eq(ta, tb), acc))
	}
	return p.boolV(acc)
}

func (p *Path) notV(a V) V {
	if t, ok := a.r.(*Term); ok {
		return p.boolV(p.w.ctx.not(t))
	}
	return V{u: 1 - a.u}
}

func (p *Path) unop(in *Ins, a V) V {
	switch in.tok {
	case token.NOT:
		return p.notV(a)
	case token.SUB:
		if in.t.kind == KFloat {
			if t, ok := a.r.(*Term); ok {
				return p.fromTerm(p.w.ctx.fneg(t))
			}
			return V{u: fbits(in.t.w, -fval(in.t.w, a.u))}
		}
		if t, ok := a.r.(*Term); ok {
			return p.fromTerm(p.w.ctx.neg(t))
		}
		return V{u: -a.u & mask(in.t.w)}
	case token.XOR:
		if t, ok := a.r.(*Term); ok {
			return p.fromTerm(p.w.ctx.bvnot(t))
		}
		return V{u: ^a.u & mask(in.t.w)}
	}
	p.fatal("unop %s", in.tok)
	return V{}
}

func (p *Path) binop(in *Ins, a, b V) V {
	ti := in.t2
	switch in.tok {
	case token.EQL:
		return p.eqV(a, b, ti)
	case token.NEQ:
		return p.notV(p.eqV(a, b, ti))
	}
	switch ti.kind {
	case KString:
		switch in.tok {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return p.strLess(a, b)
		case token.GTR:
			return p.strLess(b, a)
		case token.LEQ:
			return p.notV(p.strLess(b, a))
		case token.GEQ:
			return p.notV(p.strLess(a, b))
		}
	case KFloat:
		if a.r == nil && b.r == nil {
			x, y := fval(ti.w, a.u), fval(ti.w, b.u)
			switch in.tok {
			case token.ADD:
				return V{u: evalF(OFAdd, ti.w, a.u, b.u)}
			case token.SUB:
				return V{u: evalF(OFSub, ti.w, a.u, b.u)}
			case token.MUL:
				return V{u: evalF(OFMul, ti.w, a.u, b.u)}
			case token.QUO:
				return V{u: evalF(OFDiv, ti.w, a.u, b.u)}
			case token.LSS:
				return V{u: b2u(x < y)}
			case token.GTR:
				return V{u: b2u(x > y)}
			case token.LEQ:
				return V{u: b2u(x <= y)}
			case token.GEQ:
				return V{u: b2u(x >= y)}
			}
		}
		c := p.w.ctx
		x, y := p.term(a, ti.w), p.term(b, ti.w)
		switch in.tok {
		case token.ADD:
			return p.fromTerm(c.fbin(OFAdd, x, y))
		case token.SUB:
			return p.fromTerm(c.fbin(OFSub, x, y))
		case token.MUL:
			return p.fromTerm(c.fbin(OFMul, x, y))
		case token.QUO:
			return p.fromTerm(c.fbin(OFDiv, x, y))
		case token.LSS:
			return p.boolV(c.fcmp(OFLt, x, y))
		case token.GTR:
			return p.boolV(c.fcmp(OFLt, y, x))
		case token.LEQ:
			return p.boolV(c.fcmp(OFLe, x, y))
		case token.GEQ:
			return p.boolV(c.fcmp(OFLe, y, x))
		}
	case KBool:
		c := p.w.ctx
		x, y := p.term(a, 0), p.term(b, 0)
		switch in.tok {
		case token.AND, token.LAND:
			return p.boolV(c.and(x, y))
		case token.OR, token.LOR:
			return p.boolV(c.or(x, y))
		}
	case KInt:
		if a.r == nil && b.r == nil {
			return p.intConc(in, a.u, b.u)
		}
		return p.intSym(in, a, b)
	}
	p.fatal("binop %s on %s", in.tok, ti.name)
	return V{}
}

func (p *Path) intConc(in *Ins, x, y uint64) V {
	ti := in.t2
	w := ti.w
	m := mask(w)
	switch in.tok {
	case token.ADD:
		return V{u: (x + y) & m}
	case token.SUB:
		return V{u: (x - y) & m}
	case token.MUL:
		return V{u: (x * y) & m}
	case token.AND:
		return V{u: x & y}
	case token.OR:
		return V{u: x | y}
	case token.XOR:
		return V{u: x ^ y}
	case token.AND_NOT:
		return V{u: x &^ y}
	case token.QUO, token.REM:
		if y == 0 {
			p.gopanic("integer divide by zero")
		}
		op := OUDiv
		switch {
		case in.tok == token.QUO && ti.signed:
			op = OSDiv
		case in.tok == token.REM && ti.signed:
			op = OSRem
		case in.tok == token.REM:
			op = OURem
		}
		return V{u: evalBV(op, w, x, y)}
	case token.SHL, token.SHR:
		if in.hasC && sx(y, uint8(in.n)) < 0 {
			p.gopanic("negative shift amount")
		}
		if in.tok == token.SHL {
			if y >= uint64(w) {
				return V{}
			}
			return V{u: (x << y) & m}
		}
		if ti.signed {
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return V{u: uint64(sx(x, w)>>y) & m}
		}
		if y >= uint64(w) {
			return V{}
		}
		return V{u: x >> y}
	}
	var r bool
	if ti.signed {
		a, b := sx(x, w), sx(y, w)
		switch in.tok {
		case token.LSS:
			r = a < b
		case token.LEQ:
			r = a <= b
		case token.GTR:
			r = a > b
		case token.GEQ:
			r = a >= b
		}
	} else {
		switch in.tok {
		case token.LSS:
			r = x < y
		case token.LEQ:
			r = x <= y
		case token.GTR:
			r = x > y
		case token.GEQ:
			r = x >= y
		}
	}
	return V{u: b2u(r)}
}

func (p *Path) intSym(in *Ins, a, b V) V {
	c := p.w.ctx
	ti := in.t2
	w := ti.w
	if in.tok == token.SHL || in.tok == token.SHR {
		yw := uint8(in.n)
		x := p.term(a, w)
		y := p.term(b, yw)
		if in.hasC {
			if p.branchV(c.slt(y, c.konst(yw, 0))) {
				p.gopanic("negative shift amount")
			}
		}
		// saturate the shift amount to width w
		var ys *Term
		if yw > w {
			big := c.not(c.ult(y, c.konst(yw, uint64(w))))
			ys = c.ite(big, c.konst(w, uint64(w)), c.extract(y, w-1, 0))
		} else {
			ys = c.zext(y, w)
		}
		op := OShl
		if in.tok == token.SHR {
			op = OLShr
			if ti.signed {
				op = OAShr
			}
		}
		return p.fromTerm(c.bin(op, x, ys))
	}
	x, y := p.term(a, w), p.term(b, w)
	switch in.tok {
	case token.ADD:
		return p.fromTerm(c.bin(OAdd, x, y))
	case token.SUB:
		return p.fromTerm(c.bin(OSub, x, y))
	case token.MUL:
		return p.fromTerm(c.bin(OMul, x, y))
	case token.AND:
		return p.fromTerm(c.bin(OAnd, x, y))
	case token.OR:
		return p.fromTerm(c.bin(OOr, x, y))
	case token.XOR:
		return p.fromTerm(c.bin(OXor, x, y))
	case token.AND_NOT:
		return p.fromTerm(c.bin(OAnd, x, c.bvnot(y)))
	case token.QUO, token.REM:
		if p.branchV(c.eq(y, c.konst(w, 0))) {
			p.gopanic("integer divide by zero")
		}
		op := OUDiv
		switch {
		case in.tok == token.QUO && ti.signed:
			op = OSDiv
		case in.tok == token.REM && ti.signed:
			op = OSRem
		case in.tok == token.REM:
			op = OURem
		}
		return p.fromTerm(c.bin(op, x, y))
	}
	lt := c.ult
	if ti.signed {
		lt = c.slt
	}
	switch in.tok {
	case token.LSS:
		return p.boolV(lt(x, y))
	case token.GTR:
		return p.boolV(lt(y, x))
	case token.LEQ:
		return p.boolV(c.not(lt(y, x)))
	case token.GEQ:
		return p.boolV(c.not(lt(x, y)))
	}
	p.fatal("intSym %s", in.tok)
	return V{}
}

func (p *Path) convert(v V, from, to *TI) V {
	c := p.w.ctx
	switch {
	case from.kind == KInt && to.kind == KInt:
		if t, ok := v.r.(*Term); ok {
			return p.fromTerm(c.resize(t, to.w, from.signed))
		}
		if from.signed {
			return V{u: uint64(sx(v.u, from.w)) & mask(to.w)}
		}
		return V{u: v.u & mask(to.w)}
	case from.kind == KInt && to.kind == KFloat:
		op := OFFromU
		if from.signed {
			op = OFFromS
		}
		if t, ok := v.r.(*Term); ok {
			return p.fromTerm(c.fconv(op, t, to.w))
		}
		return V{u: evalConv(op, to.w, from.w, v.u)}
	case from.kind == KFloat && to.kind == KInt:
		op := OFToU
		if to.signed {
			op = OFToS
		}
		if t, ok := v.r.(*Term); ok {
			return p.fromTerm(c.fconv(op, t, to.w))
		}
		return V{u: evalConv(op, to.w, from.w, v.u)}
	case from.kind == KFloat && to.kind == KFloat:
		if t, ok := v.r.(*Term); ok {
			return p.fromTerm(c.fconv(OFCvt, t, to.w))
		}
		return V{u: evalConv(OFCvt, to.w, from.w, v.u)}
	case from.kind == KInt && to.kind == KString:
		if t, ok := v.r.(*Term); ok {
			r := c.resize(t, 32, from.signed)
			if p.branchV(c.ult(r, c.konst(32, 0x80))) {
				return strFrom([]V{p.fromTerm(c.extract(r, 7, 0))})
			}
			if p.branchV(c.ult(r, c.konst(32, 0x800))) {
				b0 := c.bin(OOr, c.konst(8, 0xc0), c.extract(c.bin(OLShr, r, c.konst(32, 6)), 7, 0))
				b1 := c.bin(OOr, c.konst(8, 0x80), c.bin(OAnd, c.extract(r, 7, 0), c.konst(8, 0x3f)))
				return strFrom([]V{p.fromTerm(b0), p.fromTerm(b1)})
			}
			return mkStr(string(rune(int32(p.concretize(r)))))
		}
		var i int64
		if from.signed {
			i = sx(v.u, from.w)
		} else {
			i = int64(v.u)
		}
		if i < 0 || i > 0x10ffff {
			i = 0xfffd
		}
		return mkStr(string(rune(i)))
	case from.kind == KString && to.kind == KSlice:
		if to.elem.w == 8 {
			b := strBytes(v)
			n := make([]V, len(b))
			copy(n, b)
			return V{r: n}
		}
		// []rune
		it := &RangeIter{s: v}
		out := []V{}
		for {
			t := p.next(it, &Ins{commaOk: true}).r.(Tuple)
			if t[0].u == 0 {
				break
			}
			out = append(out, t[2])
		}
		return V{r: out}
	case from.kind == KSlice && to.kind == KString:
		s := sliceOf(v)
		if from.elem.w == 8 {
			return strFrom(append([]V(nil), s...))
		}
		acc := V{}
		for _, r := range s {
			acc = strCat(acc, p.convert(r, from.elem, to))
		}
		return acc
	case from.kind == to.kind:
		return v
	case from.kind == KPtr && to.kind == KUnsafe, from.kind == KUnsafe && to.kind == KPtr:
		return v
	case to.kind == KUnsafe || from.kind == KUnsafe:
		return v
	}
	p.fatal("convert %s -> %s", from.name, to.name)
	return V{}
}

var _ = runtime.NumCPU
var _ ssa.Value
