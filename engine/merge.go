package main

import "go/token"

// If-conversion: a symbolic branch whose region up to the immediate
// post-dominator is pure is evaluated on both sides and joined with ite terms.

type mergeAbort struct{}

type mergeState struct {
	p      *Path
	budget int
	depth  int
	head   *Blk // of the region in the outermost frame
}

// leaf of region evaluation: guard and the values flowing into the join
type mleaf struct {
	g    *Term
	vals []V
}

// tryMerge attempts to evaluate the region of a symbolic If. On success it
// returns the join block with its phis assigned (mb non-nil), or the merged
// return value (mb nil).
func (p *Path) tryMerge(fr *Frame, blk *Blk, in *Ins, cond *Term) (mb *Blk, ret V, ok bool) {
	if p.noMerge {
		return nil, V{}, false
	}
	if n := p.mergeFail[in.id]; n >= 2 {
		return nil, V{}, false
	}
	join := blk.ipdom
	if join == nil && fr.fn.hasDefer {
		return nil, V{}, false
	}
	if join == nil && len(fr.fn.ssa.Blocks) > 40 {
		return nil, V{}, false
	}
	ms := &mergeState{p: p, budget: 400}
	snap := append([]V(nil), fr.regs...)
	saveSp, saveStk, saveFr, saveDepth := p.sp, p.stack, p.fr, p.depth
	var leaves []mleaf
	good := func() (good bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(mergeAbort); is {
					good = false
					p.sp, p.stack, p.fr, p.depth = saveSp, saveStk, saveFr, saveDepth
					return
				}
				panic(r)
			}
		}()
		ms.head = blk
		ms.region(fr, blk.succs[0], blk, join, cond, &leaves)
		copy(fr.regs, snap)
		ms.region(fr, blk.succs[1], blk, join, p.w.ctx.not(cond), &leaves)
		return true
	}()
	copy(fr.regs, snap)
	if !good || len(leaves) == 0 {
		p.mergeFail[in.id]++
		return nil, V{}, false
	}
	if join == nil {
		v, ok := p.joinRet(leaves)
		if !ok {
			p.mergeFail[in.id]++
			return nil, V{}, false
		}
		p.merges++
		return nil, v, true
	}
	out := make([]V, len(join.phis))
	for i := range join.phis {
		v, ok := p.joinLeaves(leaves, i)
		if !ok {
			p.mergeFail[in.id]++
			return nil, V{}, false
		}
		out[i] = v
	}
	for i := range join.phis {
		fr.regs[join.phis[i].dst] = out[i]
	}
	p.merges++
	return join, V{}, true
}

func (p *Path) joinLeaves(ls []mleaf, i int) (V, bool) {
	acc := ls[len(ls)-1].vals[i]
	for k := len(ls) - 2; k >= 0; k-- {
		v, ok := p.iteV(ls[k].g, ls[k].vals[i], acc)
		if !ok {
			return V{}, false
		}
		acc = v
	}
	if t, ok := acc.r.(*Term); ok {
		acc = p.fromTerm(t)
	}
	return acc, true
}

func (p *Path) joinRet(ls []mleaf) (V, bool) {
	n := len(ls[0].vals)
	if n == 0 {
		return V{}, true
	}
	if n == 1 {
		return p.joinLeaves(ls, 0)
	}
	tu := make(Tuple, n)
	for i := range tu {
		v, ok := p.joinLeaves(ls, i)
		if !ok {
			return V{}, false
		}
		tu[i] = v
	}
	return V{r: tu}, true
}

func termOrConst(p *Path, v V, w uint8) *Term {
	if t, ok := v.r.(*Term); ok {
		return t
	}
	return p.w.ctx.konst(w, v.u)
}

// iteV joins two values if they are representable as one.
func (p *Path) iteV(g *Term, a, b V) (V, bool) {
	ta, oka := a.r.(*Term)
	tb, okb := b.r.(*Term)
	c := p.w.ctx
	switch {
	case oka && okb:
		if ta.w != tb.w {
			return V{}, false
		}
		return p.fromTerm(c.ite(g, ta, tb)), true
	case oka && b.r == nil:
		return p.fromTerm(c.ite(g, ta, c.konst(ta.w, b.u))), true
	case okb && a.r == nil:
		return p.fromTerm(c.ite(g, c.konst(tb.w, a.u), tb)), true
	case oka || okb:
		return V{}, false
	}
	if a.r == nil && b.r == nil {
		if a.u == b.u {
			return a, true
		}
		return V{}, false
	}
	switch x := a.r.(type) {
	case string:
		if y, ok := b.r.(string); ok && x == y {
			return a, true
		}
		return V{}, false
	case *V:
		if y, ok := b.r.(*V); ok && x == y {
			return a, true
		}
		return V{}, false
	case *Agg:
		if y, ok := b.r.(*Agg); ok && x == y {
			return a, true
		}
	case *Map:
		if y, ok := b.r.(*Map); ok && x == y {
			return a, true
		}
	case *Iface:
		if y, ok := b.r.(*Iface); ok && x == y {
			return a, true
		}
	}
	return V{}, false
}

func (ms *mergeState) abort() { panic(mergeAbort{}) }

// lift turns a value of type ti into a term if it is scalar (so joins know the width).
func (ms *mergeState) lift(v V, ti *TI) V {
	if v.r == nil && ti.scalar() {
		return V{r: ms.p.w.ctx.konst(ti.w, v.u)}
	}
	if ti.kind == KTuple {
		ms.abort()
	}
	return v
}

func (ms *mergeState) region(fr *Frame, blk, prev, join *Blk, g *Term, leaves *[]mleaf) {
	p := ms.p
	for {
		if g == p.w.ctx.False {
			return
		}
		if blk == join {
			var vals []V
			pi := blk.pidx[prev.idx]
			for i := range blk.phis {
				vals = append(vals, ms.lift(p.get(fr, blk.phis[i].edges[pi]), blk.phis[i].t))
			}
			*leaves = append(*leaves, mleaf{g, vals})
			if len(*leaves) > 64 {
				ms.abort()
			}
			return
		}
		// A loop header above the branch: its values are used after the join
		// without a phi there.
		if join != nil && blk.sb.Dominates(ms.head.sb) {
			ms.abort()
		}
		if len(blk.phis) > 0 {
			pi := blk.pidx[prev.idx]
			tmp := make([]V, len(blk.phis))
			for i := range blk.phis {
				tmp[i] = p.get(fr, blk.phis[i].edges[pi])
			}
			for i := range blk.phis {
				fr.regs[blk.phis[i].dst] = tmp[i]
			}
		}
		ms.budget -= len(blk.ins)
		if ms.budget < 0 {
			ms.abort()
		}
		p.steps += int64(len(blk.ins))
		moved := false
		for ii := range blk.ins {
			in := &blk.ins[ii]
			switch in.op {
			case iJump:
				prev, blk = blk, blk.succs[0]
				moved = true
			case iIf:
				c := p.get(fr, in.a)
				t, sym := c.r.(*Term)
				if sym && t.isC() {
					sym = false
					c = V{u: t.k}
				}
				if sym {
					if kv, ok := p.known[t]; ok {
						sym = false
						c = V{u: b2u(kv)}
					}
				}
				if sym {
					// Evaluate both sides. Region registers are recomputed on each
					// side before use (SSA dominance), but loops may overwrite phis,
					// hence the snapshot.
					ctx := p.w.ctx
					snap := append([]V(nil), fr.regs...)
					ms.region(fr, blk.succs[0], blk, join, ctx.and(g, t), leaves)
					copy(fr.regs, snap)
					ms.region(fr, blk.succs[1], blk, join, ctx.and(g, ctx.not(t)), leaves)
					return
				}
				if c.u != 0 {
					prev, blk = blk, blk.succs[0]
				} else {
					prev, blk = blk, blk.succs[1]
				}
				moved = true
			case iReturn:
				if join != nil {
					ms.abort()
				}
				var vals []V
				for i, a := range in.args {
					vals = append(vals, ms.lift(p.get(fr, a), fr.fn.resT.fields[i]))
				}
				*leaves = append(*leaves, mleaf{g, vals})
				if len(*leaves) > 64 {
					ms.abort()
				}
				return
			default:
				ms.pure(fr, in)
			}
			if moved {
				break
			}
		}
		if !moved {
			ms.abort()
		}
	}
}

func (ms *mergeState) pure(fr *Frame, in *Ins) {
	p := ms.p
	switch in.op {
	case iBinOp:
		b := p.get(fr, in.b)
		switch in.tok {
		case token.QUO, token.REM:
			if b.r != nil || (b.u == 0 && in.t2.kind == KInt) {
				ms.abort()
			}
		case token.SHL, token.SHR:
			if in.hasC && b.r != nil {
				ms.abort()
			}
			if in.hasC && sx(b.u, uint8(in.n)) < 0 {
				ms.abort()
			}
		case token.EQL, token.NEQ:
			if in.t2.kind == KIface {
				// may panic on uncomparable; only allow nil comparisons
				a := p.get(fr, in.a)
				if a.r != nil && b.r != nil {
					ms.abort()
				}
			}
		}
		p.exec(fr, in)
	case iUnOp, iExtract, iField, iChangeType, iMakeInterface:
		p.exec(fr, in)
	case iConvert:
		k := in.t.kind
		if k == KInt || k == KFloat || k == KPtr || k == KUnsafe {
			p.exec(fr, in)
			return
		}
		ms.abort()
	case iFieldAddr:
		if _, ok := p.get(fr, in.a).r.(*V); !ok {
			ms.abort()
		}
		p.exec(fr, in)
	case iLoad:
		switch p.get(fr, in.a).r.(type) {
		case *V, *SymPtr:
			p.exec(fr, in)
		default:
			ms.abort()
		}
	case iIndexAddr, iIndex:
		idx := p.get(fr, in.b)
		if idx.r != nil {
			ms.abort()
		}
		x := p.get(fr, in.a)
		n := 0
		switch y := x.r.(type) {
		case []V:
			n = len(y)
		case *V:
			if a, ok := y.r.(*Agg); ok {
				n = len(a.f)
			}
		case string:
			n = len(y)
		case *SymStr:
			n = len(y.b)
		case *Agg:
			n = len(y.f)
		}
		if int64(idx.u) < 0 || int64(idx.u) >= int64(n) {
			ms.abort()
		}
		p.exec(fr, in)
	case iLookup:
		if in.t2.kind != KString {
			ms.abort()
		}
		idx := p.get(fr, in.b)
		if idx.r != nil || int64(idx.u) < 0 || int64(idx.u) >= int64(strLen(p.get(fr, in.a))) {
			ms.abort()
		}
		p.exec(fr, in)
	case iCall:
		switch in.n {
		case 1:
			if in.bi == "len" {
				p.exec(fr, in)
				return
			}
			ms.abort()
		case 0:
			fn := in.fn
			if fn.intr != nil {
				if pureIntr[fn.name] {
					p.exec(fr, in)
					return
				}
				ms.abort()
			}
			args := make([]V, len(in.args))
			for i, a := range in.args {
				args[i] = p.get(fr, a)
			}
			fr.regs[in.dst] = ms.callPure(fn, args)
		default:
			ms.abort()
		}
	default:
		ms.abort()
	}
}

var pureIntr = map[string]bool{}

// callPure evaluates a call whose body is pure, merging all its paths.
func (ms *mergeState) callPure(fn *Fn, args []V) V {
	p := ms.p
	fn.ensure()
	if fn.blocks == nil || fn.hasDefer || len(fn.blocks) > 40 {
		ms.abort()
	}
	ms.depth++
	if ms.depth > 6 {
		ms.abort()
	}
	if fn.id < len(p.w.fnSeen) {
		p.w.fnSeen[fn.id] = true
	} else {
		p.w.growSeen(fn.id)
	}
	regs := make([]V, fn.nregs)
	copy(regs, args)
	fr := &Frame{fn: fn, regs: regs, caller: p.fr}
	old := p.fr
	p.fr = fr
	var leaves []mleaf
	ms.region(fr, fn.blocks[0], nil, nil, p.w.ctx.True, &leaves)
	p.fr = old
	ms.depth--
	if len(leaves) == 0 {
		ms.abort()
	}
	v, ok := p.joinRet(leaves)
	if !ok {
		ms.abort()
	}
	return v
}
