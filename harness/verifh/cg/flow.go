package cg

import (
	. "github.com/gabivlj/candice/internals/verifh/lang"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// flow generates statement trees; every block and every statement is followed
// by an observation, so the whole path taken is observed.
type flow struct {
	b     *bld
	n     int // statements left
	tag   uint64
	kinds []int
	conds int
	fn    int // nesting of block expressions
}

const (
	sIf = iota
	sIfElse
	sElseIf
	sElseIfElse
	sWhile
	sFor
	sLoop
	sSwitch
	sSwitchDef
	sBreak
	sContinue
	sReturn
	sBlock
	sBlockExpr
	sNested
)

func (f *flow) ob() *S {
	f.tag++
	return Ob(Lit(f.tag, I32))
}

func (f *flow) cond() *E {
	f.conds++
	switch f.conds % 4 {
	case 1:
		return V("a", I1)
	case 2:
		return Bin(">", V("x", I32), Lit(2, I32))
	case 3:
		return V("b", I1)
	}
	return Un("!", V("a", I1))
}

func (f *flow) block(loop int) []*S {
	out := []*S{f.ob()}
	for f.n > 0 {
		k := rt.Choose("statement", len(f.kinds)+1)
		if k == 0 {
			break
		}
		f.n--
		out = append(out, f.stmt(f.kinds[k-1], loop)...)
		out = append(out, f.ob())
	}
	return out
}

func (f *flow) stmt(k, loop int) []*S {
	switch k {
	case sIf:
		return []*S{If(f.cond(), f.block(loop), nil)}
	case sIfElse:
		c := f.cond()
		t := f.block(loop)
		return []*S{If(c, t, f.block(loop))}
	case sElseIf, sElseIfElse:
		c, d := f.cond(), f.cond()
		t := f.block(loop)
		u := f.block(loop)
		var e []*S
		if k == sElseIfElse {
			e = f.block(loop)
		}
		return []*S{IfChain([]*E{c, d}, [][]*S{t, u}, e)}
	case sWhile:
		n := f.b.fresh("n")
		return []*S{Decl(n, Lit(0, I32)), While(Bin("<", V(n, I32), Lit(2, I32)), append([]*S{Ex(Un("++", V(n, I32)))}, f.block(loop+1)...)...)}
	case sFor:
		n := f.b.fresh("i")
		return []*S{For(Decl(n, Lit(0, I32)), Bin("<", V(n, I32), Lit(2, I32)), Ex(Un("++", V(n, I32))), append([]*S{Ob(V(n, I32))}, f.block(loop+1)...)...)}
	case sLoop:
		n := f.b.fresh("n")
		return []*S{Decl(n, Lit(0, I32)), Loop(append([]*S{Ex(Un("++", V(n, I32))), If(Bin(">", V(n, I32), Lit(2, I32)), []*S{Break()}, nil)}, f.block(loop+1)...)...)}
	case sSwitch, sSwitchDef:
		t := f.block(loop)
		u := f.block(loop)
		var e []*S
		if k == sSwitchDef {
			e = f.block(loop)
		}
		return []*S{Switch(V("x", I32), []*E{Lit(1, I32), Lit(5, I32)}, [][]*S{t, u}, e)}
	case sBreak, sContinue:
		if loop == 0 {
			rt.Assume(false)
		}
		if k == sBreak {
			return []*S{Break()}
		}
		return []*S{Continue()}
	case sReturn:
		f.tag++
		return []*S{Ret(Lit(f.tag, I32))}
	case sBlock:
		return []*S{Blk(f.block(loop)...)}
	case sBlockExpr:
		f.tag++
		body := f.block(0)
		return []*S{Ob(BlockE(I32, append(body, Ret(Lit(f.tag, I32)))...))}
	}
	panic("stmt")
}

func runFlow(n int, kinds []int) {
	b := newB(I32, Field{"a", I1}, Field{"b", I1}, Field{"x", I32})
	f := &flow{b: b, n: n, kinds: kinds}
	b.add(f.block(0)...)
	b.add(Ret(Lit(0, I32)))
	b.checkSym()
}

// H_C14_all: all trees of up to 3 statements (4 in the thorough tier) of every
// kind, for all values of the conditions.
func H_C14_all() {
	n := 3
	if rt.Tier() == 1 {
		n = 4
	}
	runFlow(n, []int{sIf, sIfElse, sElseIf, sElseIfElse, sWhile, sFor, sLoop, sSwitch, sSwitchDef, sBreak, sContinue, sReturn, sBlock, sBlockExpr})
}

// H_C14_loops: deeper trees of loops, conditions, break and continue.
func H_C14_loops() {
	n := 4
	if rt.Tier() == 1 {
		n = 5
	}
	runFlow(n, []int{sIfElse, sFor, sLoop, sBreak, sContinue})
}

// H_C14_branches: deeper trees of branches and returns.
func H_C14_branches() {
	n := 4
	if rt.Tier() == 1 {
		n = 5
	}
	runFlow(n, []int{sElseIfElse, sSwitchDef, sReturn})
}

// H_C14_trips: loops with arbitrary bounds: start, end and step are symbolic
// (at most 8 iterations), and one iteration is skipped or ends the loop.
func H_C14_trips() {
	t := Ints[rt.Choose("type", len(Ints))]
	op := []string{"<", "<=", ">", "!="}[rt.Choose("op", 4)]
	step := rt.Choose("step", 3)
	b := newB(t, params(t, "s", "e", "k")...)
	kind := rt.Choose("loop", 3)
	i := V("i", t)
	var upd *S
	switch step {
	case 0:
		if op == ">" {
			upd = Ex(Un("--", i))
		} else {
			upd = Ex(Un("++", i))
		}
	case 1:
		if op == ">" {
			upd = Assign(i, Bin("-", i, Lit(2, t)))
		} else {
			upd = Assign(i, Bin("+", i, Lit(2, t)))
		}
	case 2:
		upd = Assign(i, Bin("+", Bin("*", i, Lit(3, t)), Lit(1, t)))
	}
	c := Bin(op, i, V("e", t))
	skip := []*S{If(Bin("==", i, V("k", t)), [][]*S{{Break()}, {Continue()}, {Ret(i)}}[rt.Choose("exit", 3)], nil)}
	old := MaxLoop
	MaxLoop = 3
	if rt.Tier() == 1 {
		MaxLoop = 8
	}
	switch kind {
	case 0:
		b.add(Decl("z", zeroOf(t)), For(Decl("i", V("s", t)), c, upd, append(skip, Ob(i), Assign(V("z", t), Bin("+", V("z", t), i)))...), Ret(V("z", t)))
	case 1:
		b.add(Decl("z", zeroOf(t)), Decl("i", V("s", t)), While(c, append([]*S{Ob(i), upd, Assign(V("z", t), Bin("+", V("z", t), i))}, skip...)...), Ret(V("z", t)))
	case 2:
		b.add(Decl("z", zeroOf(t)), Decl("i", V("s", t)), Loop(append([]*S{Ob(i), If(c, []*S{upd}, []*S{Break()}), Assign(V("z", t), Bin("+", V("z", t), i))}, skip...)...), Ret(V("z", t)))
	}
	b.checkSym()
	MaxLoop = old
}

// H_C14_switch: a switch on every integer type and kind of place picks the
// case equal to the value, the default otherwise.
func H_C14_switch() {
	t := append([]*Ty{I1}, Ints...)[rt.Choose("type", len(Ints)+1)]
	k := chooseForm("form")
	n := rt.Choose("cases", 4)
	def := rt.Choose("default", 2) == 1
	b := newB(I32, params(t, "a")...)
	vals := []uint64{0, 1, 3, 120}
	if t == I1 && n > 2 || n == 0 && !def {
		rt.Assume(false)
	}
	var lits []*E
	var bs [][]*S
	for i := 0; i < n; i++ {
		if i == 2 && t.W >= 32 {
			b.p.Globals = append(b.p.Globals, Const("KC", Lit(70003, t)))
			lits = append(lits, &E{Op: "cst", S: "KC", N: 70003, T: t})
			bs = append(bs, []*S{Ob(Lit(uint64(10+i), I32))})
			continue
		}
		lits = append(lits, Lit(vals[i], t))
		if i == 1 {
			bs = append(bs, []*S{Ret(Lit(uint64(10+i), I32))})
			continue
		}
		bs = append(bs, []*S{Ob(Lit(uint64(10+i), I32))})
	}
	var d []*S
	if def {
		d = []*S{Ob(Lit(99, I32))}
	}
	b.add(Switch(b.form(k, V("a", t)), lits, bs, d))
	b.add(Ret(Lit(7, I32)))
	b.checkSym()
}

// H_C14_chain: if/else-if chains of up to 5 branches run the first branch whose
// condition holds, or the else; conditions are evaluated up to that one.
func H_C14_chain() {
	t := []*Ty{I32, U8, F32}[rt.Choose("type", 3)]
	n := 1 + rt.Choose("branches", 5)
	def := rt.Choose("else", 2) == 1
	ret := rt.Choose("returning branch", n+1)
	side := rt.Choose("observed conditions", 2) == 1
	nested := rt.Choose("in a loop", 2) == 1
	b := newB(I32, params(t, "a")...)
	var cs []*E
	var bs [][]*S
	for i := 0; i < n; i++ {
		var v *E
		if t.IsFloat() {
			v = FLit([]string{"0.0", "1.5", "2.5", "3.5", "4.5"}[i], []float64{0, 1.5, 2.5, 3.5, 4.5}[i], t)
		} else {
			v = Lit(uint64(i*i), t)
		}
		c := Bin("==", V("a", t), v)
		if side {
			c = Bin("==", b.leaf("a", t, uint64(70+i)), v)
		}
		cs = append(cs, c)
		body := []*S{Ob(Lit(uint64(10+i), I32))}
		if i == ret {
			body = append(body, Ret(Lit(uint64(20+i), I32)))
		}
		bs = append(bs, body)
	}
	var d []*S
	if def {
		d = []*S{Ob(Lit(99, I32))}
	}
	s := []*S{IfChain(cs, bs, d), Ob(Lit(98, I32))}
	if nested {
		s = []*S{For(Decl("n", Lit(0, I32)), Bin("<", V("n", I32), Lit(2, I32)), Ex(Un("++", V("n", I32))), s...)}
	}
	b.add(s...)
	b.add(Ret(Lit(0, I32)))
	b.checkSym()
}
