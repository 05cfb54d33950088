package main

// Translation of go/ssa functions into a compact register form.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Opd struct {
	k uint8 // 0 reg, 1 const, 2 global
	i int32
}

type IOp uint8

const (
	iNop IOp = iota
	iAlloc
	iBinOp
	iUnOp
	iLoad
	iCall
	iChangeType
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSlice
	iSliceToArrPtr
	iStore
	iTypeAssert
	iUnsupported
)

type Ins struct {
	op      IOp
	dst     int32
	a, b, c Opd
	d       Opd
	args    []Opd
	t, t2   *TI
	n       int
	tok     token.Token
	fn      *Fn
	bi      string
	method  *types.Func
	commaOk bool
	hasB    bool
	hasC    bool
	hasD    bool
	src     ssa.Instruction
	id      int32
}

type Phi struct {
	dst   int32
	edges []Opd
	t     *TI
}

type Blk struct {
	idx   int
	phis  []Phi
	ins   []Ins
	succs []*Blk
	preds []int
	pidx  map[int]int
	ipdom *Blk // nil = function exit
	sb    *ssa.BasicBlock
}

type Fn struct {
	ssa       *ssa.Function
	name      string
	short     string
	id        int
	once      sync.Once
	nregs     int
	nparams   int
	nfree     int
	blocks    []*Blk
	recov     *Blk
	hasDefer  bool
	consts    []V
	intr      func(p *Path, fn *Fn, args []V) V
	resT      *TI
	inModule  bool
	nsyn      int
	nativeTag string
}

var (
	fnMu   sync.Mutex
	fnTab  = map[*ssa.Function]*Fn{}
	fnList []*Fn
	gMu    sync.Mutex
	gIdx   = map[*ssa.Global]int32{}
	gList  []*ssa.Global
	insN   int32
)

func globalIndex(g *ssa.Global) int32 {
	gMu.Lock()
	defer gMu.Unlock()
	if i, ok := gIdx[g]; ok {
		return i
	}
	i := int32(len(gList))
	gIdx[g] = i
	gList = append(gList, g)
	return i
}

func numGlobals() int {
	gMu.Lock()
	defer gMu.Unlock()
	return len(gList)
}

func globalAt(i int32) *ssa.Global {
	gMu.Lock()
	defer gMu.Unlock()
	return gList[i]
}

var modulePrefix = "github.com/gabivlj/candice/"

func getFn(f *ssa.Function) *Fn {
	fnMu.Lock()
	fn := fnTab[f]
	if fn == nil {
		fn = &Fn{ssa: f, name: f.String(), id: len(fnList)}
		fn.short = f.Name()
		fn.resT = TypeInfo(f.Signature.Results())
		fnTab[f] = fn
		fnList = append(fnList, fn)
		if f.Pkg != nil {
			pp := f.Pkg.Pkg.Path() + "/"
			fn.inModule = strings.HasPrefix(pp, modulePrefix) && !strings.Contains(pp, "/verif")
		} else if o := f.Origin(); o != nil && o.Pkg != nil {
			pp := o.Pkg.Pkg.Path() + "/"
			fn.inModule = strings.HasPrefix(pp, modulePrefix) && !strings.Contains(pp, "/verif")
		}
		key := fn.name
		if o := f.Origin(); o != nil {
			key = o.String()
		}
		if f.Synthetic == "package initializer" && f.Pkg != nil && !initAllowed(f.Pkg.Pkg.Path()) {
			fn.intr = noop
		} else if in, ok := intrinsics[key]; ok {
			fn.intr = in
		} else if in, ok := intrinsics[fn.name]; ok {
			fn.intr = in
		} else if f.Pkg != nil && f.Name() != "init" {
			if in, ok := pkgIntrinsics[f.Pkg.Pkg.Path()]; ok {
				fn.intr = in
			}
		}
	}
	fnMu.Unlock()
	return fn
}

var stdInitSet = map[string]bool{}

func initAllowed(path string) bool {
	if path == modulePrefix+"pkg/logger" || path == modulePrefix+"pkg/random" {
		return false
	}
	return stdInitSet[path] || strings.HasPrefix(path, modulePrefix) || strings.HasPrefix(path, "github.com/llir/llvm") || strings.HasPrefix(path, "github.com/mewmew/float") || path == "github.com/pkg/errors"
}

func (fn *Fn) ensure() *Fn {
	fn.once.Do(func() { compileFn(fn) })
	return fn
}

func constV(c *ssa.Const) V {
	ti := TypeInfo(c.Type())
	if c.Value == nil {
		return zero(ti)
	}
	switch ti.kind {
	case KBool:
		return V{u: b2u(constant.BoolVal(c.Value))}
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return V{u: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(v)
		return V{u: u & mask(ti.w)}
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		if ti.w == SF32 {
			return V{u: uint64(math.Float32bits(float32(f)))}
		}
		return V{u: math.Float64bits(f)}
	case KString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	}
	return V{}
}

func compileFn(fn *Fn) {
	f := fn.ssa
	fn.nparams = len(f.Params)
	fn.nfree = len(f.FreeVars)
	fn.resT = TypeInfo(f.Signature.Results())
	if f.Blocks == nil {
		return
	}
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range f.Params {
		regs[p] = n
		n++
	}
	for _, p := range f.FreeVars {
		regs[p] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fn.nregs = int(n)
	consts := map[*ssa.Const]int32{}
	fnConst := map[ssa.Value]int32{}
	opd := func(v ssa.Value) Opd {
		switch x := v.(type) {
		case *ssa.Const:
			if i, ok := consts[x]; ok {
				return Opd{1, i}
			}
			i := int32(len(fn.consts))
			fn.consts = append(fn.consts, constV(x))
			consts[x] = i
			return Opd{1, i}
		case *ssa.Global:
			return Opd{2, globalIndex(x)}
		case *ssa.Function:
			if i, ok := fnConst[x]; ok {
				return Opd{1, i}
			}
			i := int32(len(fn.consts))
			fn.consts = append(fn.consts, V{r: &Closure{fn: getFn(x)}})
			fnConst[x] = i
			return Opd{1, i}
		case *ssa.Builtin:
			i := int32(len(fn.consts))
			fn.consts = append(fn.consts, V{r: &Closure{bi: x.Name()}})
			return Opd{1, i}
		}
		r, ok := regs[v]
		if !ok {
			panic("no register for " + v.String())
		}
		return Opd{0, r}
	}
	blks := make([]*Blk, len(f.Blocks))
	for i := range f.Blocks {
		blks[i] = &Blk{idx: i, pidx: map[int]int{}, sb: fn.ssa.Blocks[i]}
	}
	callIns := func(c *ssa.CallCommon, in *Ins) {
		if c.IsInvoke() {
			in.a = opd(c.Value)
			in.method = c.Method
			in.n = 2
		} else if b, ok := c.Value.(*ssa.Builtin); ok {
			in.bi = b.Name()
			in.n = 1
			if len(c.Args) > 0 {
				in.t2 = TypeInfo(c.Args[0].Type())
			}
		} else if sf := c.StaticCallee(); sf != nil {
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				in.a = opd(mc)
				in.n = 3
			} else {
				in.n = 0
				in.fn = getFn(sf)
			}
		} else {
			in.a = opd(c.Value)
			in.n = 3
		}
		for _, a := range c.Args {
			in.args = append(in.args, opd(a))
		}
	}
	for bi, b := range f.Blocks {
		blk := blks[bi]
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, blks[s.Index])
		}
		for pi, pr := range b.Preds {
			blk.preds = append(blk.preds, pr.Index)
			blk.pidx[pr.Index] = pi
		}
		for _, instr := range b.Instrs {
			in := Ins{dst: -1, src: instr}
			if v, ok := instr.(ssa.Value); ok {
				in.dst = regs[v]
				in.t = TypeInfo(v.Type())
			}
			switch x := instr.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				ph := Phi{dst: in.dst, t: in.t}
				for _, e := range x.Edges {
					ph.edges = append(ph.edges, opd(e))
				}
				blk.phis = append(blk.phis, ph)
				continue
			case *ssa.Alloc:
				in.op = iAlloc
				in.t2 = in.t.elem
			case *ssa.BinOp:
				in.op = iBinOp
				in.a, in.b, in.tok = opd(x.X), opd(x.Y), x.Op
				in.t2 = TypeInfo(x.X.Type())
				if x.Op == token.SHL || x.Op == token.SHR {
					yt := TypeInfo(x.Y.Type())
					in.hasC = yt.signed
					in.n = int(yt.w)
				}
			case *ssa.UnOp:
				in.a, in.tok = opd(x.X), x.Op
				in.t2 = TypeInfo(x.X.Type())
				in.commaOk = x.CommaOk
				in.op = iUnOp
				if x.Op == token.MUL {
					in.op = iLoad
				}
				if x.Op == token.ARROW {
					in.op = iUnsupported
				}
			case *ssa.Call:
				in.op = iCall
				callIns(&x.Call, &in)
			case *ssa.ChangeInterface:
				in.op = iChangeType
				in.a = opd(x.X)
			case *ssa.ChangeType:
				in.op = iChangeType
				in.a = opd(x.X)
			case *ssa.Convert:
				in.op = iConvert
				in.a = opd(x.X)
				in.t2 = TypeInfo(x.X.Type())
			case *ssa.MultiConvert:
				in.op = iConvert
				in.a = opd(x.X)
				in.t2 = TypeInfo(x.X.Type())
			case *ssa.Defer:
				in.op = iDefer
				callIns(&x.Call, &in)
				fn.hasDefer = true
			case *ssa.Go:
				in.op = iGo
				callIns(&x.Call, &in)
			case *ssa.Extract:
				in.op = iExtract
				in.a, in.n = opd(x.Tuple), x.Index
			case *ssa.Field:
				in.op = iField
				in.a, in.n = opd(x.X), x.Field
			case *ssa.FieldAddr:
				in.op = iFieldAddr
				in.a, in.n = opd(x.X), x.Field
			case *ssa.If:
				in.op = iIf
				in.a = opd(x.Cond)
			case *ssa.Index:
				in.op = iIndex
				in.a, in.b = opd(x.X), opd(x.Index)
				in.t2 = TypeInfo(x.X.Type())
			case *ssa.IndexAddr:
				in.op = iIndexAddr
				in.a, in.b = opd(x.X), opd(x.Index)
				in.t2 = TypeInfo(x.X.Type())
				in.hasC = TypeInfo(x.Index.Type()).signed
			case *ssa.Jump:
				in.op = iJump
			case *ssa.Lookup:
				in.op = iLookup
				in.a, in.b = opd(x.X), opd(x.Index)
				in.t2 = TypeInfo(x.X.Type())
				in.commaOk = x.CommaOk
			case *ssa.MakeClosure:
				in.op = iMakeClosure
				in.a = opd(x.Fn)
				for _, bd := range x.Bindings {
					in.args = append(in.args, opd(bd))
				}
			case *ssa.MakeInterface:
				in.op = iMakeInterface
				in.a = opd(x.X)
				in.t2 = TypeInfo(x.X.Type())
			case *ssa.MakeMap:
				in.op = iMakeMap
			case *ssa.MakeSlice:
				in.op = iMakeSlice
				in.a, in.b = opd(x.Len), opd(x.Cap)
			case *ssa.MapUpdate:
				in.op = iMapUpdate
				in.a, in.b, in.c = opd(x.Map), opd(x.Key), opd(x.Value)
				in.t2 = TypeInfo(x.Map.Type())
			case *ssa.Next:
				in.op = iNext
				in.a = opd(x.Iter)
				in.commaOk = x.IsString
			case *ssa.Panic:
				in.op = iPanic
				in.a = opd(x.X)
			case *ssa.Range:
				in.op = iRange
				in.a = opd(x.X)
				in.t2 = TypeInfo(x.X.Type())
			case *ssa.Return:
				in.op = iReturn
				for _, r := range x.Results {
					in.args = append(in.args, opd(r))
				}
			case *ssa.RunDefers:
				in.op = iRunDefers
			case *ssa.Slice:
				in.op = iSlice
				in.a = opd(x.X)
				in.t2 = TypeInfo(x.X.Type())
				if x.Low != nil {
					in.hasB, in.b = true, opd(x.Low)
				}
				if x.High != nil {
					in.hasC, in.c = true, opd(x.High)
				}
				if x.Max != nil {
					in.hasD, in.d = true, opd(x.Max)
				}
			case *ssa.SliceToArrayPointer:
				in.op = iSliceToArrPtr
				in.a = opd(x.X)
			case *ssa.Store:
				in.op = iStore
				in.a, in.b = opd(x.Addr), opd(x.Val)
			case *ssa.TypeAssert:
				in.op = iTypeAssert
				in.a = opd(x.X)
				in.commaOk = x.CommaOk
				in.t2 = TypeInfo(x.AssertedType)
			default:
				in.op = iUnsupported
				in.bi = fmt.Sprintf("%T", instr)
			}
			in.src = instr
			fnMu.Lock()
			insN++
			in.id = insN
			fnMu.Unlock()
			blk.ins = append(blk.ins, in)
		}
	}
	fn.blocks = blks
	if f.Recover != nil {
		fn.recov = blks[f.Recover.Index]
	}
	computeIPDom(blks)
}

// computeIPDom sets immediate post-dominators (nil = virtual exit).
func computeIPDom(blks []*Blk) {
	n := len(blks)
	// pdom sets as bitsets, iterative; functions are small.
	full := make([]uint64, (n+63)/64)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n)
	for i, b := range blks {
		pd[i] = append([]uint64(nil), full...)
		if len(b.succs) == 0 {
			pd[i] = make([]uint64, len(full))
			pd[i][i/64] |= 1 << uint(i%64)
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := blks[i]
			if len(b.succs) == 0 {
				continue
			}
			nw := append([]uint64(nil), full...)
			for _, s := range b.succs {
				for k := range nw {
					nw[k] &= pd[s.idx][k]
				}
			}
			nw[i/64] |= 1 << uint(i%64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	cnt := func(s []uint64) int {
		c := 0
		for i := 0; i < n; i++ {
			if s[i/64]>>uint(i%64)&1 == 1 {
				c++
			}
		}
		return c
	}
	counts := make([]int, n)
	for i := range blks {
		counts[i] = cnt(pd[i])
	}
	for i, b := range blks {
		best := -1
		for j := 0; j < n; j++ {
			if j != i && pd[i][j/64]>>uint(j%64)&1 == 1 {
				if best < 0 || counts[j] > counts[best] {
					best = j
				}
			}
		}
		if best >= 0 {
			b.ipdom = blks[best]
		}
	}
}
