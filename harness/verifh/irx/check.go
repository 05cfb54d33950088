package irx

import (
	"github.com/llir/llvm/ir"
	"github.com/llir/llvm/ir/constant"
	"github.com/llir/llvm/ir/types"
	"github.com/llir/llvm/ir/value"
)

// Check reports the first reason LLVM would reject the printed module, or "".
// The rules are those of the textual IR parser and of the verifier for the
// instructions the compiler emits, on typed pointers.
func Check(mod *ir.Module) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(*Trap); ok {
				msg = t.Msg
				return
			}
			panic(r)
		}
	}()
	names := map[string]bool{}
	for _, g := range mod.Globals {
		n := g.Name()
		if n != "" {
			if names[n] {
				return "duplicate global name " + n
			}
			names[n] = true
		}
		if g.Init != nil {
			if !teq(g.Init.Type(), g.ContentType) {
				return "global initialiser type"
			}
			if m := constOK(g.Init); m != "" {
				return m
			}
		}
		if !sized(g.ContentType) {
			return "global of unsized type"
		}
	}
	for _, f := range mod.Funcs {
		n := f.Name()
		if names[n] {
			return "duplicate global name " + n
		}
		names[n] = true
	}
	tn := map[string]bool{}
	for _, t := range mod.TypeDefs {
		n := t.Name()
		if tn[n] {
			return "duplicate type name " + n
		}
		tn[n] = true
		if st, ok := t.(*types.StructType); ok {
			if !finite(st, nil) {
				return "recursive type of infinite size"
			}
		}
	}
	for _, f := range mod.Funcs {
		if m := checkFunc(f); m != "" {
			return m + " in " + f.Name()
		}
	}
	return ""
}

func finite(t types.Type, seen []types.Type) bool {
	switch t := t.(type) {
	case *types.StructType:
		for _, s := range seen {
			if s == types.Type(t) {
				return false
			}
		}
		for _, f := range t.Fields {
			if !finite(f, append(seen[:len(seen):len(seen)], t)) {
				return false
			}
		}
	case *types.ArrayType:
		return finite(t.ElemType, seen)
	}
	return true
}

func sized(t types.Type) bool {
	switch t := t.(type) {
	case *types.IntType, *types.FloatType, *types.PointerType:
		return true
	case *types.ArrayType:
		return sized(t.ElemType)
	case *types.StructType:
		if t.Opaque {
			return false
		}
		for _, f := range t.Fields {
			if !sized(f) {
				return false
			}
		}
		return true
	}
	return false
}

func first(t types.Type) bool { return sized(t) }

// defsite is where a local value is defined.
type defsite struct {
	b int // block index, -1 for parameters
	i int
}

type checker struct {
	f    *ir.Func
	defs map[value.Value]defsite
	idom [][]bool // dom[b][d]: d dominates b
	reac []bool
}

func checkFunc(f *ir.Func) string {
	if len(f.Blocks) == 0 {
		return ""
	}
	if !types.IsVoid(f.Sig.RetType) && !first(f.Sig.RetType) {
		return "invalid return type"
	}
	c := &checker{f: f, defs: map[value.Value]defsite{}}
	names := map[string]bool{}
	for _, p := range f.Params {
		if n := p.LocalName; n != "" {
			if names[n] {
				return "duplicate local name " + n
			}
			names[n] = true
		}
		if !first(p.Type()) {
			return "parameter of invalid type"
		}
		c.defs[p] = defsite{-1, 0}
	}
	index := map[*ir.Block]int{}
	for bi, b := range f.Blocks {
		if _, dup := index[b]; dup {
			return "block listed twice"
		}
		index[b] = bi
		if n := b.LocalName; n != "" {
			if names[n] {
				return "duplicate local name " + n
			}
			names[n] = true
		}
		if b.Term == nil {
			return "block without terminator"
		}
		for ii, in := range b.Insts {
			if v, ok := in.(value.Value); ok {
				if n, ok := in.(value.Named); ok {
					if nm := localName(n); nm != "" {
						if names[nm] {
							return "duplicate local name " + nm
						}
						names[nm] = true
					}
				}
				if _, dup := c.defs[v]; dup {
					return "instruction listed twice"
				}
				c.defs[v] = defsite{bi, ii}
			}
		}
	}
	succ := make([][]int, len(f.Blocks))
	for bi, b := range f.Blocks {
		for _, s := range targets(b.Term) {
			k, ok := index[s]
			if !ok {
				return "branch to a block outside the function"
			}
			if k == 0 {
				return "entry block has predecessors"
			}
			succ[bi] = append(succ[bi], k)
		}
	}
	c.dominators(succ)
	for bi, b := range f.Blocks {
		for ii, in := range b.Insts {
			if m := c.inst(in, bi, ii); m != "" {
				return m
			}
		}
		if m := c.term(b, bi, len(b.Insts)); m != "" {
			return m
		}
	}
	return ""
}

func localName(n value.Named) string {
	switch i := n.(type) {
	case *ir.InstCall:
		return i.LocalName
	case *ir.InstAlloca:
		return i.LocalName
	case *ir.InstLoad:
		return i.LocalName
	}
	return ""
}

func targets(t ir.Terminator) []*ir.Block {
	switch t := t.(type) {
	case *ir.TermBr:
		return []*ir.Block{t.Target.(*ir.Block)}
	case *ir.TermCondBr:
		return []*ir.Block{t.TargetTrue.(*ir.Block), t.TargetFalse.(*ir.Block)}
	case *ir.TermSwitch:
		r := []*ir.Block{t.TargetDefault.(*ir.Block)}
		for _, c := range t.Cases {
			r = append(r, c.Target.(*ir.Block))
		}
		return r
	}
	return nil
}

func (c *checker) dominators(succ [][]int) {
	n := len(succ)
	pred := make([][]int, n)
	for i, s := range succ {
		for _, k := range s {
			pred[k] = append(pred[k], i)
		}
	}
	c.reac = make([]bool, n)
	stack := []int{0}
	c.reac[0] = true
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, s := range succ[b] {
			if !c.reac[s] {
				c.reac[s] = true
				stack = append(stack, s)
			}
		}
	}
	c.idom = make([][]bool, n)
	for i := range c.idom {
		c.idom[i] = make([]bool, n)
		for k := range c.idom[i] {
			c.idom[i][k] = i != 0 || k == 0
		}
	}
	for changed := true; changed; {
		changed = false
		for b := 1; b < n; b++ {
			if !c.reac[b] {
				continue
			}
			for d := 0; d < n; d++ {
				if d == b || !c.idom[b][d] {
					continue
				}
				for _, p := range pred[b] {
					if c.reac[p] && !c.idom[p][d] {
						c.idom[b][d] = false
						changed = true
						break
					}
				}
			}
		}
	}
}

// use checks a local operand is defined before this point on every path.
func (c *checker) use(v value.Value, b, i int) string {
	if v == nil {
		return "nil operand"
	}
	if a, ok := v.(*ir.Arg); ok {
		v = a.Value
	}
	if k, ok := v.(constant.Constant); ok {
		return constOK(k)
	}
	if a, ok := v.(*ir.InlineAsm); ok {
		_ = a
		return ""
	}
	d, ok := c.defs[v]
	if !ok {
		return "operand is not defined in this function"
	}
	if d.b < 0 || !c.reac[b] {
		return ""
	}
	if d.b == b {
		if d.i >= i {
			return "operand used before its definition"
		}
		return ""
	}
	if !c.idom[b][d.b] {
		return "definition does not dominate a use"
	}
	return ""
}

func constOK(k constant.Constant) string {
	switch e := k.(type) {
	case *constant.Int:
		if e.Typ.BitSize == 1 {
			if x := e.X.Int64(); x != 0 && x != 1 {
				return "i1 constant out of range"
			}
		}
	case *constant.ExprAdd:
		return sameC(e.X, e.Y)
	case *constant.ExprSub:
		return sameC(e.X, e.Y)
	case *constant.ExprMul:
		return sameC(e.X, e.Y)
	case *constant.ExprAnd:
		return sameC(e.X, e.Y)
	case *constant.ExprOr:
		return sameC(e.X, e.Y)
	case *constant.ExprXor:
		return sameC(e.X, e.Y)
	case *constant.ExprShl:
		return sameC(e.X, e.Y)
	case *constant.ExprLShr:
		return sameC(e.X, e.Y)
	case *constant.ExprTrunc:
		return castOK("trunc", e.From.Type(), e.To)
	case *constant.ExprZExt:
		return castOK("zext", e.From.Type(), e.To)
	case *constant.ExprSExt:
		return castOK("sext", e.From.Type(), e.To)
	case *constant.ExprBitCast:
		return castOK("bitcast", e.From.Type(), e.To)
	}
	return ""
}

func sameC(x, y constant.Constant) string {
	if !teq(x.Type(), y.Type()) {
		return "constant expression operands differ"
	}
	if m := constOK(x); m != "" {
		return m
	}
	return constOK(y)
}

// same checks the second operand prints validly under the first one's type.
func (c *checker) same(x, y value.Value, b, i int) string {
	if m := c.use(x, b, i); m != "" {
		return m
	}
	if m := c.use(y, b, i); m != "" {
		return m
	}
	t := x.Type()
	if k, ok := y.(*constant.Int); ok {
		it, isInt := t.(*types.IntType)
		if !isInt {
			return "integer constant against " + t.String()
		}
		if k.Typ.BitSize == 1 && it.BitSize != 1 {
			return "i1 constant against " + t.String()
		}
		if it.BitSize == 1 && k.Typ.BitSize != 1 {
			if v := k.X.Int64(); v != 0 && v != 1 {
				return "constant out of range for i1"
			}
		}
		return ""
	}
	if _, ok := y.(*constant.Float); ok {
		if !teq(t, y.Type()) {
			return "floating constant against " + t.String()
		}
		return ""
	}
	if !teq(t, y.Type()) {
		return "operand types differ: " + t.String() + " and " + y.Type().String()
	}
	return ""
}

func castOK(op string, from, to types.Type) string {
	fi, fii := from.(*types.IntType)
	ti, tii := to.(*types.IntType)
	ff, fff := from.(*types.FloatType)
	tf, tff := to.(*types.FloatType)
	fp := types.IsPointer(from)
	tp := types.IsPointer(to)
	ok := false
	switch op {
	case "trunc":
		ok = fii && tii && fi.BitSize > ti.BitSize
	case "zext", "sext":
		ok = fii && tii && fi.BitSize < ti.BitSize
	case "fptrunc":
		ok = fff && tff && ff.Kind == types.FloatKindDouble && tf.Kind == types.FloatKindFloat
	case "fpext":
		ok = fff && tff && tf.Kind == types.FloatKindDouble && ff.Kind == types.FloatKindFloat
	case "fptosi", "fptoui":
		ok = fff && tii
	case "sitofp", "uitofp":
		ok = fii && tff
	case "ptrtoint":
		ok = fp && tii
	case "inttoptr":
		ok = fii && tp
	case "bitcast":
		switch {
		case fp && tp:
			ok = true
		case fp != tp:
		case first(from) && first(to):
			_, fs := from.(*types.StructType)
			_, fa := from.(*types.ArrayType)
			_, ts := to.(*types.StructType)
			_, ta := to.(*types.ArrayType)
			if fs || fa || ts || ta {
				ok = teq(from, to)
			} else {
				ok = bits(from) == bits(to)
			}
		}
	}
	if !ok {
		return "invalid " + op + " from " + from.String() + " to " + to.String()
	}
	return ""
}

func bits(t types.Type) uint64 {
	switch t := t.(type) {
	case *types.IntType:
		return t.BitSize
	case *types.FloatType:
		if t.Kind == types.FloatKindDouble {
			return 64
		}
		return 32
	}
	return 0
}

func (c *checker) cast(op string, from value.Value, to types.Type, b, i int) string {
	if m := c.use(from, b, i); m != "" {
		return m
	}
	return castOK(op, from.Type(), to)
}

func (c *checker) ints(x, y value.Value, b, i int) string {
	if m := c.same(x, y, b, i); m != "" {
		return m
	}
	if !types.IsInt(x.Type()) {
		return "integer operation on " + x.Type().String()
	}
	return ""
}

func (c *checker) floats(x, y value.Value, b, i int) string {
	if m := c.same(x, y, b, i); m != "" {
		return m
	}
	if !types.IsFloat(x.Type()) {
		return "floating operation on " + x.Type().String()
	}
	return ""
}

func (c *checker) inst(in ir.Instruction, b, i int) string {
	switch x := in.(type) {
	case *ir.InstAlloca:
		if !sized(x.ElemType) {
			return "alloca of unsized type " + x.ElemType.String()
		}
	case *ir.InstLoad:
		if m := c.use(x.Src, b, i); m != "" {
			return m
		}
		pt, ok := x.Src.Type().(*types.PointerType)
		if !ok || !teq(pt.ElemType, x.ElemType) {
			return "load type mismatch"
		}
		if !first(x.ElemType) {
			return "load of unsized type " + x.ElemType.String()
		}
	case *ir.InstStore:
		if m := c.use(x.Src, b, i); m != "" {
			return m
		}
		if m := c.use(x.Dst, b, i); m != "" {
			return m
		}
		pt, ok := x.Dst.Type().(*types.PointerType)
		if !ok || !teq(pt.ElemType, x.Src.Type()) {
			return "store type mismatch: " + x.Src.Type().String() + " to " + x.Dst.Type().String()
		}
		if !first(x.Src.Type()) {
			return "store of invalid type"
		}
	case *ir.InstGetElementPtr:
		if m := c.use(x.Src, b, i); m != "" {
			return m
		}
		pt, ok := x.Src.Type().(*types.PointerType)
		if !ok || !teq(pt.ElemType, x.ElemType) {
			return "getelementptr type mismatch"
		}
		t := x.ElemType
		if !sized(t) {
			return "getelementptr over unsized type"
		}
		for k, ix := range x.Indices {
			if m := c.use(ix, b, i); m != "" {
				return m
			}
			if !types.IsInt(ix.Type()) {
				return "getelementptr index is " + ix.Type().String()
			}
			if k == 0 {
				continue
			}
			switch tt := t.(type) {
			case *types.StructType:
				ci, ok := ix.(*constant.Int)
				if !ok || ci.X.Sign() < 0 || ci.X.Int64() >= int64(len(tt.Fields)) {
					return "getelementptr struct index"
				}
				t = tt.Fields[ci.X.Int64()]
			case *types.ArrayType:
				t = tt.ElemType
			default:
				return "getelementptr into scalar"
			}
		}
	case *ir.InstAdd:
		return c.ints(x.X, x.Y, b, i)
	case *ir.InstSub:
		return c.ints(x.X, x.Y, b, i)
	case *ir.InstMul:
		return c.ints(x.X, x.Y, b, i)
	case *ir.InstSDiv:
		return c.ints(x.X, x.Y, b, i)
	case *ir.InstUDiv:
		return c.ints(x.X, x.Y, b, i)
	case *ir.InstSRem:
		return c.ints(x.X, x.Y, b, i)
	case *ir.InstURem:
		return c.ints(x.X, x.Y, b, i)
	case *ir.InstShl:
		return c.ints(x.X, x.Y, b, i)
	case *ir.InstLShr:
		return c.ints(x.X, x.Y, b, i)
	case *ir.InstAShr:
		return c.ints(x.X, x.Y, b, i)
	case *ir.InstAnd:
		return c.ints(x.X, x.Y, b, i)
	case *ir.InstOr:
		return c.ints(x.X, x.Y, b, i)
	case *ir.InstXor:
		return c.ints(x.X, x.Y, b, i)
	case *ir.InstFAdd:
		return c.floats(x.X, x.Y, b, i)
	case *ir.InstFSub:
		return c.floats(x.X, x.Y, b, i)
	case *ir.InstFMul:
		return c.floats(x.X, x.Y, b, i)
	case *ir.InstFDiv:
		return c.floats(x.X, x.Y, b, i)
	case *ir.InstFRem:
		return c.floats(x.X, x.Y, b, i)
	case *ir.InstFCmp:
		return c.floats(x.X, x.Y, b, i)
	case *ir.InstICmp:
		if m := c.same(x.X, x.Y, b, i); m != "" {
			return m
		}
		if !types.IsInt(x.X.Type()) && !types.IsPointer(x.X.Type()) {
			return "icmp on " + x.X.Type().String()
		}
	case *ir.InstTrunc:
		return c.cast("trunc", x.From, x.To, b, i)
	case *ir.InstZExt:
		return c.cast("zext", x.From, x.To, b, i)
	case *ir.InstSExt:
		return c.cast("sext", x.From, x.To, b, i)
	case *ir.InstFPTrunc:
		return c.cast("fptrunc", x.From, x.To, b, i)
	case *ir.InstFPExt:
		return c.cast("fpext", x.From, x.To, b, i)
	case *ir.InstFPToUI:
		return c.cast("fptoui", x.From, x.To, b, i)
	case *ir.InstFPToSI:
		return c.cast("fptosi", x.From, x.To, b, i)
	case *ir.InstUIToFP:
		return c.cast("uitofp", x.From, x.To, b, i)
	case *ir.InstSIToFP:
		return c.cast("sitofp", x.From, x.To, b, i)
	case *ir.InstPtrToInt:
		return c.cast("ptrtoint", x.From, x.To, b, i)
	case *ir.InstIntToPtr:
		return c.cast("inttoptr", x.From, x.To, b, i)
	case *ir.InstBitCast:
		return c.cast("bitcast", x.From, x.To, b, i)
	case *ir.InstCall:
		if m := c.use(x.Callee, b, i); m != "" {
			return m
		}
		pt, ok := x.Callee.Type().(*types.PointerType)
		if !ok {
			return "call of non-pointer"
		}
		sig, ok := pt.ElemType.(*types.FuncType)
		if !ok {
			return "call of non-function"
		}
		if len(x.Args) < len(sig.Params) || len(x.Args) > len(sig.Params) && !sig.Variadic {
			return "call argument count"
		}
		for k, a := range x.Args {
			if m := c.use(a, b, i); m != "" {
				return m
			}
			if k < len(sig.Params) && !teq(sig.Params[k], a.Type()) {
				return "call argument type: " + a.Type().String() + " for " + sig.Params[k].String()
			}
			if !first(a.Type()) {
				return "call argument of invalid type " + a.Type().String()
			}
		}
	}
	return ""
}

func (c *checker) term(b *ir.Block, bi, i int) string {
	switch t := b.Term.(type) {
	case *ir.TermRet:
		rt := c.f.Sig.RetType
		if t.X == nil {
			if !types.IsVoid(rt) {
				return "ret void in a function returning " + rt.String()
			}
			return ""
		}
		if m := c.use(t.X, bi, i); m != "" {
			return m
		}
		if !teq(t.X.Type(), rt) {
			return "ret " + t.X.Type().String() + " in a function returning " + rt.String()
		}
		if types.IsVoid(rt) {
			return "ret of a void value"
		}
	case *ir.TermCondBr:
		if m := c.use(t.Cond, bi, i); m != "" {
			return m
		}
		it, ok := t.Cond.Type().(*types.IntType)
		if !ok || it.BitSize != 1 {
			return "branch condition is " + t.Cond.Type().String()
		}
	case *ir.TermSwitch:
		if m := c.use(t.X, bi, i); m != "" {
			return m
		}
		if !types.IsInt(t.X.Type()) {
			return "switch on " + t.X.Type().String()
		}
		w := t.X.Type().(*types.IntType).BitSize
		seen := map[uint64]bool{}
		for _, k := range t.Cases {
			if !teq(k.X.Type(), t.X.Type()) {
				return "switch case type"
			}
			ci, ok := k.X.(*constant.Int)
			if !ok {
				continue
			}
			u := mask(int(w), uint64(ci.X.Int64()))
			if seen[u] {
				return "duplicate switch case"
			}
			seen[u] = true
		}
	}
	return ""
}

// teq is type identity: named types other than structs are aliases.
func teq(a, b types.Type) bool {
	if a == b {
		return true
	}
	switch a := a.(type) {
	case *types.PointerType:
		b, ok := b.(*types.PointerType)
		return ok && teq(a.ElemType, b.ElemType)
	case *types.ArrayType:
		b, ok := b.(*types.ArrayType)
		return ok && a.Len == b.Len && teq(a.ElemType, b.ElemType)
	case *types.FuncType:
		b, ok := b.(*types.FuncType)
		if !ok || len(a.Params) != len(b.Params) || a.Variadic != b.Variadic || !teq(a.RetType, b.RetType) {
			return false
		}
		for i := range a.Params {
			if !teq(a.Params[i], b.Params[i]) {
				return false
			}
		}
		return true
	case *types.StructType:
		b, ok := b.(*types.StructType)
		if !ok {
			return false
		}
		if a.TypeName != "" || b.TypeName != "" {
			return a.TypeName == b.TypeName
		}
		if len(a.Fields) != len(b.Fields) || a.Packed != b.Packed {
			return false
		}
		for i := range a.Fields {
			if !teq(a.Fields[i], b.Fields[i]) {
				return false
			}
		}
		return true
	}
	return a.Equal(b)
}
