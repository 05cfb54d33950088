package lang

import "strconv"

// E is an expression.
type E struct {
	Op string
	S  string
	A  []*E
	T  *Ty
	N  uint64
	F  float64
	Fn *Fn
	FS []string
	B  []*S
}

// S is a statement.
type S struct {
	Op    string
	Name  string
	Names []string
	T     *Ty
	L     *E
	E     *E
	Init  *S
	Upd   *S
	B     []*S
	Else  []*S
	HasE  bool
	Conds []*E
	Bs    [][]*S
	Typed bool
	Brace bool
	Lits  []*E
	Args  []*E
}

// Fn is a function.
type Fn struct {
	Name   string
	Params []Field
	Ret    *Ty
	Body   []*S
	Extern bool
	Pub    bool
	Cap    []string
}

// Prog is a program.
type Prog struct {
	Pre     string
	Mid     string // printed after the types
	Types   []*Ty
	Globals []*S
	Fns     []*Fn
	After   []*Fn // printed after main
	obs     []*Ty
}

// ---- expressions ---------------------------------------------------------------

func V(name string, t *Ty) *E { return &E{Op: "var", S: name, T: t} }

// Lit is an integer literal of type t (a cast literal unless i32).
func Lit(v uint64, t *Ty) *E { return &E{Op: "lit", N: v, T: t} }

// Raw is an integer literal printed as s with its own literal type.
func Raw(s string, v uint64, t *Ty) *E { return &E{Op: "raw", S: s, N: v, T: t} }

// Str is the string literal with the characters b, spelled src.
func Str(src, b string) *E { return &E{Op: "str", S: src, FS: []string{b}, T: Ptr(I8)} }

// Text is e, printed as src.
func Text(src string, e *E) *E { return &E{Op: "text", S: src, A: []*E{e}, T: e.T} }

// FLit is a float literal of type t.
func FLit(s string, f float64, t *Ty) *E { return &E{Op: "flit", S: s, F: f, T: t} }

func isCmp(op string) bool {
	switch op {
	case "==", "!=", "<", ">", "<=", ">=", "&&", "||":
		return true
	}
	return false
}

// Bin is a binary operation.
func Bin(op string, a, b *E) *E {
	t := a.T
	if isCmp(op) {
		t = I1
	}
	return &E{Op: "bin", S: op, A: []*E{a, b}, T: t}
}

// Un is -x, !x, ++x or --x.
func Un(op string, a *E) *E {
	t := a.T
	if op == "!" {
		t = I1
	}
	return &E{Op: "un", S: op, A: []*E{a}, T: t}
}

// Cast is @cast(t, a) or, with S "as", a as t.
func Cast(t *Ty, a *E) *E  { return &E{Op: "cast", S: "as", A: []*E{a}, T: t} }
func CastB(t *Ty, a *E) *E { return &E{Op: "cast", S: "@", A: []*E{a}, T: t} }
func Addr(a *E) *E         { return &E{Op: "addr", A: []*E{a}, T: Ptr(a.T)} }
func Deref(a *E) *E        { return &E{Op: "deref", A: []*E{a}, T: a.T.E} }
func Idx(a, i *E) *E       { return &E{Op: "idx", A: []*E{a, i}, T: a.T.E} }
func Sizeof(t *Ty) *E {
	return &E{Op: "sizeof", T: I32, A: nil, Fn: nil, FS: []string{t.name}, N: uint64(t.Size())}
}
func Alloc(t *Ty, n *E) *E        { return &E{Op: "alloc", A: []*E{n}, T: Ptr(t)} }
func Call(f *Fn, args ...*E) *E   { return &E{Op: "call", Fn: f, A: args, T: f.Ret} }
func CallV(f *E, args ...*E) *E   { return &E{Op: "callv", A: append([]*E{f}, args...), T: f.T.E} }
func Method(f *Fn, args ...*E) *E { return &E{Op: "method", Fn: f, A: args, T: f.Ret} }
func FnRef(f *Fn) *E              { return &E{Op: "fnref", Fn: f, T: fnTy(f)} }
func Lambda(f *Fn) *E             { return &E{Op: "lambda", Fn: f, T: fnTy(f)} }
func BlockE(t *Ty, body ...*S) *E { return &E{Op: "block", T: t, B: body} }
func ArrLit(t *Ty, vals ...*E) *E { return &E{Op: "alit", T: t, A: vals} }
func StructLit(t *Ty, names []string, vals ...*E) *E {
	return &E{Op: "slit", T: t, FS: names, A: vals}
}

// Comma is a list of expressions.
func Comma(a ...*E) *E {
	var ts []*Ty
	for _, x := range a {
		ts = append(ts, x.T)
	}
	return &E{Op: "comma", A: a, T: List(ts...)}
}

// Fld is a.name, through a pointer if a is one.
func Fld(a *E, name string) *E {
	t := a.T
	if t.K == 'p' {
		t = t.E
	}
	return &E{Op: "fld", S: name, A: []*E{a}, T: t.F[t.field(name)].T}
}

func fnTy(f *Fn) *Ty {
	var ps []*Ty
	for _, p := range f.Params {
		ps = append(ps, p.T)
	}
	r := f.Ret
	if r == nil {
		r = Void
	}
	return Func(r, ps...)
}

// ---- statements ---------------------------------------------------------------

// Decl is name := e.
func Decl(name string, e *E) *S { return &S{Op: "decl", Name: name, E: e, T: e.T} }

// DeclT is name : t = e.
func DeclT(name string, t *Ty, e *E) *S { return &S{Op: "decl", Name: name, E: e, T: t, Typed: true} }
func Const(name string, e *E) *S        { return &S{Op: "const", Name: name, E: e, T: e.T} }
func MDecl(names []string, e *E) *S     { return &S{Op: "mdecl", Names: names, E: e} }
func Assign(l, e *E) *S                 { return &S{Op: "assign", L: l, E: e} }
func Ret(e *E) *S                       { return &S{Op: "ret", E: e} }
func Ex(e *E) *S                        { return &S{Op: "expr", E: e} }
func Blk(b ...*S) *S                    { return &S{Op: "blk", B: b} }
func Break() *S                         { return &S{Op: "break"} }
func Continue() *S                      { return &S{Op: "continue"} }
func Unreach() *S                       { return &S{Op: "unreachable"} }

// Print prints its arguments with @print.
func Print(a ...*E) *S { return &S{Op: "print", Args: a} }

// Ob observes e through an external call.
func Ob(e *E) *S { return &S{Op: "ob", E: e} }

// If is if c {b} else {e}.
func If(c *E, b []*S, e []*S) *S {
	return &S{Op: "if", Conds: []*E{c}, Bs: [][]*S{b}, Else: e, HasE: e != nil}
}

// IfChain is an if / else if chain.
func IfChain(conds []*E, bs [][]*S, e []*S) *S {
	return &S{Op: "if", Conds: conds, Bs: bs, Else: e, HasE: e != nil}
}
func While(c *E, b ...*S) *S { return &S{Op: "while", E: c, B: b} }
func Loop(b ...*S) *S        { return &S{Op: "loop", B: b} }
func For(init *S, c *E, upd *S, b ...*S) *S {
	return &S{Op: "for", Init: init, E: c, Upd: upd, B: b}
}

// Switch with integer literal cases.
func Switch(e *E, lits []*E, bs [][]*S, def []*S) *S {
	return &S{Op: "switch", E: e, Lits: lits, Bs: bs, Else: def, HasE: def != nil}
}

// ---- printing ---------------------------------------------------------------

type printer struct {
	b   []byte
	p   *Prog
	ind int
}

func (w *printer) s(x string) { w.b = append(w.b, x...) }

func (w *printer) args(a []*E) {
	for i, x := range a {
		if i > 0 {
			w.s(", ")
		}
		w.e(x)
	}
}

func (w *printer) e(e *E) {
	switch e.Op {
	case "var", "cst", "text":
		w.s(e.S)
	case "raw":
		w.s(e.S)
	case "str":
		w.s("\"" + e.S + "\"")
	case "lit":
		neg := false
		v := e.N
		if e.T.K == 'i' && int64(v) < 0 {
			neg = true
			v = -v
		}
		t := strconv.FormatUint(v, 10)
		if neg {
			t = "-" + t
		}
		if e.T == I32 {
			if neg {
				t = "(" + t + ")"
			}
			w.s(t)
			return
		}
		w.s("(" + t + " as " + e.T.name + ")")
	case "flit":
		if e.T == F64 {
			w.s("(" + e.S + " as f64)")
			return
		}
		w.s(e.S)
	case "bin":
		w.s("(")
		w.e(e.A[0])
		w.s(" " + e.S + " ")
		w.e(e.A[1])
		w.s(")")
	case "un":
		w.s("(" + e.S)
		w.e(e.A[0])
		w.s(")")
	case "cast":
		if e.S == "@" {
			w.s("@cast(" + e.T.name + ", ")
			w.e(e.A[0])
			w.s(")")
			return
		}
		w.s("(")
		w.e(e.A[0])
		w.s(" as " + e.T.name + ")")
	case "addr":
		w.s("(&")
		w.e(e.A[0])
		w.s(")")
	case "deref":
		w.s("(*")
		w.e(e.A[0])
		w.s(")")
	case "idx":
		w.e(e.A[0])
		w.s("[")
		w.e(e.A[1])
		w.s("]")
	case "fld":
		w.e(e.A[0])
		w.s("." + e.S)
	case "sizeof":
		w.s("@sizeof(" + e.FS[0] + ")")
	case "alloc":
		w.s("@alloc(" + e.T.E.name + ", ")
		w.e(e.A[0])
		w.s(")")
	case "call":
		w.s(e.Fn.Name + "(")
		w.args(e.A)
		w.s(")")
	case "method":
		w.e(e.A[0])
		w.s("." + e.Fn.Name + "(")
		w.args(e.A[1:])
		w.s(")")
	case "callv":
		w.e(e.A[0])
		w.s("(")
		w.args(e.A[1:])
		w.s(")")
	case "fnref":
		w.s(e.Fn.Name)
	case "lambda":
		w.s("func")
		w.fnRest(e.Fn)
	case "block":
		w.s(": " + e.T.name + " ")
		w.block(e.B)
	case "alit":
		w.s(e.T.name + "{")
		w.args(e.A)
		w.s("}")
	case "slit":
		w.s("@" + e.T.name + "{")
		for i, x := range e.A {
			if i > 0 {
				w.s(", ")
			}
			w.s(e.FS[i] + ": ")
			w.e(x)
		}
		w.s("}")
	case "comma":
		w.args(e.A)
	default:
		panic("print " + e.Op)
	}
}

// lbase prints a place inside an assignment target without a leading '('.
func (w *printer) lbase(e *E) {
	switch e.Op {
	case "deref":
		w.lbase(e.A[0])
		w.s("[0]")
	case "idx":
		w.lbase(e.A[0])
		w.s("[")
		w.e(e.A[1])
		w.s("]")
	case "fld":
		w.lbase(e.A[0])
		w.s("." + e.S)
	default:
		w.e(e)
	}
}

// lval prints an assignment target; statements may not start with '('.
func (w *printer) lval(e *E) {
	switch e.Op {
	case "idx", "fld":
		w.lbase(e)
		return
	case "deref":
		w.s("*")
		w.e(e.A[0])
		return
	case "comma":
		for i, x := range e.A {
			if i > 0 {
				w.s(", ")
			}
			w.lval(x)
		}
		return
	}
	w.e(e)
}

func (w *printer) nl() {
	w.s("\n")
	for i := 0; i < w.ind; i++ {
		w.s("    ")
	}
}

func (w *printer) block(b []*S) {
	w.s("{")
	w.ind++
	for _, s := range b {
		w.nl()
		w.st(s)
	}
	w.ind--
	w.nl()
	w.s("}")
}

func (w *printer) st(s *S) {
	switch s.Op {
	case "decl":
		if s.Typed {
			w.s(s.Name + " : " + s.T.name + " = ")
		} else {
			w.s(s.Name + " := ")
		}
		w.e(s.E)
		w.s(";")
	case "const":
		if s.Typed {
			w.s("const " + s.Name + " : " + s.T.name + " = ")
		} else {
			w.s("const " + s.Name + " := ")
		}
		w.e(s.E)
		w.s(";")
	case "mdecl":
		for i, n := range s.Names {
			if i > 0 {
				w.s(", ")
			}
			w.s(n)
		}
		w.s(" := ")
		w.e(s.E)
		w.s(";")
	case "assign":
		w.lval(s.L)
		w.s(" = ")
		w.e(s.E)
		w.s(";")
	case "ret":
		if s.E == nil {
			w.s("return;")
			return
		}
		w.s("return ")
		w.e(s.E)
		w.s(";")
	case "expr":
		w.e(s.E)
		w.s(";")
	case "blk":
		w.block(s.B)
	case "break", "continue":
		w.s(s.Op + ";")
	case "unreachable":
		w.s("@unreachable();")
	case "print":
		w.s("@print(")
		w.args(s.Args)
		w.s(");")
	case "ob":
		w.p.observe(s.E.T)
		w.s("ob_" + obName(s.E.T) + "(")
		w.e(s.E)
		w.s(");")
	case "if":
		for i, c := range s.Conds {
			if i > 0 {
				w.s(" else ")
			}
			w.s("if ")
			w.e(c)
			w.s(" ")
			w.block(s.Bs[i])
		}
		if s.HasE {
			w.s(" else ")
			w.block(s.Else)
		}
	case "while":
		w.s("for ")
		w.e(s.E)
		w.s(" ")
		w.block(s.B)
	case "loop":
		w.s("for ")
		w.block(s.B)
	case "for":
		w.s("for ")
		w.st(s.Init)
		w.s(" ")
		w.e(s.E)
		w.s("; ")
		if s.Upd != nil {
			n := len(w.b)
			w.st(s.Upd)
			if len(w.b) > n && w.b[len(w.b)-1] == ';' {
				w.b = w.b[:len(w.b)-1]
			}
			w.s(" ")
		}
		w.block(s.B)
	case "switch":
		w.s("switch ")
		w.e(s.E)
		w.s(" {")
		w.ind++
		for i, l := range s.Lits {
			w.nl()
			w.s("case ")
			w.e(l)
			w.s(" ")
			w.block(s.Bs[i])
		}
		if s.HasE {
			w.nl()
			w.s("default ")
			w.block(s.Else)
		}
		w.ind--
		w.nl()
		w.s("}")
	default:
		panic("print " + s.Op)
	}
}

func obName(t *Ty) string {
	switch t.K {
	case 'i', 'u', 'f':
		return t.name
	}
	panic("observe " + t.name)
}

func (p *Prog) observe(t *Ty) {
	for _, x := range p.obs {
		if x == t {
			return
		}
	}
	p.obs = append(p.obs, t)
}

func (w *printer) fnRest(f *Fn) {
	w.s("(")
	for i, p := range f.Params {
		if i > 0 {
			w.s(", ")
		}
		w.s(p.Name + " " + p.T.name)
	}
	w.s(") ")
	if f.Ret != nil && f.Ret.K != 'v' {
		w.s(f.Ret.name + " ")
	}
	w.block(f.Body)
}

func (w *printer) fn(f *Fn) {
	if f.Pub {
		w.s("pub ")
	}
	w.s("func " + f.Name)
	w.fnRest(f)
	w.s("\n")
}

// Src prints the program.
func (p *Prog) Src() string {
	w := &printer{p: p}
	p.obs = nil
	for _, t := range p.Types {
		if t.K == 'n' {
			w.s("union ")
		} else {
			w.s("struct ")
		}
		w.s(t.S + " {")
		for _, f := range t.F {
			w.s("\n    " + f.Name + " " + f.T.name)
		}
		w.s("\n}\n")
	}
	w.s(p.Mid)
	for _, g := range p.Globals {
		w.st(g)
		w.s("\n")
	}
	for _, f := range p.Fns {
		w.fn(f)
	}
	w.s("func main() i32 { return 0; }\n")
	for _, f := range p.After {
		w.fn(f)
	}
	pre := p.Pre
	for _, t := range p.obs {
		pre += "extern func ob_" + obName(t) + "(" + t.name + ");\n"
	}
	return pre + string(w.b)
}
