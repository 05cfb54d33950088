package cg

import (
	"strconv"
	"strings"

	"github.com/gabivlj/candice/internals/verifh/irx"
	"github.com/gabivlj/candice/internals/verifh/lang"
	"github.com/gabivlj/candice/internals/verifh/pipe"
	rt "github.com/gabivlj/candice/internals/verifrt"
	"github.com/llir/llvm/ir"
	"github.com/llir/llvm/ir/enum"
	irtypes "github.com/llir/llvm/ir/types"
)

// abi is a type as C sees it.
type abi struct {
	name, ll string
	t        *lang.Ty
	ext      int // how it is extended when it is passed
}

var abis = []abi{
	{"i8", "i8", lang.I8, 1}, {"i16", "i16", lang.I16, 1}, {"i32", "i32", lang.I32, 0}, {"i64", "i64", lang.I64, 0},
	{"u8", "i8", lang.U8, 2}, {"u16", "i16", lang.U16, 2}, {"u32", "i32", lang.U32, 0}, {"u64", "i64", lang.U64, 0},
	{"i1", "i1", lang.I1, 2}, {"f32", "float", lang.F32, 0}, {"f64", "double", lang.F64, 0},
}

func chooseABI(what string) abi { return abis[rt.Choose(what, len(abis))] }

// machine compiles the program and runs a function of it. Functions of C return
// ret.
func machine(src string, ret *irx.Val) *irx.M {
	rt.Log("src", src)
	r := pipe.Compile(src)
	for _, e := range r.Errs {
		rt.Log("diagnostic", e.Error())
	}
	rt.Assert(r.Stage == "compiled", "the program is accepted")
	e := irx.Check(r.M)
	rt.Log("ir", e)
	rt.Assert(e == "", "the IR is well-formed")
	m := irx.New(r.M)
	if ret != nil {
		m.Ext = func(*irx.M, string, []*irx.Val) *irx.Val { return ret }
	}
	return m
}

func runs(m *irx.M, name string, args ...*irx.Val) *irx.Val {
	v, trap := m.Run(name, args...)
	rt.Log("trap", trap)
	rt.Assert(trap == "", "the program runs")
	return v
}

// called checks that the function of C was called with the values.
func called(m *irx.M, name, sig string, ts []abi, vs []*lang.Val) {
	n := 0
	for _, e := range m.Events {
		if e.Name != name {
			continue
		}
		n++
		rt.Log("sig", e.Sig())
		rt.Assert(e.Sig() == sig, "a function of C is called with the type it is declared with")
		rt.Assert(len(e.Args) == len(vs), "a function of C gets all the arguments")
		for i := range vs {
			rt.Assert(lang.Same(e.Args[i], vs[i]), "a function of C gets the values of the arguments")
			rt.Assert(e.Extended(i) == ts[i].ext, "small integers are extended as C expects")
		}
	}
	rt.Assert(n == 1, "the function of C is called once")
}

// H_C26_extern: a call of an extern function calls the function of C of its name
// with the declared type, the values of the arguments and the result of C.
func H_C26_extern() {
	t, r := chooseABI("parameter"), chooseABI("result")
	n := letter("name") + letter("name") + "0"
	v, out := lang.Sym("v", t.t), lang.Sym("out", r.t)
	decl := "extern func " + n + "(" + t.name + ") " + r.name + ";\n"
	src := ""
	call := "func run(p " + t.name + ") " + r.name + " { "
	switch rt.Choose("call", 9) {
	case 0:
		src = decl + call + "return " + n + "(p); }\n"
	case 1:
		src = call + "return " + n + "(p); }\n" + decl
	case 2:
		src = decl + call + "f := " + n + "; return f(p); }\n"
	case 3:
		src = decl + call + "return p." + n + "(); }\n"
	case 4:
		src = decl + "func ap(f func(" + t.name + ") " + r.name + ", q " + t.name + ") " + r.name + " { return f(q); }\n" + call + "return ap(" + n + ", p); }\n"
	case 5:
		src = decl + call + "l := func(q " + t.name + ") " + r.name + " { return " + n + "(q); }; return l(p); }\n"
	case 6:
		src = "type A = " + t.name + ";\ntype B = " + r.name + ";\nextern func " + n + "(A) B;\n" + call + "x : A = p; y : B = " + n + "(x); return y; }\n"
	case 7:
		files("c.cd", decl)
		src = "import c, \"c.cd\";\n" + call + "return c." + n + "(p); }\n"
	case 8:
		files("c.cd", decl+"func in(p "+t.name+") "+r.name+" { return "+n+"(p); }\n")
		src = "import c, \"c.cd\";\n" + decl + call + "return c.in(p); }\n"
	}
	m := machine(src+mainEnd, lang.ToIR(out))
	got := runs(m, "run", lang.ToIR(v))
	called(m, n, r.ll+" ("+t.ll+")", []abi{t}, []*lang.Val{v})
	rt.Assert(lang.Same(got, out), "the call has the value that C returns")
	rt.Cover("end")
}

// H_C26_name: functions of C have exactly the name that is written.
func H_C26_name() {
	n := identifier("name", 3)
	public := rt.Choose("public", 3)
	if public == 2 {
		// from another file
		files("c.cd", "extern func "+n+"(i32) i32;\nfunc run0(p000 i32) i32 { return "+n+"(p000); }\n")
		m := machine("import c, \"c.cd\";\npub func "+n+"(p000 i32) i32 { return p000; }\n"+mainEnd, nil)
		v := lang.Sym("v", lang.I32)
		rt.Assert(lang.Same(runs(m, "run0", lang.ToIR(v)), v), "an extern function is the public function of its name")
		rt.Assert(len(m.Events) == 0, "an extern function is the public function of its name")
		rt.Cover("end")
		return
	}
	src := "extern func " + n + "(i32) i32;\nfunc run0(p000 i32) i32 { return " + n + "(p000); }\n"
	if public == 1 {
		src = "pub func " + n + "(p000 i32) i32 { return p000; }\nfunc run0(p000 i32) i32 { return " + n + "(p000); }\n"
	}
	m := machine(src+mainEnd, nil)
	v := lang.Sym("v", lang.I32)
	runs(m, "run0", lang.ToIR(v))
	if public == 1 {
		symbol(m, n, "i32 (i32)")
	} else {
		called(m, n, "i32 (i32)", []abi{abis[2]}, []*lang.Val{v})
	}
	rt.Cover("end")
}

// identifier is any name of up to n characters that is no keyword.
func identifier(what string, n int) string {
	s := word(what, 1+rt.Choose("length of "+what, n))
	rt.Assume(rt.Or(s[0] < '0', s[0] > '9'))
	for _, k := range keywords {
		rt.Assume(s != k)
	}
	return s
}

// H_C26_arguments: arguments go to C in order, as many as there are.
func H_C26_arguments() {
	n := 1 + rt.Choose("arguments", 5)
	ts, vs, in := []abi{}, []*lang.Val{}, []*irx.Val{}
	params, named, names, lls := []string{}, []string{}, []string{}, []string{}
	for i := 0; i < n; i++ {
		t := abi{}
		if i < 2 {
			t = chooseABI("type")
		} else {
			t = abis[(i*4+n)%len(abis)]
		}
		v := lang.Sym("v"+digit(i), t.t)
		ts, vs, in = append(ts, t), append(vs, v), append(in, lang.ToIR(v))
		params = append(params, t.name)
		lls = append(lls, t.ll)
		named = append(named, "p"+digit(i)+" "+t.name)
		names = append(names, "p"+digit(i))
	}
	void := rt.Choose("no result", 2) == 0
	ret, ll := " i32", "i32"
	call := "return zz(" + strings.Join(names, ", ") + ");"
	if void {
		ret, ll = "", "void"
		call = "zz(" + strings.Join(names, ", ") + ");"
	}
	m := machine("extern func zz("+strings.Join(params, ", ")+")"+ret+";\nfunc run("+strings.Join(named, ", ")+")"+ret+" { "+call+" }\n"+mainEnd, nil)
	runs(m, "run", in...)
	called(m, "zz", ll+" ("+strings.Join(lls, ", ")+")", ts, vs)
	rt.Cover("end")
}

func digit(i int) string { return string([]byte{byte('0' + i)}) }

// H_C26_pub: a public function is the function of C of exactly its name and type,
// and does what it does when the program calls it.
func H_C26_pub() {
	t, r := chooseABI("parameter"), chooseABI("result")
	n := letter("name") + letter("name") + "0"
	v := lang.Sym("v", t.t)
	w := lang.Sym("w", r.t)
	other := "func zz(p " + t.name + ", q " + r.name + ") " + r.name + " { return q; }\n"
	body := []string{
		"{ return q; }",
		"{ x := q; if 1 == 1 { return x; } return q; }",
		"{ l := func(z " + r.name + ") " + r.name + " { return z; }; return l(q); }",
		"{ return zz(p, q); }",
		"{ count = count + 1; for i := 0; i < 2; ++i { if i == 1 { return q; } } return " + n + "(p, q); }",
		"{ f := " + n + "; if count == 0 { count = 1; return f(p, q); } return q; }",
	}[rt.Choose("body", 6)]
	f := "pub func " + n + "(p " + t.name + ", q " + r.name + ") " + r.name + " " + body + "\n"
	run := "func run(p " + t.name + ", q " + r.name + ") " + r.name + " { return "
	end := "(p, q); }\n"
	src := ""
	switch rt.Choose("file", 4) {
	case 0:
		src = "count := 0;\n" + other + f + run + n + end
	case 1:
		src = "count := 0;\n" + run + n + end + f + other
	case 2:
		files("c.cd", "count := 0;\n"+f+other)
		src = "import c, \"c.cd\";\n" + run + "c." + n + end
	case 3:
		// the other file knows it as a function of C
		files("c.cd", "extern func "+n+"("+t.name+", "+r.name+") "+r.name+";\nfunc in(p "+t.name+", q "+r.name+") "+r.name+" { return "+n+"(p, q); }\n")
		src = "import c, \"c.cd\";\ncount := 0;\n" + other + f + run + "c.in" + end
	}
	m := machine(src+mainEnd, nil)
	symbol(m, n, r.ll+" ("+t.ll+", "+r.ll+")")
	got := runs(m, "run", lang.ToIR(v), lang.ToIR(w))
	rt.Assert(lang.Same(got, w), "a public function works inside of the program")
	f0 := m.FindFunc(n)
	rt.Assert(f0 != nil && f0.Name() == n, "a public function has its name")
	got = runs(m, n, lang.ToIR(v), lang.ToIR(w))
	rt.Assert(lang.Same(got, w), "a public function works when C calls it")
	rt.Assert(len(m.Events) == 0, "no function of C is called")
	rt.Cover("end")
}

// symbol checks that the program has only the symbol that C is meant to see.
func symbol(m *irx.M, name, sig string) {
	found := false
	for _, f := range m.Module().Funcs {
		if f.Name() == name {
			found = true
			rt.Assert(len(f.Blocks) > 0, "a public function is defined")
			rt.Assert(f.CallingConv == enum.CallingConvC || f.CallingConv == enum.CallingConvNone, "a public function is called as C calls")
			rt.Log("sig", f.Sig.LLString())
			rt.Assert(f.Sig.LLString() == sig, "a public function has its type")
			rt.Assert(f.Linkage == enum.LinkageNone || f.Linkage == enum.LinkageExternal, "a public function can be seen")
			continue
		}
		private(f)
	}
	rt.Assert(found, "a public function has its name")
}

// private: a function that isn't public has no name that C could use.
func private(f *ir.Func) {
	if f.Name() == "main" || len(f.Blocks) == 0 {
		return
	}
	rt.Assert(strings.Contains(f.Name(), "-") || strings.Contains(f.Name(), "."), "other functions have names that are no names in C")
}

// builtins are programs that use the functions of C that the compiler needs.
var builtins = []struct{ body, out string }{
	{"x := @alloc(i32, 2); x[1] = 7; @print(x[1]); @free(x);", "7"},
	{"x := @alloc(i64, 1); *x = 5 as i64; x = @realloc(x, 3); @print(*x); x[2] = 6 as i64; @print(x[2]);", "56"},
	{"s := \"ab\"; t := s + \"c\"; @print(t, s);", "abc ab"},
	{"if \"ab\" == \"ab\" { @print(1); } if \"b\" < \"ab\" { @print(2); } @print(\"x\" == \"y\");", "10"},
	{"@print(\"a\", 1 as i8, 2.5 as f64);", "a 1 2.500"},
}

// foreign are functions of C with the types that programs see them with.
var foreign = []string{
	"malloc(i32) *i8", "malloc(u64) *i8", "malloc(i64) *i8", "malloc(i64) *i32", "malloc(i64)", "malloc()", "malloc(i64, i32) *i8",
	"free(*i32)", "free(*i8)", "free(*i8) i32", "free(i64)",
	"realloc(*i8, i64) *i8", "realloc(*i32, i32) *i32", "realloc(*i8)",
	"printf(*i8, ..) i32", "printf(*i8, ..)", "printf(*i8) i32", "printf(*i8, i32) i32", "printf(*u8, ..) i64", "printf() i32",
	"strlen(*i8) i64", "strlen(*i8) i32", "strlen(*u8) u64",
	"strcmp(*i8, *i8) i32", "strcmp(*u8, *u8) i64",
	"memcpy(*i8, *i8, i64)", "memcpy(*i8, *i8, i64) *i8", "memcpy(*i32, *i32, i32) *i32",
	"exit(i32)",
}

// H_C26_builtin: builtins work whatever functions of C the program declares.
func H_C26_builtin() {
	b := builtins[rt.Choose("builtin", len(builtins))]
	f := foreign[rt.Choose("declared", len(foreign))]
	name := f[:strings.IndexByte(f, '(')]
	decl := "extern func " + f + ";\n"
	src := ""
	use := "func use() { f := " + name + "; }\n"
	switch rt.Choose("place", 5) {
	case 0:
		src = decl + "func main() i32 { " + b.body + " return 0; }\n"
	case 1:
		src = "func main() i32 { " + b.body + " return 0; }\n" + use + decl
	case 2:
		files("c.cd", decl+use)
		src = "import c, \"c.cd\";\nfunc main() i32 { " + b.body + " c.use(); return 0; }\n"
	case 3:
		files("c.cd", "func show() { "+b.body+" }\n")
		src = "import c, \"c.cd\";\n" + decl + use + "func main() i32 { c.show(); use(); return 0; }\n"
	case 4:
		g := foreign[rt.Choose("declared too", len(foreign))]
		files("c.cd", "extern func "+g+";\nfunc show() { "+b.body+" }\n")
		src = "import c, \"c.cd\";\n" + decl + use + "func main() i32 { c.show(); use(); return 0; }\n"
	}
	m := machine(src, nil)
	runs(m, "main")
	out := ""
	for _, e := range m.Events {
		if e.Name == "printf" {
			out += pieces(e.Out)
		}
	}
	rt.Log("out", out)
	rt.Assert(out == b.out, "builtins work with any functions of C declared")
	rt.Cover("end")
}

// H_C26_same: functions of the same name of several files: plain ones are their
// own, extern ones are the function of C, public ones are it.
func H_C26_same() {
	kinds := func(what string) (string, int) {
		n := letter("name of "+what) + "0"
		return n, rt.Choose(what, 3)
	}
	a, ka := kinds("a")
	b, kb := kinds("b")
	def := func(k int, n, v string) string {
		switch k {
		case 0:
			return "func " + n + "() i32 { return " + v + "; }\n"
		case 1:
			return "pub func " + n + "() i32 { return " + v + "; }\n"
		}
		return "extern func " + n + "() i32;\n"
	}
	files("a.cd", def(ka, a, "1")+"func get() i32 { return "+a+"(); }\n")
	first := rt.Choose("order", 2) == 0
	imp := "import a, \"a.cd\";\n"
	src := ""
	if first {
		src = imp
	}
	src += def(kb, b, "2") + "func get() i32 { return " + b + "(); }\n"
	if !first {
		src += imp
	}
	// functions of C return 3
	va, vb := int64(1), int64(2)
	if ka == 2 {
		va = 3
		if a == b && kb == 1 {
			va = 2
		}
	}
	if kb == 2 {
		vb = 3
		if a == b && ka == 1 {
			vb = 1
		}
	}
	src += "func main() i32 { return a.get() * 1000 + get() * 100 + a." + a + "() * 10 + " + b + "(); }\n"
	rt.Log("src", src)
	r := pipe.Compile(src)
	for _, e := range r.Errs {
		rt.Log("diagnostic", e.Error())
	}
	if ka == 1 && kb == 1 && a == b {
		rt.Assert(r.Stage != "compiled", "two public functions of one name are rejected")
		rt.Cover("end")
		return
	}
	rt.Assert(r.Stage == "compiled", "the program is accepted")
	e := irx.Check(r.M)
	rt.Log("ir", e)
	rt.Assert(e == "", "the IR is well-formed")
	m := irx.New(r.M)
	m.Ext = func(*irx.M, string, []*irx.Val) *irx.Val { return irx.IntV(32, 3) }
	v := runs(m, "main")
	rt.Assert(v.Signed() == va*1010+vb*101, "functions of the same name of several files")
	for _, e := range m.Events {
		rt.Assert(ka == 2 && e.Name == a || kb == 2 && e.Name == b, "only declared functions of C are called")
	}
	rt.Cover("end")
}

// H_C26_main: main is the function of the file of the program; everything else
// can have the name.
func H_C26_main() {
	as := []string{
		"func main() i32 { return 7; }\nfunc get() i32 { return main(); }\n", "pub func main() i32 { return 7; }\nfunc get() i32 { return main(); }\n",
		"v := 1;\nfunc main() { v = 7; return; }\nfunc get() i32 { main(); return v; }\n", "v := 1;\nfunc main() { v = 7; }\nfunc get() i32 { main(); return v; }\n",
		"main := 7;\nfunc get() i32 { return main; }\n", "const main := 7;\nfunc get() i32 { return main; }\n",
		"struct main { main i32 }\nfunc get() i32 { x := @main{main: 7}; return x.main; }\n", "union main { main i32 }\nfunc get() i32 { x : main = 7; return x.main; }\n",
		"type main = i64;\nfunc get() i32 { x := 7 as main; return x as i32; }\n", "func main(main i32) i32 { return main; }\nfunc get() i32 { return main(7); }\n",
		"struct S { x i32 }\nfunc main() S { return @S{x: 7}; }\nfunc get() i32 { return main().x; }\n", "func main() i64 { return 7 as i64; }\nfunc get() i32 { return main() as i32; }\n",
		"func get() i32 { main := 7; l := func() i32 { return main; }; return l(); }\n",
	}
	files("a.cd", as[rt.Choose("imported", len(as))], "b.cd", as[rt.Choose("imported too", len(as))])
	main := []string{
		"func main() i32 { return a.get() * 10 + b.get(); }", "pub func main() i32 { return a.get() * 10 + b.get(); }",
		"func main() i32 { main := a.get(); { main := 1; } return main * 10 + b.get(); }",
		"struct main { main i32 }\nfunc main() i32 { x := @main{main: a.get()}; return x.main * 10 + b.get(); }",
	}[rt.Choose("main", 4)]
	src := "import a, \"a.cd\";\nimport b, \"b.cd\";\n" + main + "\n"
	stage, v := resultOf(src)
	rt.Assert(stage == "compiled", "the program is accepted")
	rt.Assert(v == 77, "main is the function of the file of the program")
	rt.Cover("end")
}

// H_C26_callback: C can call the functions it gets, and use the memory.
func H_C26_callback() {
	t := chooseABI("type")
	v, w := lang.Sym("v", t.t), lang.Sym("w", t.t)
	fn := "func cb(p *" + t.name + ", q " + t.name + ") " + t.name + " { old := *p; *p = q; return old; }\n"
	decl := "extern func zz(*" + t.name + ", func(*" + t.name + ", " + t.name + ") " + t.name + ", *i8) " + t.name + ";\n"
	arg := "cb"
	pre := ""
	src := ""
	switch rt.Choose("function", 6) {
	case 0:
		src = fn
	case 1:
		src = "pub " + fn
	case 2:
		arg = "func(p *" + t.name + ", q " + t.name + ") " + t.name + " { old := *p; *p = q; return old; }"
	case 3:
		src, pre, arg = fn, "f := cb; ", "f"
	case 4:
		files("c.cd", fn)
		src, arg = "import c, \"c.cd\";\n", "c.cb"
	case 5:
		src, pre, arg = fn+"struct S { f func(*"+t.name+", "+t.name+") "+t.name+" }\n", "s := @S{f: cb}; ", "s.f"
	}
	text := []string{"\"a%\"", "str"}[rt.Choose("text", 2)]
	run := "func run(v " + t.name + ") " + t.name + " { x := [2]" + t.name + "{v, v}; str := \"a%\"; " + pre
	end := ""
	switch rt.Choose("memory", 3) {
	case 0:
		run += "y := zz(&x[1], " + arg + ", " + text + "); @print(x[0]); return x[1]; }\n"
	case 1:
		run += "z := v; y := zz(&z, " + arg + ", " + text + "); return z; }\n"
	case 2:
		end = "glob : " + t.name + " = " + map[bool]string{true: "0.5 as " + t.name, false: "0 as " + t.name}[t.name[0] == 'f'] + ";\n"
		run += "glob = v; zz(&glob, " + arg + ", " + text + "); return glob; }\n"
	}
	m := machine(decl+end+src+run+mainEnd, nil)
	n := 0
	m.Ext = func(m *irx.M, name string, args []*irx.Val) *irx.Val {
		n++
		rt.Assert(name == "zz" && len(args) == 3, "the function of C is called")
		rt.Assert(string(m.Str(args[2])) == "a%", "C gets the characters of strings")
		old := m.Call(args[1].P.Fn, []*irx.Val{args[0], lang.ToIR(w)})
		rt.Assert(lang.Same(old, v), "C calls functions of the program")
		return old
	}
	got := runs(m, "run", lang.ToIR(v))
	rt.Assert(n == 1, "the function of C is called once")
	rt.Assert(lang.Same(got, w), "functions that C calls change the memory of the program")
	rt.Cover("end")
}

// H_C26_void: main without a result returns 0, wherever it ends.
func H_C26_void() {
	v := lang.Sym("v", lang.I32)
	src := "extern func zz() i32;\n" + []string{"", "pub "}[rt.Choose("public", 2)] + "func main()" + []string{"", " void"}[rt.Choose("void", 2)] + " { " + []string{
		"", "x := zz();", "return;", "if zz() == 1 { return; } x := 1;", "if zz() == 1 { return; } else { return; }", "for zz() == 1 { return; }",
		"l := func() { return; }; l(); return;", "{ return; }", "switch zz() { case 1 { return; } default { x := 2; } }", "l := func() i32 { return 5; }; x := l();",
	}[rt.Choose("body", 10)] + " }\n"
	m := machine(src, lang.ToIR(v))
	got := runs(m, "main")
	rt.Assert(got.K == irx.Int && got.W == 32 && got.Signed() == 0, "main without a result returns 0")
	rt.Assert(irtypes.Equal(m.FindFunc("main").Sig.RetType, irtypes.I32), "main returns an i32")
	rt.Cover("end")
}

// H_C26_mistake: what can't be public or extern is reported.
func H_C26_mistake() {
	bad := []string{
		"pub struct S { x i32 }\n", "pub x := 5;\n", "pub extern func f();\n", "pub pub func f() { }\n", "extern f();\n", "extern func;\n", "extern func ();\n", "extern func f\n", "extern struct S { x i32 }\n",
		"extern func f() { }\n", "extern i32;\n", "extern *i32;\n", "extern func f(x i32);\n", "extern func f(Nothing);\n", "extern func f() Nothing;\n", "extern func f(i32, ..., i32);\n", "extern func f(.., i32);\n",
		"pub func f() { }\npub func f() { }\n", "pub func f() { }\nfunc f() { }\n", "extern func f();\nfunc f() { }\n", "extern func f();\npub func f() { }\n", "pub func f() { }\nextern func f();\n", "extern func f();\nf := 5;\n",
		"func g() { extern func f(); }\n", "func g() { pub func f() { } }\n", "extern func f();\nfunc g() { f = f; }\n", "extern func f();\nfunc g() { f(1); }\n", "extern func f(i32);\nfunc g() { f(); }\n", "extern func f(i32);\nfunc g() { f(1 as i64); }\n", "extern func f();\nfunc g() i32 { return f(); }\n", "extern func f() i32;\nfunc g() i64 { return f(); }\n",
		"extern func main() i64;\n", "extern func main() i32;\n", "pub", "extern", "pub func", "pub func f", "extern func f(",
	}
	src := bad[rt.Choose("mistake", len(bad))]
	if rt.Choose("end", 2) == 0 {
		src += mainEnd
	} else {
		src = mainEnd + src
	}
	rt.Log("src", src)
	rt.DiagnosedExit(true)
	r := pipe.Compile(src)
	rt.Assert(r.Stage != "compiled", "mistakes in public and extern functions are reported")
	rt.Cover("end")
}

// pieces is the text of what is printed, with concrete numbers.
func pieces(ps []irx.Piece) string {
	s := ""
	for _, p := range ps {
		switch p.K {
		case 't':
			s += string(p.Text)
		case 'd', 'u':
			s += strconv.FormatInt(int64(p.U), 10)
		case 'f':
			s += strconv.FormatFloat(p.F, 'f', p.Prec, 64)
		default:
			s += "?"
		}
	}
	return s
}
