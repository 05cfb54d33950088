package cg

import (
	"strings"

	"github.com/gabivlj/candice/internals/tree_printer"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// part is a part of a program: its text and the tree that is drawn of it.
type part struct {
	src  string
	tree *drawn
}

// drawn is a tree that is drawn with lines.
type drawn struct {
	label string
	kids  []*drawn
}

func d(label string, kids ...*drawn) *drawn { return &drawn{label, kids} }

// block is what's drawn of a list: nothing, if it's empty.
func block(label string, kids ...*drawn) *drawn {
	if len(kids) == 0 {
		return d("")
	}
	return d(label, kids...)
}

func (t *drawn) String() string {
	s := t.label + "("
	for _, k := range t.kids {
		s += k.String()
	}
	return s + ")"
}

// draw is the drawing, line by line.
func (t *drawn) draw() []string {
	if len(t.kids) == 0 {
		return []string{t.label}
	}
	var out []string
	spaces := strings.Repeat(" ", len(t.label))
	for i, k := range t.kids {
		line, wall := "╠", "║"
		switch {
		case len(t.kids) == 1:
			line, wall = "═", " "
		case i == 0:
			line = "╦"
		case i == len(t.kids)-1:
			line, wall = "╚", " "
		}
		for j, l := range k.draw() {
			switch {
			case i == 0 && j == 0:
				out = append(out, t.label+line+l)
			case j == 0:
				out = append(out, spaces+line+l)
			default:
				out = append(out, spaces+wall+l)
			}
		}
	}
	return out
}

// drawing is the tree of a program.
func drawing(src string) (string, string) {
	w := &strings.Builder{}
	err := tree_printer.WriteOutput(src, w)
	if err != nil {
		return w.String(), err.Error()
	}
	return w.String(), ""
}

func showsTree(src string, want *drawn) {
	got, err := drawing(src)
	text := strings.TrimSpace(strings.Join(want.draw(), "\n")) + "\n"
	rt.Log("src", src)
	rt.Log("tree", got)
	rt.Log("want", text)
	rt.Log("error", err)
	rt.Assert(err == "", "the program is well-formed")
	rt.Assert(strings.TrimSpace(got) == strings.TrimSpace(text), "the tree is the one of the program")
	rt.Cover("end")
}

var treeTypes = []string{"i32", "*S", "[2]i64", "func(i32, *i8) f64", "m.S", "[3]*m.S", "**func() i1", "void"}

func treeParams(n int) (string, *drawn) {
	src, all := "", []*drawn(nil)
	for i := 0; i < n; i++ {
		t := treeTypes[(i+n)%len(treeTypes)]
		name := string([]byte{byte('p' + i)})
		if i > 0 {
			src += ", "
		}
		src += name + " " + t
		all = append(all, d(name+" "+t))
	}
	return src, block("types.Parameters", all...)
}

const nExprs = 26

// expr is the k-th kind of expression, made of others.
func expr(k int, sub func() part) part {
	in := func(p part) string { return "(" + p.src + ")" }
	switch k {
	case 0:
		return part{"name", d("name")}
	case 1:
		return part{"12", d("12 (i32)")}
	case 2:
		return part{"5000000000", d("5000000000 (i64)")}
	case 3:
		return part{"2.5", d("2.5 (f32)")}
	case 4:
		return part{"\"a b\"", d("ast.StringLiteral", d("\"a b\""))}
	case 5:
		return part{"'q'", d("'q' (i8)")}
	case 6:
		op := []string{"-", "!", "*", "&", "++", "--"}[rt.Choose("prefix", 6)]
		a := sub()
		return part{op + in(a), d("ast.PrefixOperation", d("'"+op+"'"), a.tree)}
	case 7:
		op := []string{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"}[rt.Choose("operator", 18)]
		a, b := sub(), sub()
		return part{in(a) + " " + op + " " + in(b), d("ast.BinaryOperation", a.tree, d("'"+op+"'"), b.tree)}
	case 8:
		a := sub()
		return part{in(a) + ".field", d("ast.BinaryOperation", a.tree, d("'.'"), d("field"))}
	case 9:
		a, b := sub(), sub()
		return part{in(a) + "[" + b.src + "]", d("ast.IndexAccess", a.tree, b.tree)}
	case 10:
		return part{"call()", d("ast.Call", d("call"), d(""))}
	case 11:
		a, b := sub(), sub()
		return part{"call(" + a.src + ", " + b.src + ")", d("ast.Call", d("call"), d("ast.Parameters", a.tree, b.tree))}
	case 12:
		a, b := sub(), sub()
		return part{in(a) + ".method(" + b.src + ")", d("ast.Call", d("ast.BinaryOperation", a.tree, d("'.'"), d("method")), d("ast.Parameters", b.tree))}
	case 13:
		t := treeTypes[rt.Choose("type", len(treeTypes))]
		a := sub()
		return part{in(a) + " as " + t, d("ast.BuiltinCall", d("cast"), d("ast.TypeParameters", d(t)), d("ast.Parameters", a.tree))}
	case 14:
		return part{"@sizeof([2]i8)", d("ast.BuiltinCall", d("sizeof"), d("ast.TypeParameters", d("[2]i8")), d(""))}
	case 15:
		a := sub()
		return part{"@alloc(S, " + a.src + ")", d("ast.BuiltinCall", d("alloc"), d("ast.TypeParameters", d("S")), d("ast.Parameters", a.tree))}
	case 16:
		a, b := sub(), sub()
		return part{"@realloc(" + a.src + ", " + b.src + ")", d("ast.BuiltinCall", d("realloc"), d("ast.Parameters", a.tree, b.tree))}
	case 17:
		a, b := sub(), sub()
		return part{"[2]*S{" + a.src + ", " + b.src + "}", d("ast.ArrayLiteral", d("types.Array", d("[2]*S")), d("ast.ArrayElement", a.tree), d("ast.ArrayElement", b.tree))}
	case 18:
		return part{"[0]i32{}", d("ast.ArrayLiteral", d("types.Array", d("[0]i32")))}
	case 19:
		a, b := sub(), sub()
		return part{"@S{x: " + a.src + ", y: " + b.src + "}", d("ast.StructLiteral", d("S"), d("ast.Field", d("x"), a.tree), d("ast.Field", d("y"), b.tree))}
	case 20:
		a := sub()
		return part{"@m.S{x: " + a.src + "}", d("ast.StructLiteral", d("m.S"), d("ast.Field", d("x"), a.tree))}
	case 21:
		return part{"@S{}", d("ast.StructLiteral", d("S"))}
	case 22:
		a := sub()
		p, pt := treeParams(rt.Choose("parameters", 3))
		return part{"func(" + p + ") i32 { return " + a.src + "; }", d("ast.AnonymousFunction", pt, d("types.Return", d("i32")), d("ast.Block", d("ast.ReturnStatement", a.tree)))}
	case 23:
		a := sub()
		return part{": *S { return " + a.src + "; }", d("ast.ExpressionBlock", d("*S"), d("ast.Block", d("ast.ReturnStatement", a.tree)))}
	case 24:
		return part{"0", d("0 (i32)")}
	default:
		return part{"func() { }", d("ast.AnonymousFunction", d(""), d("types.Return", d("void")), d(""))}
	}
}

func leafExpr() part { return expr([]int{0, 1, 4, 10, 19 + 2}[rt.Choose("leaf", 5)], nil) }

// H_C29_expression: every kind of expression in every kind of expression.
func H_C29_expression() {
	k := rt.Choose("outer", nExprs)
	i := 0
	names := []string{"aa", "b", "cc", "d"}
	leaf := func() part { i++; return part{names[(i-1)%4], d(names[(i-1)%4])} }
	inner := func() part {
		if i > 0 {
			return leaf()
		}
		i = 1
		return expr(rt.Choose("inner", nExprs), leaf)
	}
	if rt.Choose("which", 2) == 1 {
		i = 1 // the second one is an expression
		n := 0
		inner = func() part {
			n++
			if n == 2 {
				return expr(rt.Choose("inner", nExprs), leaf)
			}
			return leaf()
		}
	}
	e := expr(k, inner)
	showsTree("x := "+e.src+";", d("ast.Program", d("ast.DeclarationStatement", d("x"), e.tree)))
}

const nStmts = 27

func stmt(k int, body func() part, e func() part) part {
	switch k {
	case 0:
		a := e()
		return part{"name := " + a.src + ";", d("ast.DeclarationStatement", d("name"), a.tree)}
	case 1:
		t := treeTypes[rt.Choose("type", len(treeTypes))]
		a := e()
		return part{"name : " + t + " = " + a.src + ";", d("ast.DeclarationStatement", d("name"), d(t), a.tree)}
	case 2:
		a := e()
		return part{"const name := " + a.src + ";", d("ast.DeclarationStatement", d("name"), a.tree)}
	case 3:
		a, b := e(), e()
		return part{"one, two := " + a.src + ", " + b.src + ";", d("ast.MultipleDeclarationStatement", d("one"), d("two"), d("ast.CommaExpressions", a.tree, b.tree))}
	case 4:
		a := e()
		return part{"one, two, three := " + a.src + ";", d("ast.MultipleDeclarationStatement", d("one"), d("two"), d("three"), a.tree)}
	case 5:
		a := e()
		return part{"name = " + a.src + ";", d("ast.AssignmentStatement", d("name"), a.tree)}
	case 6:
		a, b := e(), e()
		return part{"*one, two.x = " + a.src + ", " + b.src + ";", d("ast.AssignmentStatement", d("ast.CommaExpressions", d("ast.PrefixOperation", d("'*'"), d("one")), d("ast.BinaryOperation", d("two"), d("'.'"), d("x"))), d("ast.CommaExpressions", a.tree, b.tree))}
	case 7:
		a := e()
		return part{"call(" + a.src + ");", d("ast.ExpressionStatement", d("ast.Call", d("call"), d("ast.Parameters", a.tree)))}
	case 8:
		a := e()
		return part{"return " + a.src + ";", d("ast.ReturnStatement", a.tree)}
	case 9:
		return part{"return;", d("ast.ReturnStatement", d(""))}
	case 10:
		a, b := e(), e()
		return part{"return " + a.src + ", " + b.src + ";", d("ast.ReturnStatement", d("ast.CommaExpressions", a.tree, b.tree))}
	case 11:
		return part{"break;", d("ast.BreakStatement")}
	case 12:
		return part{"continue;", d("ast.ContinueStatement")}
	case 13:
		b := body()
		return part{"{ " + b.src + " }", b.tree}
	case 14:
		a, b := e(), body()
		return part{"if " + a.src + " { " + b.src + " }", d("ast.IfStatement", a.tree, b.tree)}
	case 15:
		a, b, c := e(), body(), body()
		return part{"if " + a.src + " { " + b.src + " } else { " + c.src + " }", d("ast.IfStatement", a.tree, b.tree, d("ast.Else", c.tree))}
	case 16:
		a, b, c, f := e(), body(), e(), body()
		return part{"if " + a.src + " { " + b.src + " } else if " + c.src + " { " + f.src + " } else if last { } else { }",
			d("ast.IfStatement", a.tree, b.tree, d("ast.ConditionPlusBlock", c.tree, f.tree), d("ast.ConditionPlusBlock", d("last"), d("")), d("ast.Else", d("")))}
	case 17:
		b := body()
		return part{"for { " + b.src + " }", d("ast.ForStatement", b.tree)}
	case 18:
		a, b := e(), body()
		if strings.HasPrefix(a.src, "func") { // a declaration
			a.src = "(" + a.src + ")"
		}
		return part{"for " + a.src + " { " + b.src + " }", d("ast.ForStatement", d("condition", a.tree), b.tree)}
	case 19:
		a, c, b := e(), e(), body()
		return part{"for i := " + a.src + "; " + c.src + "; ++i { " + b.src + " }",
			d("ast.ForStatement", d("initializer", d("ast.DeclarationStatement", d("i"), a.tree)), d("condition", c.tree), d("operation", d("ast.ExpressionStatement", d("ast.PrefixOperation", d("'++'"), d("i")))), b.tree)}
	case 20:
		a, b, c := e(), body(), body()
		return part{"switch " + a.src + " { case 1 { " + b.src + " } case 2 { } default { " + c.src + " } }",
			d("ast.SwitchStatement", d("ast.Condition", a.tree), d("ast.Case", d("1 (i32)"), b.tree), d("ast.Case", d("2 (i32)"), d("")), d("ast.Default", c.tree))}
	case 25:
		a := body()
		return part{"switch name { default { " + a.src + " } }", d("ast.SwitchStatement", d("ast.Condition", d("name")), d("ast.Default", a.tree))}
	case 26:
		a, b := body(), body()
		return part{"switch name { case one { " + a.src + " } case two { " + b.src + " } }", d("ast.SwitchStatement", d("ast.Condition", d("name")), d("ast.Case", d("one"), a.tree), d("ast.Case", d("two"), b.tree))}
	case 21:
		a, b := e(), body()
		return part{"switch 1 { case " + a.src + " { " + b.src + " } }", d("ast.SwitchStatement", d("ast.Condition", d("1 (i32)")), d("ast.Case", a.tree, b.tree))}
	case 22:
		b := body()
		t := *b.tree
		if t.label == "ast.Block" {
			t.label = "ast.MacroBlock"
		}
		return part{"#if 1 { " + b.src + " }", &t}
	case 23:
		a := e()
		return part{"@print(" + a.src + ");", d("ast.ExpressionStatement", d("ast.BuiltinCall", d("print"), d("ast.Parameters", a.tree)))}
	default:
		a := e()
		return part{"#if 0 { call(" + a.src + "); }", d("")}
	}
}

// H_C29_statement: every kind of statement in every kind of statement.
func H_C29_statement() {
	i := 0
	names := []string{"aa", "b", "cc", "d", "ee"}
	leaf := func() part { i++; return part{names[(i-1)%5], d(names[(i-1)%5])} }
	simple := func() part {
		return part{"call(last);", d("ast.Block", d("ast.ExpressionStatement", d("ast.Call", d("call"), d("ast.Parameters", d("last")))))}
	}
	n := 0
	// an expression in the statement, or a statement in the statement
	first := rt.Choose("expression", 2) == 0
	deep := !first
	outer := rt.Choose("outer", nStmts)
	body := func() part {
		n++
		if n > 1 {
			if rt.Choose("empty", 2) == 1 {
				return part{"", d("")}
			}
			return simple()
		}
		k := 0
		if deep {
			k = rt.Choose("statements", 3)
		}
		if k == 0 {
			return part{"", d("")}
		}
		in := stmt(rt.Choose("inner", nStmts), simple, leaf)
		if k == 1 {
			return part{in.src, d("ast.Block", in.tree)}
		}
		return part{in.src + " after();", d("ast.Block", in.tree, d("ast.ExpressionStatement", d("ast.Call", d("after"), d(""))))}
	}
	e := func() part {
		if first {
			first = false
			return expr(rt.Choose("kind", nExprs), leaf)
		}
		return leaf()
	}
	s := stmt(outer, body, e)
	all := []*drawn{d("ast.DeclarationStatement", d("one"), d("1 (i32)")), s.tree}
	src := "one := 1; " + s.src
	showsTree("func f() { "+src+" }", d("ast.Program", d("ast.FunctionDeclarationStatement", d("f"), d("types.Return", d("void")), d("ast.Block", all...))))
}

// H_C29_declaration: every kind of declaration, with every type.
func H_C29_declaration() {
	t := treeTypes[rt.Choose("type", len(treeTypes))]
	n := 1 + rt.Choose("count", 3)
	fields, fd := "", []*drawn{d("Name")}
	for i := 0; i < n; i++ {
		u := treeTypes[(i*3+n)%len(treeTypes)]
		if i == n/2 {
			u = t
		}
		f := []string{"x", "long", "y"}[i]
		fields += f + " " + u + " "
		fd = append(fd, d("ast.Field", d(f), d(u)))
	}
	src := ""
	var want *drawn
	switch rt.Choose("kind", 9) {
	case 0:
		src, want = "struct Name { "+fields+"}", d("ast.StructStatement", fd...)
	case 1:
		src, want = "union Name { "+fields+"}", d("ast.UnionStatement", fd...)
	case 2:
		src, want = "type Name = "+t+";", d("ast.TypeDefinition", d("Name"), d(t))
	case 3:
		src, want = "extern func name("+strings.TrimSuffix(strings.Repeat("i8, ", n), ", ")+") "+t+";", d("ast.ExternStatement", d("func name("+strings.TrimSuffix(strings.Repeat("i8, ", n), ", ")+") "+t))
	case 4:
		p, pt := treeParams(n)
		src, want = "func name("+p+") "+t+" { }", d("ast.FunctionDeclarationStatement", d("name"), pt, d("types.Return", d(t)), d(""))
	case 5:
		src, want = "pub func name(a "+t+") { return a; }", d("ast.FunctionDeclarationStatement", d("name"), d("types.Parameters", d("a "+t)), d("types.Return", d("void")), d("ast.Block", d("ast.ReturnStatement", d("a"))))
	case 6:
		src, want = "func name(a "+t+") i32, "+t+" { return 1, a; }", d("ast.FunctionDeclarationStatement", d("name"), d("types.Parameters", d("a "+t)), d("types.Return", d("i32, "+t)), d("ast.Block", d("ast.ReturnStatement", d("ast.CommaExpressions", d("1 (i32)"), d("a")))))
	case 7:
		src, want = "import name, "+strings.Repeat(t+", ", n-1)+"\"p/f.cd\";", d("ast.ImportStatement", d("name"))
		for i := 1; i < n; i++ {
			want.kids = append(want.kids, d(t))
		}
		want.kids = append(want.kids, d("\"\"p/f.cd\"\""))
	case 8:
		src, want = "name : "+t+" = 1;", d("ast.DeclarationStatement", d("name"), d(t), d("1 (i32)"))
	}
	all := []*drawn{want}
	switch rt.Choose("around", 3) {
	case 1:
		src += "\nlast := 1;"
		all = append(all, d("ast.DeclarationStatement", d("last"), d("1 (i32)")))
	case 2:
		src = "struct First { a i8 }\n" + src
		all = append([]*drawn{d("ast.StructStatement", d("First"), d("ast.Field", d("a"), d("i8")))}, all...)
	}
	showsTree(src, d("ast.Program", all...))
}

// H_C29_name: names and values are drawn letter by letter.
func H_C29_name() {
	places := []string{
		"# := 1;", "x := #;", "#();", "x.#();", "x := y.# + 1;", "func #() { }", "func f(# i32) { }", "struct # { x i32 }", "struct S { # i32 }", "union # { x i32 }", "type # = i32;", "extern func #(i32);", "import #, \"a.cd\";", "x : # = 1;", "x : *m.# = 1;", "x : #.S = 1;",
		"x := @#{a: 1};", "x := @m.#{a: 1};", "x := @#.S{a: 1};", "x := @S{#: 1};", "a, # := b();", "f(x, #);", "x := -#;", "x := 1 as #;", "x := @sizeof(#);", "x := l[#];", "x := #[1];", "x := \"#\";", "x := \"a # b\";", "f := func(# i32) # { };", "if # { #(); } else if # { # = 1; }", "for # := 1; #; ++# { #; }", "switch # { case # { #; } }", "return #, 1;", "const # := 1;", "x := : # { return #; };", "#if 1 { x := #; }",
	}
	src := places[rt.Choose("place", len(places))]
	w := "q" + identifier("name", 2)
	sample := "qzq"
	a, e1 := drawing(strings.ReplaceAll(src, "#", sample))
	b, e2 := drawing(strings.ReplaceAll(src, "#", w))
	rt.Log("src", strings.ReplaceAll(src, "#", w))
	rt.Log("tree", b)
	rt.Assert(e1 == "" && e2 == "", "the program is well-formed")
	rt.Assert(strings.Contains(a, sample), "the name is part of the tree")
	rt.Assert(b == strings.ReplaceAll(a, sample, w), "the tree has the names of the program")
	rt.Cover("end")
}

// H_C29_value: values are drawn digit by digit, with their types.
func H_C29_value() {
	src, want := "", ""
	switch rt.Choose("value", 5) {
	case 0:
		src = digits("digits", 1+rt.Choose("length", 5))
		rt.Assume(rt.Or(len(src) == 1, src[0] != '0'))
		want = src + " (i32)"
	case 1:
		src = "500000" + digits("digits", 4)
		want = src + " (i64)"
	case 2:
		c := rt.Byte("letter")
		rt.Assume(rt.And(c > ' ', rt.And(c < 127, rt.And(c != '\'', c != '\\'))))
		src = "'" + string([]byte{c}) + "'"
		want = src + " (i8)"
	case 3:
		c := rt.Byte("letter")
		rt.Assume(rt.And(c >= ' ', rt.And(c < 127, rt.And(c != '"', c != '\\'))))
		src = "\"a" + string([]byte{c}) + "z\""
		want = "ast.StringLiteral═" + src
	case 4:
		n := digits("array", 2)
		rt.Assume(n[0] != '0')
		src = "[" + n + "]i8{}"
		want = "ast.ArrayLiteral═types.Array═[" + n + "]i8"
	}
	got, err := drawing("x := f(" + src + ");")
	rt.Log("src", src)
	rt.Log("tree", got)
	rt.Assert(err == "", "the program is well-formed")
	// the value is at the end of the tree
	rt.Assert(strings.HasSuffix(strings.TrimSpace(got), "╚ast.Parameters═"+want), "the tree has the value of the program")
	rt.Cover("end")
}

// H_C29_any: a tree or an error, whatever the text is.
func H_C29_any() {
	toks := strings.Split(programs[rt.Choose("program", len(programs))], " ")
	at := rt.Choose("token", len(toks))
	var out []string
	switch how := rt.Choose("how", 3); how {
	case 0:
		out = append(append(out, toks[:at]...), toks[at+1:]...)
	case 1:
		out = append(out, toks[:at]...)
	case 2:
		out = append(append(append(out, toks[:at]...), []string{"++", ")", ";", "#", "@", ",", "if", "as", "}"}[rt.Choose("other", 9)]), toks[at+1:]...)
	}
	src := strings.Join(out, " ")
	rt.Log("src", src)
	tree, _ := drawing(src)
	rt.Assert(len(tree) > 0, "something is printed")
	rt.Cover("end")
}
