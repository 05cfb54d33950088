// Package pipe runs the real compiler pipeline in the same order as
// internals/program does: lexer, parser, semantic analysis, code generation.
package pipe

import (
	"os"
	"strings"

	"github.com/gabivlj/candice/internals/ast"
	"github.com/gabivlj/candice/internals/compiler"
	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/parser"
	"github.com/gabivlj/candice/internals/semantic"
	rt "github.com/gabivlj/candice/internals/verifrt"
	"github.com/llir/llvm/ir"
)

// Result of one compilation.
type Result struct {
	Stage string // "parse", "semantic", "compiled"
	Errs  []error
	Tree  *ast.Program
	M     *ir.Module
}

// Front lexes, parses and analyses src.
func Front(src string) (Result, *semantic.Semantic) {
	p := parser.New(lexer.New(src))
	tree := p.Parse()
	if len(p.Errors) > 0 {
		return Result{Stage: "parse", Errs: p.Errors, Tree: tree}, nil
	}
	semantic.ResetPaths()
	s := semantic.New()
	s.Analyze(tree)
	if len(s.Errors) > 0 {
		return Result{Stage: "semantic", Errs: s.Errors, Tree: tree}, s
	}
	return Result{Stage: "compiled", Tree: tree}, s
}

// Twice makes Compile compile everything twice, with other names and other
// orders of Go's maps, and compare what comes out.
var Twice bool

// Compile runs the whole pipeline on src.
func Compile(src string) Result {
	if !Twice {
		return compile(src)
	}
	Twice = false
	first := compile(src)
	errs, text := textOf(first)
	rt.CopyTo("zzagain")
	rt.RandomNames(1)
	rt.MapOrder(1)
	second := compile(src)
	rt.MapOrder(0)
	errs2, text2 := textOf(second)
	rt.Assert(first.Stage == second.Stage, "the same program is always accepted or always rejected")
	rt.Assert(SameText(errs, errs2), "the same program has always the same errors")
	rt.Assert(SameText(text, text2), "the same program is always compiled to the same module")
	return second
}

func textOf(r Result) (string, string) {
	errs := ""
	for _, e := range r.Errs {
		errs += e.Error() + "\n"
	}
	if d, err := os.Getwd(); err == nil {
		errs = strings.ReplaceAll(errs, d, "")
	}
	if r.Stage != "compiled" {
		return errs, ""
	}
	return errs, r.M.String()
}

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

// SameText compares texts up to the random parts of their names: a part of one
// is always the same part of the other.
func SameText(a, b string) bool {
	names, back := map[string]string{}, map[string]string{}
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if a[i] == b[i] {
			continue
		}
		from := i
		for from > 0 && isLetter(a[from-1]) {
			from--
		}
		to := i
		for to < len(a) && isLetter(a[to]) && isLetter(b[to]) {
			to++
		}
		x, y := a[from:to], b[from:to]
		if len(x) < 5 {
			return false
		}
		if names[x] == "" && back[y] == "" {
			names[x], back[y] = y, x
		}
		if names[x] != y || back[y] != x {
			return false
		}
		i = to - 1
	}
	return true
}

func compile(src string) Result {
	r, s := Front(src)
	if r.Stage != "compiled" {
		return r
	}
	c := compiler.New(s)
	c.Compile(r.Tree)
	r.M = rt.FieldOfType(c, "*github.com/llir/llvm/ir.Module").(*ir.Module)
	return r
}
