package main

import (
	"fmt"
	"os"

	"github.com/gabivlj/candice/internals/compiler"
	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/parser"
	"github.com/gabivlj/candice/internals/semantic"
)

// Compiles and runs the Candice program in os.Args[1], in the current directory.
func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	p := parser.New(lexer.New(string(src)))
	tree := p.Parse()
	if len(p.Errors) > 0 {
		fmt.Println("rejected by the parser")
		fmt.Fprintln(os.Stderr, p.Errors)
		return
	}
	s := semantic.New()
	s.Analyze(tree)
	if len(s.Errors) > 0 {
		fmt.Println("rejected by the analysis")
		fmt.Fprintln(os.Stderr, s.Errors)
		return
	}
	c := compiler.New(s)
	c.Compile(tree)
	out, err := c.Execute()
	os.Stdout.Write(out)
	if err != nil {
		fmt.Println("error:", err)
	}
}
