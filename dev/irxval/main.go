// Command irxval cross-validates irx (the IR interpreter the checks trust)
// against LLVM's own interpreter on whole programs.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/gabivlj/candice/internals/compiler"
	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/parser"
	"github.com/gabivlj/candice/internals/semantic"
	"github.com/gabivlj/candice/internals/verifh/irx"
	rt "github.com/gabivlj/candice/internals/verifrt"
	"github.com/llir/llvm/ir"
)

func sprint(m *irx.M, e irx.Event) string {
	f := e.Fmt
	var b strings.Builder
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			b.WriteByte(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789.hl", f[j]) >= 0 {
			j++
		}
		mod := strings.Trim(f[i+1:j], "0123456789.")
		if j >= len(f) {
			break
		}
		if f[j] == '%' {
			b.WriteByte('%')
			i = j
			continue
		}
		a := e.Args[ai]
		ai++
		switch f[j] {
		case 'd':
			v := int64(a.Bits())
			switch mod {
			case "hh":
				v = int64(int8(v))
			case "h":
				v = int64(int16(v))
			case "":
				v = int64(int32(v))
			}
			fmt.Fprint(&b, v)
		case 'u':
			v := a.Bits()
			switch mod {
			case "hh":
				v = uint64(uint8(v))
			case "h":
				v = uint64(uint16(v))
			case "":
				v = uint64(uint32(v))
			}
			fmt.Fprint(&b, v)
		case 'f':
			fmt.Fprintf(&b, "%.3f", a.F)
		case 's':
			b.Write(m.Str(a))
		case 'p':
			b.WriteString("PTR")
		case 'c':
			b.WriteByte(byte(a.U))
		default:
			b.WriteString("?")
		}
		i = j
	}
	return b.String()
}

func main() {
	for _, file := range os.Args[1:] {
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Println(filepath.Base(file), "PANIC", r)
				}
			}()
			txt, _ := os.ReadFile(file)
			os.Chdir(filepath.Dir(file))
			p := parser.New(lexer.New(string(txt)))
			root := p.Parse()
			if len(p.Errors) > 0 {
				fmt.Println(filepath.Base(file), "PARSE", p.Errors)
				return
			}
			semantic.ResetPaths()
			s := semantic.New()
			s.Analyze(root)
			if len(s.Errors) > 0 {
				fmt.Println(filepath.Base(file), "SEMANTIC", s.Errors)
				return
			}
			c := compiler.New(s)
			c.Compile(root)
			m := rt.FieldOfType(c, "*github.com/llir/llvm/ir.Module").(*ir.Module)
			chk := irx.Check(m)
			ll := "/tmp/irxval.ll"
			fd, _ := os.Create(ll)
			m.WriteTo(fd)
			fd.Close()
			as, aserr := exec.Command("llvm-as", "-o", "/dev/null", ll).CombinedOutput()
			if (chk == "") != (aserr == nil) {
				fmt.Println(filepath.Base(file), "CHECK-DISAGREES irx:", chk, "llvm-as:", string(as))
			}
			mm := irx.New(m)
			mm.Max = 3000000
			_, trap := mm.Run("main")
			var b strings.Builder
			for _, e := range mm.Events {
				if e.Name == "printf" {
					b.WriteString(sprint(mm, e))
				}
			}
			out, err := exec.Command("timeout", "10", "lli", ll).CombinedOutput()
			st := "OK"
			if b.String() != string(out) {
				st = "DIFF"
			}
			if trap != "" {
				st = "TRAP " + trap
			}
			fmt.Println(filepath.Base(file), st, "check:", chk)
			if st != "OK" {
				fmt.Printf("  irx %.300q\n  lli %.300q %v\n", b.String(), out, err)
			}
		}()
	}
}
