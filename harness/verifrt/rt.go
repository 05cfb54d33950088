// Package verifrt is the harness runtime. Symbolically, the engine intercepts
// these functions; natively (replay), they read recorded values.
package verifrt

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"unsafe"
)

type Replay struct {
	Harness string   `json:"harness"`
	Inputs  []uint64 `json:"inputs"`
	Tier    int      `json:"tier"`
}

var vals []uint64
var pos int
var tier int
var out []string
var dir string

func next() uint64 {
	if pos >= len(vals) {
		finish("DIVERGED inputs exhausted", 5)
	}
	v := vals[pos]
	pos++
	return v
}

func Int64(name string) int64     { return int64(next()) }
func Int32(name string) int32     { return int32(next()) }
func Int16(name string) int16     { return int16(next()) }
func Int8(name string) int8       { return int8(next()) }
func Uint64(name string) uint64   { return next() }
func Uint32(name string) uint32   { return uint32(next()) }
func Uint16(name string) uint16   { return uint16(next()) }
func Byte(name string) byte       { return byte(next()) }
func Bool(name string) bool       { return next()&1 != 0 }
func Float64(name string) float64 { return math.Float64frombits(next()) }
func Float32(name string) float32 { return math.Float32frombits(uint32(next())) }

// Choose returns a value in [0,n); every value is explored.
func Choose(name string, n int) int {
	v := int(next())
	if v < 0 || v >= n {
		finish("DIVERGED choice out of range", 5)
	}
	return v
}

func Assume(c bool) {
	if !c {
		finish("INFEASIBLE", 4)
	}
}

func Assert(c bool, label string) {
	if !c {
		finish("ASSERT-FAIL "+label, 3)
	}
}

func Fail(label string) { Assert(false, label) }

func Cover(label string)     {}
func Case(label string)      {}
func AllowExit(b bool)       {}
func DiagnosedExit(b bool)   {}
func MapOrder(mode int)      {}
func RandomNames(mode int)   {}
func NoMerge(b bool)         {}
func MaxSteps(n int)         {}
func Tier() int              { return tier }
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return Or(!a, b) }
func IteI64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func SameF64(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (a != a && b != b)
}
func SameF32(a, b float32) bool {
	return math.Float32bits(a) == math.Float32bits(b) || (a != a && b != b)
}
func F64bits(f float64) uint64     { return math.Float64bits(f) }
func F64frombits(u uint64) float64 { return math.Float64frombits(u) }
func F32bits(f float32) uint32     { return math.Float32bits(f) }
func F32frombits(u uint32) float32 { return math.Float32frombits(u) }

// Log records an observation compared between the symbolic and native runs.
func Log(label string, v interface{}) {
	if v == nil {
		out = append(out, label+"=<nil>")
		return
	}
	out = append(out, label+"="+fmt.Sprint(v))
}

// Pick explores every feasible value of x.
func Pick(x int64) int64 { return x }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return b
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			recover()
		}
	}()
	f()
	panicked = false
	return
}

// findField returns the value of the first field of *x whose type prints as name.
func findField(x interface{}, name string) interface{} {
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if typeName(f.Type()) == name {
			return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
		}
	}
	return nil
}

func typeName(t reflect.Type) string {
	if t.Kind() == reflect.Ptr {
		return "*" + t.Elem().PkgPath() + "." + t.Elem().Name()
	}
	return t.String()
}

// FieldOfType is findField for harnesses.
func FieldOfType(x interface{}, name string) interface{} { return findField(x, name) }

// VFSDir is the directory module files are written to.
func VFSDir() string {
	if dir == "" {
		d, err := os.MkdirTemp("", "verifvfs")
		if err != nil {
			panic(err)
		}
		dir = d
		if err := os.Chdir(d); err != nil {
			panic(err)
		}
	}
	return dir
}

// WriteFile creates a source file visible to imports.
func WriteFile(name, content string) {
	VFSDir()
	if err := os.MkdirAll(filepath.Dir(name), 0o700); err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, []byte(content), 0o600); err != nil {
		panic(err)
	}
}

// tool records what it's called with, and makes a program that records that it ran.
const tool = `#!/bin/sh
printf '%s' "$0" >> .commands
for a in "$@"; do printf '\001%s' "$a" >> .commands; done
printf '\n' >> .commands
for a in "$@"; do case "$a" in *.ll) [ -f "$a" ] && cat "$a" > .compiled;; esac; done
[ -e .toolfails ] && exit 1
out= prev=
for a in "$@"; do [ "$prev" = -o ] && out=$a; prev=$a; done
if [ -n "$out" ]; then printf '#!/bin/sh\nprintf "%%s\\n" "$0" >> .commands\n' > "$out"; chmod +x "$out"; fi
exit 0
`

// Tool is a command that stands for a C compiler.
func Tool() string {
	VFSDir()
	if err := os.WriteFile("tool", []byte(tool), 0o755); err != nil {
		panic(err)
	}
	return "./tool"
}

// Program makes a program that records that it ran.
func Program(name string) {
	VFSDir()
	if err := os.WriteFile(name, []byte("#!/bin/sh\nprintf '%s\\n' \"$0\" >> .commands\n"), 0o755); err != nil {
		panic(err)
	}
}

// ToolFails makes the tool fail.
func ToolFails(yes bool) {
	if yes {
		WriteFile(".toolfails", "")
	}
}

// Commands are the tools and programs that ran, with their arguments, separated by \x01.
func Commands() []string {
	b, _ := os.ReadFile(".commands")
	if len(b) == 0 {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
}

// Compiled is the text of the module that the tool was given last.
func Compiled() string {
	b, _ := os.ReadFile(".compiled")
	return string(b)
}

// CopyTo copies the files written so far to a directory and goes there.
func CopyTo(name string) {
	VFSDir()
	type file struct{ name, text string }
	var all []file
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			r, _ := filepath.Rel(dir, p)
			all = append(all, file{r, string(b)})
		}
		return nil
	})
	if err := os.MkdirAll(name, 0o700); err != nil {
		panic(err)
	}
	for _, f := range all {
		WriteFile(filepath.Join(name, f.name), f.text)
	}
	if err := os.Chdir(name); err != nil {
		panic(err)
	}
}

type result struct {
	Outcome string   `json:"outcome"`
	Logs    []string `json:"logs"`
}

func finish(outcome string, code int) {
	b, _ := json.Marshal(result{outcome, out})
	fmt.Fprintln(os.Stderr, "\nVERIF-RESULT "+string(b))
	if dir != "" {
		os.RemoveAll(dir)
	}
	os.Exit(code)
}

// Main runs one recorded case: argv[1] is the replay file.
func Main(table map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	vals, tier = r.Inputs, r.Tier
	f := table[r.Harness]
	if f == nil {
		finish("DIVERGED no harness "+r.Harness, 5)
	}
	f()
	finish("done", 0)
}
