package cg

import (
	"os"
	"strings"

	"github.com/gabivlj/candice/internals/build"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// candice is the command: what it makes run is what the tool records.
func candice(args ...string) []string {
	before := len(rt.Commands())
	old := os.Args
	os.Args = append([]string{"candice"}, args...)
	build.ExecuteProject()
	os.Args = old
	all := rt.Commands()[before:]
	for _, c := range all {
		rt.Log("command", c)
	}
	return all
}

// config is the text of a candice.json.
func config(kind, binary, output string, flags ...string) string {
	s := "{\"name\": \"project\", \"entrypoint\": \"main.cd\", \"cxx\": \"" + rt.Tool() + "\", \"kind\": \"" + kind + "\", \"flags\": ["
	for i, f := range flags {
		if i > 0 {
			s += ", "
		}
		s += "\"" + f + "\""
	}
	s += "], \"output\": \"" + output + "\""
	if binary != "" {
		s += ", \"binary\": \"" + binary + "\""
	}
	return s + "}"
}

// compiles is whether a command compiles to out with those flags, in order.
func compiles(cmd, out string, release, object bool, flags ...string) bool {
	args := strings.Split(cmd, "\x01")
	if args[0] != "./tool" {
		return false
	}
	modules, outs, opt, obj := 0, 0, false, false
	for i := 1; i < len(args); i++ {
		a := args[i]
		switch {
		case len(flags) > 0 && a == flags[0]:
			flags = flags[1:]
		case a == "-o" && i+1 < len(args):
			outs++
			i++
			if args[i] != out {
				return false
			}
		case strings.HasSuffix(a, ".ll"):
			modules++
		case a == "-O3" && release:
			opt = true
		case a == "-mllvm" && release:
			i++
		case a == "-c" && object:
			obj = true
		default:
			return false
		}
	}
	return modules == 1 && outs == 1 && opt == release && obj == object && len(flags) == 0
}

func exists(name string) bool {
	_, err := os.ReadFile(name)
	return err == nil
}

// plain is a word of n letters that are no special ones.
func plain(what string, n int) string {
	w := rt.Bytes(what, n)
	for _, c := range w {
		rt.Assume(rt.And(c >= 'a', c <= 'z'))
	}
	return string(w)
}

// H_C30_command: what runs is what the configuration and the command say.
func H_C30_command() {
	kind := []string{"cxx", "llvm"}[rt.Choose("kind", 2)]
	binary := []string{"", "exe", "obj"}[rt.Choose("binary", 3)]
	mode := []string{"build", "run"}[rt.Choose("mode", 2)]
	release := rt.Choose("release", 3)
	fails := rt.Choose("fails", 2) == 1
	if kind == "llvm" && binary == "obj" {
		return // LLVM isn't linked with the compiler on this machine
	}
	out := []string{"p", "out_1.bin"}[rt.Choose("output", 2)]
	flags := []string{}
	for i := rt.Choose("flags", 4); i > 0; i-- {
		flags = append(flags, []string{"-lm", "-D" + plain("flag", 1), "-lm"}[i-1])
	}
	adds, inner := "", []string{}
	for i := rt.Choose("added", 3); i > 0; i-- {
		f := []string{"-lz", "-g" + plain("added", 1)}[i-1]
		adds += "@add_compiler_flag(\"" + f + "\"); "
		inner = append(inner, f)
	}
	rt.WriteFile("candice.json", config(kind, binary, out, flags...))
	rt.WriteFile("main.cd", "func main() i32 { "+adds+"return 4242; }")
	rt.ToolFails(fails)
	old := rt.Choose("old", 3)
	if old > 0 { // there is one of an earlier build, or of the user
		name := out
		if binary == "obj" && old == 2 {
			name += ".o"
		}
		rt.Program(name)
	}
	args := []string{mode, "."}
	if release > 0 {
		args = append(args, [][]string{{"--release"}, {"-x", "--release"}}[release-1]...)
	}
	ran := candice(args...)
	object := binary == "obj"
	if object {
		out += ".o"
	}
	n := 1
	if mode == "run" && !object && !fails {
		n = 2
	}
	rt.Assert(len(ran) == n, "it compiles once, and runs the program if that's asked for and possible")
	rt.Assert(compiles(ran[0], out, release > 0, object, append(flags, inner...)...), "it compiles to the output, with the flags of the configuration, of the program and of the mode")
	if n == 2 {
		rt.Assert(ran[1] == "./"+out, "it runs the output")
	}
	rt.Assert(strings.Contains(rt.Compiled(), "ret i32 4242"), "it compiles the program")
	if kind == "cxx" {
		rt.Assert(!exists(".intermediate_output.ll"), "nothing is left behind")
	}
	rt.Cover("end")
}

// H_C30_arguments: the flags are passed as they are, whatever they are.
func H_C30_arguments() {
	binary := []string{"exe", "obj"}[rt.Choose("binary", 2)]
	kind := "cxx"
	if binary == "exe" {
		kind = []string{"cxx", "llvm"}[rt.Choose("kind", 2)]
	}
	release := rt.Choose("release", 2) == 1
	letters := plain("letters", 2)
	pool := []string{"-" + letters, "-O3", "-c", "two words", "", "-lz", "c_objects/a.o", "-O0"}
	some := func(what string, n int) (all []string) {
		for i := rt.Choose("number of "+what, n+1); i > 0; i-- {
			all = append(all, pool[rt.Choose(what, len(pool))])
		}
		return
	}
	flags, adds := some("flags", 2), some("added", 2)
	rt.WriteFile("candice.json", config(kind, binary, "prog", flags...))
	src := ""
	if len(adds) > 0 {
		src = "@add_compiler_flag(\"" + strings.Join(adds, "\", \"") + "\");"
	}
	rt.WriteFile("main.cd", "func main() i32 { "+src+" return 4242; }")
	args := []string{"build", "."}
	if release {
		args = append(args, "--release")
	}
	ran := candice(args...)
	out := "prog"
	if binary == "obj" {
		out += ".o"
	}
	rt.Assert(len(ran) == 1, "it compiles once")
	rt.Assert(compiles(ran[0], out, release, binary == "obj", append(flags, adds...)...), "it compiles to the output, with the flags of the configuration, of the program and of the mode")
	rt.Cover("end")
}

// H_C30_flags: the flags of a program, wherever it adds them.
func H_C30_flags() {
	f := "-D" + plain("flag", 1)
	add := "@add_compiler_flag(\"" + f + "\");"
	type place struct {
		main, mod, other string
		flags            []string
	}
	places := []place{
		{"func main() i32 { # return 4242; }", "", "", []string{f}},
		{"func main() i32 { # # return 4242; }", "", "", []string{f, f}},
		{"func main() i32 { @add_compiler_flag(\"-a\", \"-b\"); # return 4242; }", "", "", []string{"-a", "-b", f}},
		{"func main() i32 { # @add_compiler_flag(\"-b\"); return 4242; }", "", "", []string{f, "-b"}},
		{"func main() i32 { @add_compiler_flag(\"-b\", \"-a\", \"-b\", \"-a\"); # # return 4242; }", "", "", []string{"-b", "-a", "-b", "-a", f, f}},
		{"func g() { @add_compiler_flag(\"-b\"); @add_compiler_flag(\"-first\"); } func main() i32 { @add_compiler_flag(\"-b\"); # return 4242; }", "", "", []string{"-b", "-first", "-b", f}},
		{"func g() { # } func main() i32 { @add_compiler_flag(\"-b\"); return 4242; } func h() { @add_compiler_flag(\"-c3\"); }", "", "", []string{f, "-b", "-c3"}},
		{"func main() i32 { if 0 == 1 { # } else { @add_compiler_flag(\"-b\"); } return 4242; }", "", "", []string{f, "-b"}},
		{"func main() i32 { for i := 0; i < 3; ++i { # } return 4242; }", "", "", []string{f}},
		{"func main() i32 { switch 3 { case 1 { # } case 2 { @add_compiler_flag(\"-b\"); } default { } } return 4242; }", "", "", []string{f, "-b"}},
		{"func main() i32 { { # } return 4242; }", "", "", []string{f}},
		{"func main() i32 { g := func() { # }; g(); @add_compiler_flag(\"-b\"); return 4242; }", "", "", []string{f, "-b"}},
		{"func main() i32 { x := : i32 { # return 5; }; @add_compiler_flag(\"-b\"); return 4242; }", "", "", []string{f, "-b"}},
		{"func main() i32 { #if LINUX { # } #if WINDOWS { @add_compiler_flag(\"-b\"); } return 4242; }", "", "", []string{f}},
		{"func main() i32 { #if 1 { #if 0 { @add_compiler_flag(\"-b\"); } # } return 4242; }", "", "", []string{f}},
		{"#if 1 { func g() { # } } #if 0 { func h() { @add_compiler_flag(\"-b\"); } } func main() i32 { return 4242; }", "", "", []string{f}},
		{"import m, \"m.cd\"; func main() i32 { @add_compiler_flag(\"-b\"); return 4242; }", "func g() { # }", "", []string{f, "-b"}},
		{"import m, \"m.cd\"; import n, \"m.cd\"; func main() i32 { m.g(); n.g(); return 4242; }", "func g() { # }", "", []string{f}},
		{"import m, \"m.cd\"; import n, \"n.cd\"; func main() i32 { n.h(); return 4242; }", "func g() { # }", "import m, \"m.cd\"; func h() { m.g(); @add_compiler_flag(\"-b\"); }", []string{f, "-b"}},
		{"import n, \"n.cd\"; import m, \"m.cd\"; func main() i32 { n.h(); return 4242; }", "func g() { # }", "import m, \"m.cd\"; func h() { m.g(); @add_compiler_flag(\"-b\"); }", []string{f, "-b"}},
		{"import n, \"n.cd\"; import m, \"m.cd\"; func main() i32 { return 4242; }", "func g() { # }", "func h() { @add_compiler_flag(\"-b\"); }", []string{"-b", f}},
		{"#if 0 { import m, \"m.cd\"; } func main() i32 { @add_compiler_flag(\"-b\"); return 4242; }", "func g() { # }", "", []string{"-b"}},
	}
	k := places[rt.Choose("place", len(places))]
	put := func(s string) string {
		return strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(s, "#if", "%if"), "#", add), "%if", "#if")
	}
	rt.WriteFile("candice.json", config("cxx", "", "prog", "-first"))
	rt.WriteFile("main.cd", put(k.main))
	rt.WriteFile("m.cd", put(k.mod))
	rt.WriteFile("n.cd", put(k.other))
	ran := candice("build", ".")
	rt.Assert(len(ran) == 1, "it compiles once")
	rt.Assert(compiles(ran[0], "prog", false, false, append([]string{"-first"}, k.flags...)...), "it compiles with the flags of the program, in order")
	rt.Cover("end")
}

// H_C30_nothing: nothing is compiled, and nothing runs, if something is wrong.
func H_C30_nothing() {
	good := "func main() i32 { @add_compiler_flag(\"-b\"); return 4242; }"
	conf, main := config("cxx", "exe", "prog", "-a"), good
	args := []string{[]string{"run", "build"}[rt.Choose("mode", 2)], "."}
	if rt.Choose("release", 2) == 1 {
		args = append(args, "--release")
	}
	rt.Program("prog")
	mine, _ := os.ReadFile("prog")
	switch rt.Choose("what", 12) {
	case 0:
		main = good + " }"
	case 1:
		main = "func main() i32 { return x; }"
	case 2:
		main = "func main() i32 { return 1 +; }"
	case 3:
		main = "import m, \"m.cd\"; " + good
	case 4:
		main = "import m, \"m.cd\"; " + good
		rt.WriteFile("m.cd", "func g() i32 { return y; }")
	case 5:
		main = "import m, \"m.cd\"; " + good
		rt.WriteFile("m.cd", "func g( { }")
	case 6:
		conf = conf[:rt.Choose("cut", len(conf))]
	case 7:
		conf = config("gcc", "exe", "prog")
	case 8:
		conf = config("", "exe", "prog")
	case 9:
		conf = strings.Replace(conf, "\"flags\": [\"-a\"]", "\"flags\": \"-a\"", 1)
	case 10:
		conf = strings.Replace(conf, "main.cd", "other.cd", 1)
	case 11:
		args = args[:1+rt.Choose("arguments", 1)]
	}
	rt.WriteFile("candice.json", conf)
	rt.WriteFile("main.cd", main)
	ran := candice(args...)
	rt.Assert(len(ran) == 0, "nothing is compiled and nothing runs")
	b, err := os.ReadFile("prog")
	rt.Assert(err == nil && string(b) == string(mine), "what was built before stays")
	rt.Cover("end")
}

// H_C30_init: a new project builds and runs.
func H_C30_init() {
	dir := []string{".", "sub", "sub/sub"}[rt.Choose("dir", 3)]
	if dir != "." {
		rt.WriteFile(dir+"/x", "")
	}
	rt.Assert(len(candice("init", dir)) == 0, "nothing runs")
	conf, err := os.ReadFile(dir + "/candice.json")
	rt.Assert(err == nil, "there is a configuration")
	main, err := os.ReadFile(dir + "/main.cd")
	rt.Assert(err == nil, "there is a program")
	rt.Assert(strings.Contains(string(conf), "\"clang\""), "it's compiled by clang")
	rt.WriteFile("candice.json", strings.Replace(string(conf), "\"clang\"", "\""+rt.Tool()+"\"", 1))
	rt.WriteFile("main.cd", string(main))
	ran := candice("run", ".")
	rt.Assert(len(ran) == 2, "it is compiled and runs")
	rt.Assert(compiles(ran[0], "program", false, false, "-m64"), "it's compiled to program")
	rt.Assert(ran[1] == "./program", "the program runs")
	rt.Assert(strings.Contains(rt.Compiled(), "Hello world!"), "it greets the world")
	rt.Cover("end")
}

// H_C30_again: a second build depends on what there is then, and on nothing else.
func H_C30_again() {
	rt.WriteFile("candice.json", config("cxx", "", "prog", "-a"))
	rt.WriteFile("main.cd", "func main() i32 { @add_compiler_flag(\"-b\"); return 4242; }")
	first := candice([]string{"run", "build", "tree"}[rt.Choose("mode", 3)], []string{".", "main.cd"}[rt.Choose("path", 2)])
	_ = first
	out := []string{"q", "prog"}[rt.Choose("output", 2)]
	if rt.Choose("fails", 2) == 1 {
		rt.WriteFile("main.cd", "func main() i32 { return x; }")
		rt.Assert(len(candice("run", ".")) == 0, "a program that's wrong now isn't compiled or run, even if one was built before")
	}
	rt.WriteFile("candice.json", config("cxx", "", out, "-c2"))
	rt.WriteFile("main.cd", "func main() i32 { @add_compiler_flag(\"-d\"); return 2121; }")
	ran := candice("run", ".")
	rt.Assert(len(ran) == 2, "it compiles once, and runs")
	rt.Assert(compiles(ran[0], out, false, false, "-c2", "-d"), "it compiles to the output, with the flags there are now")
	rt.Assert(ran[1] == "./"+out, "it runs the output")
	rt.Assert(strings.Contains(rt.Compiled(), "ret i32 2121"), "it compiles the program there is now")
	rt.Cover("end")
}
