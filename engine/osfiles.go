package main

import (
	"encoding/json"
	"go/types"
	"path"
	"reflect"
	"strings"
)

// Files, commands and configurations: what a build of a project touches.
// Files live in p.extra["vfs"]; commands are recorded, and only the tool of
// rt.Tool and what it makes exist.

type handle struct {
	name string
	at   int
	out  bool // a stream that is no file
}

type recorder struct {
	cmds  []V
	files map[*V]*handle
	made  map[string]bool
	procs map[*V][]V
	fails bool
	text  V
	dec   map[*V]V
}

func (p *Path) rec() *recorder {
	r, _ := p.extra["rec"].(*recorder)
	if r == nil {
		r = &recorder{files: map[*V]*handle{}, made: map[string]bool{}, procs: map[*V][]V{}, dec: map[*V]V{}}
		p.extra["rec"] = r
	}
	return r
}

func (p *Path) vfs() map[string]V {
	vfs, _ := p.extra["vfs"].(map[string]V)
	if vfs == nil {
		vfs = map[string]V{}
		p.extra["vfs"] = vfs
	}
	return vfs
}

// vfsName is the key of a path; relative ones are looked up as they are.
func vfsName(name string) string {
	return strings.TrimPrefix(path.Clean(name), "/vfs/")
}

func (p *Path) isDir(name string) bool {
	if name == "." || name == "/vfs" || name == "" {
		return true
	}
	for n := range p.vfs() {
		if strings.HasPrefix(n, name+"/") {
			return true
		}
	}
	return false
}

// stream are the globals of os that a path may read; the streams stay nil.
var stream = map[string]bool{"os.Stdin": true, "os.Stdout": true, "os.Stderr": true, "os.Args": true}

func newOf(t *TI) V { // a new zero value of what the pointer type points to
	v := zero(t.elem)
	return V{r: &v}
}

func init() {
	add := map[string]intrFn{
		rt + "Tool":      func(p *Path, fn *Fn, args []V) V { return mkStr("./tool") },
		rt + "ToolFails": func(p *Path, fn *Fn, args []V) V { p.rec().fails = p.condV(args[0]); return V{} },
		rt + "Program": func(p *Path, fn *Fn, args []V) V {
			name := p.cstr(args[0])
			p.vfs()[name] = mkStr("program")
			p.rec().made[name] = true
			return V{}
		},
		rt + "Commands": func(p *Path, fn *Fn, args []V) V { return V{r: append([]V(nil), p.rec().cmds...)} },
		rt + "Compiled": func(p *Path, fn *Fn, args []V) V { return p.rec().text },
		"os.Open": func(p *Path, fn *Fn, args []V) V {
			name := p.cstr(args[0])
			if _, ok := p.vfs()[vfsName(name)]; !ok {
				return V{r: Tuple{{}, p.mkError("open " + name + ": no such file or directory")}}
			}
			f := newOf(fn.resT.fields[0])
			p.rec().files[f.r.(*V)] = &handle{name: vfsName(name)}
			return okErr(f)
		},
		"os.Create": func(p *Path, fn *Fn, args []V) V {
			name := p.cstr(args[0])
			if !p.isDir(path.Dir(vfsName(name))) {
				return V{r: Tuple{{}, p.mkError("open " + name + ": no such file or directory")}}
			}
			p.vfs()[vfsName(name)] = V{}
			delete(p.rec().made, vfsName(name))
			f := newOf(fn.resT.fields[0])
			p.rec().files[f.r.(*V)] = &handle{name: vfsName(name)}
			return okErr(f)
		},
		"os.WriteFile": func(p *Path, fn *Fn, args []V) V {
			name := p.cstr(args[0])
			if !p.isDir(path.Dir(vfsName(name))) {
				return p.mkError("open " + name + ": no such file or directory")
			}
			p.vfs()[vfsName(name)] = strFrom(append([]V(nil), sliceOf(args[1])...))
			return V{}
		},
		"os.Remove": func(p *Path, fn *Fn, args []V) V {
			name := p.cstr(args[0])
			if _, ok := p.vfs()[vfsName(name)]; !ok {
				return p.mkError("remove " + name + ": no such file or directory")
			}
			delete(p.vfs(), vfsName(name))
			delete(p.rec().made, vfsName(name))
			return V{}
		},
		"os.Stat": func(p *Path, fn *Fn, args []V) V {
			name := p.cstr(args[0])
			if _, ok := p.vfs()[vfsName(name)]; ok || p.isDir(vfsName(name)) {
				return okErr(V{})
			}
			return V{r: Tuple{{}, p.mkError("stat " + name + ": no such file or directory")}}
		},
		"os.Lstat": func(p *Path, fn *Fn, args []V) V {
			name := p.cstr(args[0])
			if _, ok := p.vfs()[vfsName(name)]; ok || p.isDir(vfsName(name)) {
				return okErr(V{})
			}
			return V{r: Tuple{{}, p.mkError("stat " + name + ": no such file or directory")}}
		},
		"(*os.File).Close": noop,
		"(*os.File).Write": func(p *Path, fn *Fn, args []V) V {
			ptr, _ := args[0].r.(*V)
			b := sliceOf(args[1])
			if ptr == nil { // a standard stream
				return okErr(V{u: uint64(len(b))})
			}
			if h := p.rec().files[ptr]; h != nil {
				vfs := p.vfs()
				vfs[h.name] = strFrom(append(append([]V(nil), strBytes(vfs[h.name])...), b...))
			}
			return okErr(V{u: uint64(len(b))})
		},
		"(*os.File).WriteString": func(p *Path, fn *Fn, args []V) V {
			if ptr, _ := args[0].r.(*V); ptr != nil {
				if h := p.rec().files[ptr]; h != nil {
					vfs := p.vfs()
					vfs[h.name] = strFrom(append(append([]V(nil), strBytes(vfs[h.name])...), strBytes(args[1])...))
				}
			}
			return okErr(V{u: uint64(strLen(args[1]))})
		},
		"(*os.File).Read": func(p *Path, fn *Fn, args []V) V {
			h := p.rec().files[args[0].r.(*V)]
			if h == nil {
				p.fatal("reading a file that isn't open")
			}
			text := strBytes(p.vfs()[h.name])
			b := sliceOf(args[1])
			n := 0
			for n < len(b) && h.at < len(text) {
				b[n] = text[h.at]
				n, h.at = n+1, h.at+1
			}
			if n == 0 && len(b) > 0 {
				return V{r: Tuple{{}, *p.global(globalIndex(p.w.eng.pkgs["io"].Var("EOF")))}}
			}
			return okErr(V{u: uint64(n)})
		},
		"os/exec.Command": func(p *Path, fn *Fn, args []V) V {
			c := newOf(fn.resT.fields[0])
			p.rec().procs[c.r.(*V)] = append([]V{args[0]}, sliceOf(args[1])...)
			return c
		},
		"os/exec.LookPath":   func(p *Path, fn *Fn, args []V) V { return okErr(args[0]) },
		"(*os/exec.Cmd).Run": func(p *Path, fn *Fn, args []V) V { return p.runCommand(args[0]) },
		"encoding/json.NewDecoder": func(p *Path, fn *Fn, args []V) V {
			d := newOf(fn.resT.fields[0])
			p.rec().dec[d.r.(*V)] = args[0]
			return d
		},
		"(*encoding/json.Decoder).Decode": func(p *Path, fn *Fn, args []V) V {
			it, _ := p.rec().dec[args[0].r.(*V)].r.(*Iface)
			if it == nil {
				p.fatal("decoding from nothing")
			}
			ptr, _ := it.v.r.(*V)
			h := p.rec().files[ptr]
			if h == nil {
				p.fatal("decoding what isn't a file")
			}
			text := strBytes(p.vfs()[h.name])[h.at:]
			h.at += len(text)
			return p.unjson(text, args[1])
		},
		"encoding/json.Unmarshal": func(p *Path, fn *Fn, args []V) V {
			return p.unjson(sliceOf(args[0]), args[1])
		},
		"io.ReadAll": func(p *Path, fn *Fn, args []V) V {
			it, _ := args[0].r.(*Iface)
			if it != nil {
				if ptr, _ := it.v.r.(*V); ptr != nil {
					if h := p.rec().files[ptr]; h != nil {
						text := strBytes(p.vfs()[h.name])[h.at:]
						h.at += len(text)
						return okErr(V{r: append([]V(nil), text...)})
					}
				}
			}
			return p.callBody(fn, args, nil, nil)
		},
	}
	for n, f := range add {
		intrinsics[n] = f
	}
}

// runCommand runs the tool, or what it made.
func (p *Path) runCommand(cmd V) V {
	r := p.rec()
	argv := r.procs[cmd.r.(*V)]
	if argv == nil {
		p.fatal("a command that was not made with exec.Command")
	}
	name := p.cstr(argv[0])
	var line []V
	for i, a := range argv {
		if i > 0 {
			line = append(line, V{u: 1})
		}
		line = append(line, strBytes(a)...)
	}
	if strings.HasPrefix(name, "./") && r.made[vfsName(name)] {
		r.cmds = append(r.cmds, mkStr(name))
		return V{}
	}
	if name != "./tool" {
		return p.mkError("fork/exec " + name + ": no such file or directory")
	}
	r.cmds = append(r.cmds, strFrom(line))
	out := ""
	for i, a := range argv[1:] {
		s, ok := strConc(a)
		if !ok {
			s = "" // only outputs are named by letters that aren't known
		}
		if strings.HasSuffix(s, ".ll") {
			if text, ok := p.vfs()[vfsName(s)]; ok {
				r.text = text
			}
		}
		if i > 0 {
			if prev, ok := strConc(argv[i]); ok && prev == "-o" {
				out = p.cstr(a)
			}
		}
	}
	if r.fails {
		return p.mkError("exit status 1")
	}
	if out != "" {
		p.vfs()[vfsName(out)] = mkStr("program")
		r.made[vfsName(out)] = true
	}
	return V{}
}

// jsonValue is a value of a configuration; its strings can have symbolic letters.
type jsonValue struct {
	kind byte // s a o n b z(null)
	str  V
	arr  []*jsonValue
	keys []V
}

type jsonParser struct {
	p *Path
	b []V
	i int
}

type badJSON struct{}

func (j *jsonParser) peek() byte {
	if j.i >= len(j.b) {
		panic(badJSON{})
	}
	if j.b[j.i].r != nil {
		j.p.fatal("a configuration whose structure is symbolic")
	}
	return byte(j.b[j.i].u)
}

func (j *jsonParser) space() {
	for j.i < len(j.b) && j.b[j.i].r == nil && strings.IndexByte(" \t\r\n", byte(j.b[j.i].u)) >= 0 {
		j.i++
	}
}

func (j *jsonParser) want(s string) {
	for k := 0; k < len(s); k++ {
		if j.peek() != s[k] {
			panic(badJSON{})
		}
		j.i++
	}
}

func (j *jsonParser) value() *jsonValue {
	j.space()
	switch c := j.peek(); {
	case c == '"':
		return &jsonValue{kind: 's', str: j.strLit()}
	case c == '[':
		j.i++
		v := &jsonValue{kind: 'a'}
		j.space()
		if j.peek() == ']' {
			j.i++
			return v
		}
		for {
			v.arr = append(v.arr, j.value())
			j.space()
			if j.peek() == ',' {
				j.i++
				continue
			}
			j.want("]")
			return v
		}
	case c == '{':
		j.i++
		v := &jsonValue{kind: 'o'}
		j.space()
		if j.peek() == '}' {
			j.i++
			return v
		}
		for {
			j.space()
			if j.peek() != '"' {
				panic(badJSON{})
			}
			v.keys = append(v.keys, j.strLit())
			j.space()
			j.want(":")
			v.arr = append(v.arr, j.value())
			j.space()
			if j.peek() == ',' {
				j.i++
				continue
			}
			j.want("}")
			return v
		}
	case c == 't':
		j.want("true")
		return &jsonValue{kind: 'b'}
	case c == 'f':
		j.want("false")
		return &jsonValue{kind: 'b'}
	case c == 'n':
		j.want("null")
		return &jsonValue{kind: 'z'}
	case c == '-' || c >= '0' && c <= '9':
		st := j.i
		for j.i < len(j.b) && j.b[j.i].r == nil && strings.IndexByte("+-0123456789.eE", byte(j.b[j.i].u)) >= 0 {
			j.i++
		}
		s, _ := strConc(strFrom(append([]V(nil), j.b[st:j.i]...)))
		if !json.Valid([]byte(s)) {
			panic(badJSON{})
		}
		return &jsonValue{kind: 'n'}
	}
	panic(badJSON{})
}

func (j *jsonParser) strLit() V {
	j.i++
	st := j.i
	sym := false
	for {
		if j.i >= len(j.b) {
			panic(badJSON{})
		}
		c := j.b[j.i]
		if t, ok := c.r.(*Term); ok {
			// the letters of names that aren't known are plain ones
			x := j.p.w.ctx
			for _, bad := range []uint64{'"', '\\'} {
				if j.p.branchV(x.eq(t, x.konst(8, bad))) {
					j.p.fatal("a symbolic quote in a configuration")
				}
			}
			if j.p.branchV(x.ult(t, x.konst(8, ' '))) || j.p.branchV(x.ult(x.konst(8, 126), t)) {
				j.p.fatal("a symbolic control character in a configuration")
			}
			sym = true
			j.i++
			continue
		}
		if c.u == '"' {
			j.i++
			break
		}
		if c.u == '\\' {
			j.i++
		}
		j.i++
	}
	if sym {
		return strFrom(append([]V(nil), j.b[st:j.i-1]...))
	}
	s, _ := strConc(strFrom(append([]V(nil), j.b[st-1:j.i]...)))
	var out string
	if err := json.Unmarshal([]byte(s), &out); err != nil {
		panic(badJSON{})
	}
	return mkStr(out)
}

// unjson stores a configuration in what the pointer points to.
func (p *Path) unjson(text []V, to V) (res V) {
	it, _ := to.r.(*Iface)
	if it == nil || it.t.kind != KPtr || it.v.r == nil {
		return p.mkError("json: Unmarshal(nil)")
	}
	var v *jsonValue
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(badJSON); !ok {
					panic(r)
				}
				v = nil
			}
		}()
		v = (&jsonParser{p: p, b: text}).value()
	}()
	if v == nil {
		return p.mkError("invalid JSON")
	}
	if !p.setJSON(v, it.v.r.(*V), it.t.elem) {
		return p.mkError("json: cannot unmarshal")
	}
	return V{}
}

func (p *Path) setJSON(v *jsonValue, to *V, t *TI) bool {
	if v.kind == 'z' {
		return true
	}
	switch t.kind {
	case KString:
		if v.kind != 's' {
			return false
		}
		*to = v.str
		return true
	case KBool, KInt, KFloat:
		p.fatal("a number or boolean in a configuration")
	case KSlice:
		if v.kind != 'a' {
			return false
		}
		ok := true
		out := make([]V, len(v.arr))
		for i, e := range v.arr {
			out[i] = zero(t.elem)
			ok = p.setJSON(e, &out[i], t.elem) && ok
		}
		*to = V{r: out}
		return ok
	case KStruct:
		if v.kind != 'o' {
			return false
		}
		ok := true
		st := t.typ.Underlying().(*types.Struct)
		for i, k := range v.keys {
			key := p.cstr(k)
			found := -1
			for exact := 1; exact >= 0 && found < 0; exact-- {
				for f := 0; f < st.NumFields(); f++ {
					name := st.Field(f).Name()
					if tag, _, _ := strings.Cut(reflect.StructTag(st.Tag(f)).Get("json"), ","); tag == "-" || !st.Field(f).Exported() {
						continue
					} else if tag != "" {
						name = tag
					}
					if name == key || exact == 0 && strings.EqualFold(name, key) {
						found = f
						break
					}
				}
			}
			if found >= 0 {
				ok = p.setJSON(v.arr[i], &to.r.(*Agg).f[found], t.fields[found]) && ok
			}
		}
		return ok
	}
	p.fatal("a configuration with a %s", t.name)
	return false
}
