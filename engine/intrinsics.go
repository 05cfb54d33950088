package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type intrFn = func(p *Path, fn *Fn, args []V) V

var intrinsics map[string]intrFn
var pkgIntrinsics map[string]intrFn

const rt = "github.com/gabivlj/candice/internals/verifrt."

func (p *Path) cstr(v V) string {
	s, ok := strConc(v)
	if ok {
		return s
	}
	// concretise byte by byte
	b := strBytes(v)
	out := make([]byte, len(b))
	for i := range b {
		if t, ok := b[i].r.(*Term); ok {
			out[i] = byte(p.concretize(t))
		} else {
			out[i] = byte(b[i].u)
		}
	}
	return string(out)
}

func noop(p *Path, fn *Fn, args []V) V { return zeroResult(fn) }

func mkInput(w uint8) intrFn {
	return func(p *Path, fn *Fn, args []V) V {
		return V{r: p.newInput(p.cstr(args[0]), w)}
	}
}

func (p *Path) ifaceStr(v V) V {
	return v
}

func okErr(v V) V { return V{r: Tuple{v, {}}} }

func init() {
	sortTheSlice := func(p *Path, args []V) {
		it, _ := args[0].r.(*Iface)
		if it == nil {
			return
		}
		s := sliceOf(it.v)
		// sort.Slice on distinct keys: any correct algorithm gives the same
		// result; we use insertion sort through the caller's less function.
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := p.callClosure(args[1], V{u: uint64(j)}, V{u: uint64(j - 1)})
				if !p.condV(r) {
					break
				}
				a, b := copyV(s[j]), copyV(s[j-1])
				storeV(&s[j], b)
				storeV(&s[j-1], a)
			}
		}
	}
	intrinsics = map[string]intrFn{
		rt + "Int64":   mkInput(64),
		rt + "Int32":   mkInput(32),
		rt + "Int16":   mkInput(16),
		rt + "Int8":    mkInput(8),
		rt + "Uint64":  mkInput(64),
		rt + "Uint32":  mkInput(32),
		rt + "Uint16":  mkInput(16),
		rt + "Byte":    mkInput(8),
		rt + "Bool":    mkInput(0),
		rt + "Float64": mkInput(SF64),
		rt + "Float32": mkInput(SF32),
		rt + "Choose": func(p *Path, fn *Fn, args []V) V {
			n := p.concInt(args[1])
			k := p.choose(n)
			p.inputs = append(p.inputs, Input{Name: p.cstr(args[0]), W: 64, ch: true, val: uint64(k)})
			return V{u: uint64(k)}
		},
		rt + "Pick": func(p *Path, fn *Fn, args []V) V {
			if t, ok := args[0].r.(*Term); ok {
				return V{u: p.concretize(t)}
			}
			return args[0]
		},
		rt + "Assume": func(p *Path, fn *Fn, args []V) V { p.assume(args[0]); return V{} },
		rt + "Assert": func(p *Path, fn *Fn, args []V) V { p.assertV(args[0], p.cstr(args[1])); return V{} },
		rt + "Cover":  func(p *Path, fn *Fn, args []V) V { p.covers[p.cstr(args[0])] = true; return V{} },
		rt + "Case":   func(p *Path, fn *Fn, args []V) V { p.caseName = p.cstr(args[0]); return V{} },
		rt + "Log": func(p *Path, fn *Fn, args []V) V {
			it, _ := args[1].r.(*Iface)
			if it == nil {
				p.events = append(p.events, Event{p.cstr(args[0]), mkStr("<nil>"), nil})
				return V{}
			}
			p.events = append(p.events, Event{p.cstr(args[0]), it.v, it.t})
			return V{}
		},
		rt + "AllowExit": func(p *Path, fn *Fn, args []V) V { p.allowExit = args[0].u != 0; return V{} },
		rt + "DiagnosedExit": func(p *Path, fn *Fn, args []V) V { p.diagExit = args[0].u != 0; return V{} },
		rt + "MapOrder": func(p *Path, fn *Fn, args []V) V {
			p.mapOrder = p.concInt(args[0])
			if p.mapOrder != 0 {
				p.mapUsed = true
			}
			return V{}
		},
		rt + "RandomNames": func(p *Path, fn *Fn, args []V) V { p.randMode = p.concInt(args[0]); p.mapUsed = p.mapUsed || p.randMode != 0; return V{} },
		rt + "Tier":    func(p *Path, fn *Fn, args []V) V { return V{u: uint64(p.w.eng.tier)} },
		rt + "NoMerge": func(p *Path, fn *Fn, args []V) V { p.noMerge = args[0].u != 0; return V{} },
		rt + "MaxSteps": func(p *Path, fn *Fn, args []V) V {
			p.maxSteps = int64(p.concInt(args[0]))
			p.steps = 0
			return V{}
		},
		rt + "And": func(p *Path, fn *Fn, args []V) V { return p.andV(args[0], args[1]) },
		rt + "Or": func(p *Path, fn *Fn, args []V) V {
			return p.notV(p.andV(p.notV(args[0]), p.notV(args[1])))
		},
		rt + "IteI64": func(p *Path, fn *Fn, args []V) V {
			if t, ok := args[0].r.(*Term); ok {
				return p.fromTerm(p.w.ctx.ite(t, p.term(args[1], 64), p.term(args[2], 64)))
			}
			if args[0].u != 0 {
				return args[1]
			}
			return args[2]
		},
		rt + "SameF64": func(p *Path, fn *Fn, args []V) V {
			return p.boolV(p.w.ctx.fsame(p.term(args[0], SF64), p.term(args[1], SF64)))
		},
		rt + "SameF32": func(p *Path, fn *Fn, args []V) V {
			return p.boolV(p.w.ctx.fsame(p.term(args[0], SF32), p.term(args[1], SF32)))
		},
		rt + "F64bits":     func(p *Path, fn *Fn, args []V) V { return p.fbits(args[0], SF64) },
		rt + "F64frombits": func(p *Path, fn *Fn, args []V) V { return p.ffrombits(args[0], SF64) },
		rt + "F32bits":     func(p *Path, fn *Fn, args []V) V { return p.fbits(args[0], SF32) },
		rt + "F32frombits": func(p *Path, fn *Fn, args []V) V { return p.ffrombits(args[0], SF32) },
		rt + "findField": func(p *Path, fn *Fn, args []V) V {
			// findField(x any, typeName string) any: the first field of *x of that type
			it, _ := args[0].r.(*Iface)
			name := p.cstr(args[1])
			ptr := it.v.r.(*V)
			st := it.t.elem
			ag := ptr.r.(*Agg)
			for i, f := range st.fields {
				if f.name == name {
					return V{r: &Iface{t: f, v: copyV(ag.f[i])}}
				}
			}
			return V{}
		},
		rt + "VFSDir": func(p *Path, fn *Fn, args []V) V { return mkStr("/vfs") },
		rt + "WriteFile": func(p *Path, fn *Fn, args []V) V {
			vfs, _ := p.extra["vfs"].(map[string]V)
			if vfs == nil {
				vfs = map[string]V{}
				p.extra["vfs"] = vfs
			}
			vfs[p.cstr(args[0])] = args[1]
			return V{}
		},
		rt + "CopyTo": func(p *Path, fn *Fn, args []V) V {
			vfs, _ := p.extra["vfs"].(map[string]V)
			dir := p.cstr(args[0])
			out := map[string]V{}
			for n, f := range vfs {
				out[n], out[dir+"/"+n] = f, f
			}
			p.extra["vfs"], p.extra["cwd"] = out, dir
			return V{}
		},
		"os.Getwd": func(p *Path, fn *Fn, args []V) V {
			if d, ok := p.extra["cwd"].(string); ok {
				return okErr(mkStr("/vfs/" + d))
			}
			return okErr(mkStr("/vfs"))
		},
		"os.ReadFile": func(p *Path, fn *Fn, args []V) V {
			vfs, _ := p.extra["vfs"].(map[string]V)
			name := p.cstr(args[0])
			if s, ok := vfs[vfsName(name)]; ok {
				return okErr(V{r: append([]V(nil), strBytes(s)...)})
			}
			return V{r: Tuple{{}, p.mkError("open " + name + ": no such file or directory")}}
		},
		"os.Exit": func(p *Path, fn *Fn, args []V) V {
			panic(pathEnd{"exit", "os.Exit" + p.where()})
		},
		"fmt.Sprintf": func(p *Path, fn *Fn, args []V) V { return p.sprintf(args[0], sliceOf(args[1])) },
		"fmt.Sprint":  func(p *Path, fn *Fn, args []V) V { return p.sprint(sliceOf(args[0]), false) },
		"fmt.Sprintln": func(p *Path, fn *Fn, args []V) V {
			return p.sprint(sliceOf(args[0]), true)
		},
		"fmt.Errorf": func(p *Path, fn *Fn, args []V) V {
			return p.mkErrorV(p.sprintf(args[0], sliceOf(args[1])))
		},
		"fmt.Fprintf": func(p *Path, fn *Fn, args []V) V {
			return p.fwrite(args[0], p.sprintf(args[1], sliceOf(args[2])))
		},
		"fmt.Fprint": func(p *Path, fn *Fn, args []V) V {
			return p.fwrite(args[0], p.sprint(sliceOf(args[1]), false))
		},
		"fmt.Fprintln": func(p *Path, fn *Fn, args []V) V {
			return p.fwrite(args[0], p.sprint(sliceOf(args[1]), true))
		},
		"fmt.Println": noop, "fmt.Printf": noop, "fmt.Print": noop,
		"log.Fatalln": func(p *Path, fn *Fn, args []V) V { panic(pathEnd{"exit", "log.Fatalln" + p.where()}) },
		"log.Fatal":   func(p *Path, fn *Fn, args []V) V { panic(pathEnd{"exit", "log.Fatal" + p.where()}) },
		"log.Fatalf":  func(p *Path, fn *Fn, args []V) V { panic(pathEnd{"exit", "log.Fatalf" + p.where()}) },
		"log.Println": noop, "log.Printf": noop, "log.Print": noop,

		"github.com/gabivlj/candice/pkg/random.RandomString": func(p *Path, fn *Fn, args []V) V {
			n := p.concInt(args[0])
			p.seq++
			s := fmt.Sprintf("%d", p.seq)
			if n < 0 {
				p.gopanic("makeslice: len out of range")
			}
			out := make([]byte, n)
			for i := range out {
				out[i] = 'a'
			}
			for i := 0; i < len(s) && i < n; i++ {
				out[n-1-i] = 'A' + s[len(s)-1-i] - '0'
			}
			if p.randMode == 1 && n < 5 { // short names can be equal
				return mkStr(strings.Repeat("A", n))
			}
			if p.randMode == 1 { // names in the opposite order
				for i, c := range out {
					out[i] = 'Z' - (c-'A')%32
				}
			}
			return mkStr(string(out))
		},

		"sort.Slice":       func(p *Path, fn *Fn, args []V) V { sortTheSlice(p, args); return V{} },
		"sort.SliceStable": func(p *Path, fn *Fn, args []V) V { sortTheSlice(p, args); return V{} },

		"(*strings.Builder).String": func(p *Path, fn *Fn, args []V) V {
			if args[0].r == nil {
				p.gopanic("nil pointer dereference")
			}
			ag := args[0].r.(*V).r.(*Agg)
			for i := range ag.f {
				if s, ok := ag.f[i].r.([]V); ok {
					return strFrom(append([]V(nil), s...))
				}
			}
			return V{}
		},
		"(*strings.Builder).copyCheck": noop,
		"strings.Clone":                func(p *Path, fn *Fn, args []V) V { return args[0] },
		"internal/stringslite.Clone":   func(p *Path, fn *Fn, args []V) V { return args[0] },
		"unsafe.String": func(p *Path, fn *Fn, args []V) V {
			p.fatal("unsafe.String")
			return V{}
		},
		"strings.Index": func(p *Path, fn *Fn, args []V) V { return p.strIndex(args[0], args[1]) },
		"strings.Contains": func(p *Path, fn *Fn, args []V) V {
			r := p.strIndex(args[0], args[1])
			return V{u: b2u(int64(r.u) >= 0)}
		},
		"strings.IndexByte": func(p *Path, fn *Fn, args []V) V {
			return p.strIndex(args[0], strFrom([]V{args[1]}))
		},
		"internal/bytealg.IndexByteString": func(p *Path, fn *Fn, args []V) V {
			return p.strIndex(args[0], strFrom([]V{args[1]}))
		},
		"internal/bytealg.IndexByte": func(p *Path, fn *Fn, args []V) V {
			return p.strIndex(strFrom(append([]V(nil), sliceOf(args[0])...)), strFrom([]V{args[1]}))
		},
		"internal/bytealg.IndexString": func(p *Path, fn *Fn, args []V) V { return p.strIndex(args[0], args[1]) },
		"internal/bytealg.CountString": func(p *Path, fn *Fn, args []V) V {
			n := 0
			for _, b := range strBytes(args[0]) {
				if p.condV(p.eqV(b, args[1], TypeInfo(types.Typ[types.Uint8]))) {
					n++
				}
			}
			return V{u: uint64(n)}
		},
		"strings.EqualFold": func(p *Path, fn *Fn, args []V) V {
			return V{u: b2u(strings.EqualFold(p.cstr(args[0]), p.cstr(args[1])))}
		},
		"internal/bytealg.Equal": func(p *Path, fn *Fn, args []V) V {
			return p.eqV(strFrom(append([]V(nil), sliceOf(args[0])...)), strFrom(append([]V(nil), sliceOf(args[1])...)), TypeInfo(types.Typ[types.String]))
		},
		"bytes.Equal": func(p *Path, fn *Fn, args []V) V {
			return p.eqV(strFrom(append([]V(nil), sliceOf(args[0])...)), strFrom(append([]V(nil), sliceOf(args[1])...)), TypeInfo(types.Typ[types.String]))
		},
		"internal/bytealg.MakeNoZero": func(p *Path, fn *Fn, args []V) V {
			return V{r: make([]V, p.concInt(args[0]))}
		},
		"math.archLog": func(p *Path, fn *Fn, args []V) V {
			if args[0].r != nil {
				panic(pathEnd{"unsupported", "logarithm of a symbolic float"})
			}
			return V{u: math.Float64bits(math.Log(math.Float64frombits(args[0].u)))}
		},
		"math.Float64bits":     func(p *Path, fn *Fn, args []V) V { return p.fbits(args[0], SF64) },
		"math.Float64frombits": func(p *Path, fn *Fn, args []V) V { return p.ffrombits(args[0], SF64) },
		"math.Float32bits":     func(p *Path, fn *Fn, args []V) V { return p.fbits(args[0], SF32) },
		"math.Float32frombits": func(p *Path, fn *Fn, args []V) V { return p.ffrombits(args[0], SF32) },

		"strconv.Itoa": func(p *Path, fn *Fn, args []V) V { return p.decimal(args[0], 64, true) },
		"strconv.FormatInt": func(p *Path, fn *Fn, args []V) V {
			if args[0].r == nil && args[1].r == nil {
				return mkStr(strconv.FormatInt(int64(args[0].u), int(args[1].u)))
			}
			if args[1].u == 10 {
				return p.decimal(args[0], 64, true)
			}
			return mkStr(strconv.FormatInt(int64(p.concretize(args[0].r.(*Term))), int(args[1].u)))
		},
		"strconv.FormatUint": func(p *Path, fn *Fn, args []V) V {
			if args[0].r == nil && args[1].r == nil {
				return mkStr(strconv.FormatUint(args[0].u, int(args[1].u)))
			}
			if args[1].u == 10 {
				return p.decimal(args[0], 64, false)
			}
			return mkStr(strconv.FormatUint(p.concretize(args[0].r.(*Term)), int(args[1].u)))
		},
		"strconv.ParseFloat": func(p *Path, fn *Fn, args []V) V {
			if s, ok := strConc(args[0]); ok {
				f, err := strconv.ParseFloat(s, int(args[1].u))
				if err == nil {
					return okErr(V{u: math.Float64bits(f)})
				}
				return p.callBody(fn, args, nil, nil)
			}
			s := p.cstr(args[0])
			f, err := strconv.ParseFloat(s, int(args[1].u))
			if err == nil {
				return okErr(V{u: math.Float64bits(f)})
			}
			return p.callBody(fn, []V{mkStr(s), args[1]}, nil, nil)
		},
		"strconv.FormatFloat": func(p *Path, fn *Fn, args []V) V {
			f := args[0]
			if t, ok := f.r.(*Term); ok {
				_ = t
				p.fatal("FormatFloat of symbolic value")
			}
			return mkStr(strconv.FormatFloat(math.Float64frombits(f.u), byte(args[1].u), int(int64(args[2].u)), int(args[3].u)))
		},
		"strconv.Quote": func(p *Path, fn *Fn, args []V) V { return mkStr(strconv.Quote(p.cstr(args[0]))) },

		"(*sync.Mutex).Lock": noop, "(*sync.Mutex).Unlock": noop, "(*sync.RWMutex).Lock": noop, "(*sync.RWMutex).Unlock": noop,
		"(*sync.RWMutex).RLock": noop, "(*sync.RWMutex).RUnlock": noop,
		"(*sync.Once).Do": func(p *Path, fn *Fn, args []V) V {
			key := args[0].r.(*V)
			m, _ := p.extra["once"].(map[*V]bool)
			if m == nil {
				m = map[*V]bool{}
				p.extra["once"] = m
			}
			if !m[key] {
				m[key] = true
				p.callClosure(args[1])
			}
			return V{}
		},
		"(*sync.Pool).Get": func(p *Path, fn *Fn, args []V) V {
			ag := args[0].r.(*V).r.(*Agg)
			nf := ag.f[len(ag.f)-1]
			if nf.r == nil {
				return V{}
			}
			return p.callClosure(nf)
		},
		"(*sync.Pool).Put":      noop,
		"runtime.KeepAlive":     noop,
		"internal/abi.NoEscape": func(p *Path, fn *Fn, args []V) V { return args[0] },
		"internal/abi.Escape":   func(p *Path, fn *Fn, args []V) V { return args[0] },
		"internal/race.Enable":  noop, "internal/race.Disable": noop,
		"time.Now": noop,

		"math/bits.Len64":           bits1(func(x uint64) int { return bits.Len64(x) }),
		"math/bits.Len":             bits1(func(x uint64) int { return bits.Len64(x) }),
		"math/bits.LeadingZeros64":  bits1(func(x uint64) int { return bits.LeadingZeros64(x) }),
		"math/bits.TrailingZeros64": bits1(func(x uint64) int { return bits.TrailingZeros64(x) }),
		"math/bits.LeadingZeros":    bits1(func(x uint64) int { return bits.LeadingZeros64(x) }),
		"math/bits.TrailingZeros":   bits1(func(x uint64) int { return bits.TrailingZeros64(x) }),

		"errors.Is": func(p *Path, fn *Fn, args []V) V { return p.eqV(args[0], args[1], &TI{kind: KIface}) },
		"reflect.TypeOf": func(p *Path, fn *Fn, args []V) V {
			return V{r: &Iface{t: TypeInfo(types.NewPointer(types.Typ[types.String])), v: V{r: &V{}}}}
		},
	}
	for _, n := range []string{"Load", "Store", "Add", "CompareAndSwap", "Swap"} {
		_ = n
	}
	atomicI := func(p *Path, fn *Fn, args []V) V { return V{} }
	_ = atomicI
	pkgIntrinsics = map[string]intrFn{
		"github.com/gabivlj/candice/pkg/logger": noop,
		"github.com/muesli/termenv":             noop,
	}
	pureIntr[rt+"And"] = true
	pureIntr[rt+"Or"] = true
	pureIntr[rt+"IteI64"] = true
	pureIntr[rt+"SameF64"] = true
	pureIntr[rt+"SameF32"] = true
	pureIntr[rt+"Tier"] = true
}

func bits1(f func(uint64) int) intrFn {
	return func(p *Path, fn *Fn, args []V) V {
		if args[0].r == nil {
			return V{u: uint64(f(args[0].u))}
		}
		return p.callBody(fn, args, nil, nil)
	}
}

func (p *Path) fbits(v V, w uint8) V {
	if t, ok := v.r.(*Term); ok {
		bw := uint8(64)
		if w == SF32 {
			bw = 32
		}
		return p.fromTerm(p.w.ctx.fconv(OFBits, t, bw))
	}
	return v
}

func (p *Path) ffrombits(v V, w uint8) V {
	if t, ok := v.r.(*Term); ok {
		return p.fromTerm(p.w.ctx.fconv(OFFromBits, t, w))
	}
	return v
}

// strIndex finds the first occurrence of sub, forking on symbolic bytes.
func (p *Path) strIndex(s, sub V) V {
	a, ok1 := strConc(s)
	b, ok2 := strConc(sub)
	if ok1 && ok2 {
		return V{u: uint64(int64(strings.Index(a, b)))}
	}
	n, m := strLen(s), strLen(sub)
	for i := 0; i+m <= n; i++ {
		if p.condV(p.eqV(strSlice(s, i, i+m), sub, TypeInfo(types.Typ[types.String]))) {
			return V{u: uint64(i)}
		}
	}
	return V{u: ^uint64(0)}
}

func (p *Path) mkError(s string) V { return p.mkErrorV(mkStr(s)) }

func (p *Path) mkErrorV(s V) V {
	f := p.w.eng.lookupFunc("errors", "New")
	return p.callFn(getFn(f), []V{s}, nil)
}

// decimal renders an integer; symbolic values fork on sign and digit count.
func (p *Path) decimal(v V, w uint8, signed bool) V {
	t, ok := v.r.(*Term)
	if !ok {
		if signed {
			return mkStr(strconv.FormatInt(sx(v.u, w), 10))
		}
		return mkStr(strconv.FormatUint(v.u, 10))
	}
	c := p.w.ctx
	neg := false
	if signed {
		neg = p.branchV(c.slt(t, c.konst(t.w, 0)))
		t = c.sext(t, 64)
	} else {
		t = c.zext(t, 64)
	}
	if neg {
		t = c.neg(t)
	}
	n := 1
	for lim := uint64(10); n < 20; n++ {
		if p.branchV(c.ult(t, c.konst(64, lim))) {
			break
		}
		if lim > math.MaxUint64/10 {
			n = 20
			break
		}
		lim *= 10
	}
	out := make([]V, n)
	d := uint64(1)
	for i := n - 1; i >= 0; i-- {
		q := c.bin(OURem, c.bin(OUDiv, t, c.konst(64, d)), c.konst(64, 10))
		out[i] = p.fromTerm(c.bin(OAdd, c.extract(q, 7, 0), c.konst(8, '0')))
		d *= 10
	}
	if neg {
		out = append([]V{{u: '-'}}, out...)
	}
	return strFrom(out)
}

// ---- fmt

type sbuf struct{ b []V }

func (s *sbuf) str(x string) {
	for i := 0; i < len(x); i++ {
		s.b = append(s.b, V{u: uint64(x[i])})
	}
}
func (s *sbuf) v(x V) { s.b = append(s.b, strBytes(x)...) }

func (p *Path) methodNamed(ti *TI, name string) *Fn {
	ti.mu.Lock()
	ms := ti.mset
	if ms == nil {
		ms = p.w.eng.prog.MethodSets.MethodSet(ti.typ)
		ti.mset = ms
	}
	ti.mu.Unlock()
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	sig := sel.Type().(*types.Signature)
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return nil
	}
	if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return nil
	}
	return getFn(p.w.eng.prog.MethodValue(sel))
}

// callStringer mirrors fmt's handling of panicking String methods.
func (p *Path) callStringer(fn *Fn, it *Iface, verb byte) (res V) {
	sp, stk, fr, depth := p.sp, p.stack, p.fr, p.depth
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(*tPanic)
			if !ok {
				panic(r)
			}
			p.sp, p.stack, p.fr, p.depth = sp, stk, fr, depth
			if it.t.kind == KPtr && it.v.r == nil {
				res = mkStr("<nil>")
				return
			}
			res = mkStr("%!" + string(verb) + "(PANIC=String method: " + tp.msg + ")")
		}
	}()
	return p.callFn(fn, []V{it.v}, nil)
}

func (p *Path) fmtValue(out *sbuf, flags string, verb byte, it *Iface, depth int) {
	if it == nil {
		if verb == 'v' {
			out.str("<nil>")
		} else {
			out.str("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	sharp := strings.Contains(flags, "#")
	if verb == 'T' {
		out.str(typeStr(it.t))
		return
	}
	if verb == 'p' {
		out.str("0xc000000000")
		return
	}
	if (verb == 'v' && !sharp) || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		for _, m := range []string{"Error", "String"} {
			if fn := p.methodNamed(it.t, m); fn != nil {
				s := p.callStringer(fn, it, verb)
				p.fmtStr(out, flags, verb, s)
				return
			}
		}
	}
	p.fmtPlain(out, flags, verb, it, depth)
}

func typeStr(t *TI) string {
	return types.TypeString(t.typ, func(p *types.Package) string { return p.Name() })
}

func (p *Path) fmtStr(out *sbuf, flags string, verb byte, s V) {
	if flags == "" && (verb == 's' || verb == 'v') {
		out.v(s)
		return
	}
	out.str(fmt.Sprintf("%"+flags+string(verb), p.cstr(s)))
}

func (p *Path) fmtPlain(out *sbuf, flags string, verb byte, it *Iface, depth int) {
	t, v := it.t, it.v
	switch t.kind {
	case KBool:
		b := p.condV(v)
		out.str(fmt.Sprintf("%"+flags+string(verb), b))
	case KInt:
		if tm, ok := v.r.(*Term); ok {
			if (verb == 'd' || verb == 'v') && flags == "" {
				out.v(p.decimal(v, t.w, t.signed))
				return
			}
			if verb == 'c' && flags == "" {
				out.v(p.convert(v, t, TypeInfo(types.Typ[types.String])))
				return
			}
			v = V{u: p.concretize(tm)}
		}
		if t.signed {
			out.str(fmt.Sprintf("%"+flags+string(verb), sx(v.u, t.w)))
		} else {
			if t.w == 8 {
				out.str(fmt.Sprintf("%"+flags+string(verb), uint8(v.u)))
				return
			}
			out.str(fmt.Sprintf("%"+flags+string(verb), v.u))
		}
	case KFloat:
		if _, ok := v.r.(*Term); ok {
			p.fatal("formatting a symbolic float")
		}
		if t.w == SF32 {
			out.str(fmt.Sprintf("%"+flags+string(verb), math.Float32frombits(uint32(v.u))))
			return
		}
		out.str(fmt.Sprintf("%"+flags+string(verb), math.Float64frombits(v.u)))
	case KString:
		p.fmtStr(out, flags, verb, v)
	case KSlice, KArray:
		var el []V
		if t.kind == KSlice {
			el = sliceOf(v)
		} else {
			el = v.r.(*Agg).f
		}
		if t.elem.kind == KInt && t.elem.w == 8 && (verb == 's' || verb == 'q' || verb == 'x') {
			p.fmtStr(out, flags, verb, strFrom(append([]V(nil), el...)))
			return
		}
		out.str("[")
		for i, e := range el {
			if i > 0 {
				out.str(" ")
			}
			p.fmtElem(out, flags, verb, t.elem, e, depth+1)
		}
		out.str("]")
	case KStruct:
		out.str("{")
		st := t.typ.Underlying().(*types.Struct)
		for i, f := range v.r.(*Agg).f {
			if i > 0 {
				out.str(" ")
			}
			if strings.Contains(flags, "+") {
				out.str(st.Field(i).Name() + ":")
			}
			if !st.Field(i).Exported() {
				// fmt does not call methods on unexported fields
				p.fmtNoMeth(out, flags, verb, t.fields[i], f, depth+1)
				continue
			}
			p.fmtElem(out, flags, verb, t.fields[i], f, depth+1)
		}
		out.str("}")
	case KMap:
		m, _ := v.r.(*Map)
		out.str("map[")
		if m != nil {
			ents := append([]*mapEnt(nil), m.ent...)
			sort.SliceStable(ents, func(i, j int) bool {
				a, b := ents[i].ks, ents[j].ks
				switch x := a.(type) {
				case string:
					y, _ := b.(string)
					return x < y
				case uint64:
					y, _ := b.(uint64)
					if t.key.signed {
						return sx(x, t.key.w) < sx(y, t.key.w)
					}
					return x < y
				}
				return false
			})
			for i, e := range ents {
				if i > 0 {
					out.str(" ")
				}
				p.fmtElem(out, flags, verb, t.key, e.k, depth+1)
				out.str(":")
				p.fmtElem(out, flags, verb, t.elem, e.v, depth+1)
			}
		}
		out.str("]")
	case KPtr:
		if v.r == nil {
			out.str("<nil>")
			return
		}
		if depth == 0 && (t.elem.kind == KStruct || t.elem.kind == KArray || t.elem.kind == KSlice || t.elem.kind == KMap) {
			out.str("&")
			p.fmtElem(out, flags, verb, t.elem, *v.r.(*V), depth+1)
			return
		}
		out.str("0xc000000000")
	case KIface:
		p.fmtElem(out, flags, verb, t, v, depth)
	case KFunc, KChan, KUnsafe:
		out.str("0xc000000000")
	default:
		p.fatal("fmt of %s", t.name)
	}
}

func (p *Path) fmtElem(out *sbuf, flags string, verb byte, t *TI, v V, depth int) {
	if t.kind == KIface {
		it, _ := v.r.(*Iface)
		if it == nil {
			out.str("<nil>")
			return
		}
		p.fmtValue(out, flags, verb, it, depth)
		return
	}
	p.fmtValue(out, flags, verb, &Iface{t: t, v: v}, depth)
}

func (p *Path) fmtNoMeth(out *sbuf, flags string, verb byte, t *TI, v V, depth int) {
	if t.kind == KIface {
		it, _ := v.r.(*Iface)
		if it == nil {
			out.str("<nil>")
			return
		}
		p.fmtPlain(out, flags, verb, it, depth)
		return
	}
	p.fmtPlain(out, flags, verb, &Iface{t: t, v: v}, depth)
}

func (p *Path) sprintf(format V, args []V) V {
	if p.inInit {
		return V{}
	}
	out := &sbuf{}
	fb := strBytes(format)
	ai := 0
	for i := 0; i < len(fb); {
		if fb[i].r != nil {
			if p.branchV(p.w.ctx.eq(p.term(fb[i], 8), p.w.ctx.konst(8, '%'))) {
				fb = append([]V(nil), fb...)
				fb[i] = V{u: '%'}
				continue
			}
			out.b = append(out.b, fb[i])
			i++
			continue
		}
		if fb[i].u != '%' {
			out.b = append(out.b, fb[i])
			i++
			continue
		}
		i++
		st := i
		for i < len(fb) && fb[i].r == nil && strings.IndexByte("+-# 0123456789.*", byte(fb[i].u)) >= 0 {
			i++
		}
		flags := p.cstr(strFrom(append([]V(nil), fb[st:i]...)))
		if i >= len(fb) {
			out.str("%!(NOVERB)")
			break
		}
		verb := byte(p.concInt(fb[i]))
		i++
		if verb == '%' {
			out.str("%")
			continue
		}
		for strings.Contains(flags, "*") {
			n := "0"
			if ai < len(args) {
				if it, _ := args[ai].r.(*Iface); it != nil {
					n = strconv.Itoa(p.concInt(it.v))
				}
			}
			ai++
			flags = strings.Replace(flags, "*", n, 1)
		}
		if ai >= len(args) {
			out.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		it, _ := args[ai].r.(*Iface)
		ai++
		p.fmtValue(out, flags, verb, it, 0)
	}
	if ai < len(args) {
		out.str("%!(EXTRA ")
		for k := ai; k < len(args); k++ {
			if k > ai {
				out.str(", ")
			}
			it, _ := args[k].r.(*Iface)
			if it == nil {
				out.str("<nil>")
				continue
			}
			out.str(typeStr(it.t) + "=")
			p.fmtValue(out, "", 'v', it, 0)
		}
		out.str(")")
	}
	return strFrom(out.b)
}

func (p *Path) sprint(args []V, ln bool) V {
	out := &sbuf{}
	prevStr := true
	for i, a := range args {
		it, _ := a.r.(*Iface)
		isStr := it != nil && it.t.kind == KString
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out.str(" ")
		}
		p.fmtValue(out, "", 'v', it, 0)
		prevStr = isStr
	}
	if ln {
		out.str("\n")
	}
	return strFrom(out.b)
}

// fwrite writes to an io.Writer held in an interface.
func (p *Path) fwrite(w V, s V) V {
	it, _ := w.r.(*Iface)
	if it == nil || strings.HasPrefix(it.t.name, "*os.File") {
		if it != nil {
			if ptr, _ := it.v.r.(*V); ptr != nil {
				if h := p.rec().files[ptr]; h != nil {
					vfs := p.vfs()
					vfs[h.name] = strFrom(append(append([]V(nil), strBytes(vfs[h.name])...), strBytes(s)...))
				}
			}
		}
		return okErr(V{u: uint64(strLen(s))})
	}
	sel := p.w.eng.prog.MethodSets.MethodSet(it.t.typ).Lookup(nil, "Write")
	if sel == nil {
		p.fatal("Fprintf to %s", it.t.name)
	}
	b := append([]V(nil), strBytes(s)...)
	return p.callFn(getFn(p.w.eng.prog.MethodValue(sel)), []V{it.v, {r: b}}, nil)
}

var _ = utf8.RuneError
