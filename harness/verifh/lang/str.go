package lang

import (
	"github.com/gabivlj/candice/internals/verifh/irx"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

func isStr(t *Ty) bool { return t.K == 'p' && t.E == I8 }

// newStr is a pointer to the characters b and a terminator.
func (m *M) newStr(b []byte) *Val {
	c := m.newCell(Arr(len(b)+1, I8))
	for i, k := range c.Kids {
		var u uint64
		if i < len(b) {
			u = uint64(b[i])
		}
		k.V = IntV(I8, u)
	}
	return &Val{T: Ptr(I8), P: c.Kids[0]}
}

// Str reads the characters at v, up to the terminator.
func (m *M) Str(v *Val) []byte {
	var out []byte
	c := v.P
	if c == nil {
		m.ub("null")
	}
	for i := c.I; ; i++ {
		if c.Seq != nil && i >= len(c.Seq) {
			m.ub("unterminated string")
		}
		k := c
		if c.Seq != nil {
			k = c.Seq[i]
		} else if i > c.I {
			m.ub("unterminated string")
		}
		b := m.load(k).U
		if b == 0 {
			return out
		}
		out = append(out, byte(b))
	}
}

// compareStr orders by unsigned characters, a prefix first.
func compareStr(op string, a, b []byte) *Val {
	for i := 0; i < len(a) || i < len(b); i++ {
		var x, y int64
		if i < len(a) {
			x = int64(a[i])
		}
		if i < len(b) {
			y = int64(b[i])
		}
		if x != y {
			return order(op, x, y)
		}
	}
	return order(op, 0, 0)
}

func (m *M) print(sc *scope, s *S) {
	var vs []*Val
	for _, a := range s.Args {
		if a.T.K == 's' || a.T.K == 'n' || a.T.K == 'a' {
			m.eval(sc, a)
			vs = append(vs, nil)
			continue
		}
		vs = append(vs, m.eval(sc, a))
	}
	ev := Event{Name: "printf"}
	out := ev.Out
	for i, v := range vs {
		if i > 0 {
			out = irx.AddText(out, ' ')
		}
		t := s.Args[i].T
		switch {
		case t.K == 'n' || t.K == 'a':
			// cannot be printed
		case t.K == 's':
			out = irx.AddText(out, []byte(t.S)...)
		case t == F32:
			out = append(out, irx.Piece{K: 'f', F: float64(v.G), Prec: 3})
		case t == F64:
			out = append(out, irx.Piece{K: 'f', F: v.F, Prec: 3})
		case t.K == 'u' || t.W == 1:
			u := v.U
			if t.W == 1 {
				u = uint64(rt.IteI64(v.B, 1, 0))
			}
			out = append(out, irx.Piece{K: 'u', U: u})
		case t.K == 'i':
			out = append(out, irx.Piece{K: 'd', U: uint64(sx(t.W, v.U))})
		case isStr(t):
			out = irx.AddText(out, m.Str(v)...)
		case t.K == 'p' || t.K == 'c':
			out = append(out, irx.Piece{K: 'p'})
			ev.Ptrs = append(ev.Ptrs, v)
		default:
			panic("print " + t.name)
		}
	}
	ev.Out = out
	m.Events = append(m.Events, ev)
}

// samePieces compares what is printed: its shape, and its values.
func samePieces(g, w []irx.Piece) (bool, bool) {
	if len(g) != len(w) {
		return false, false
	}
	ok := true
	for i, a := range g {
		b := w[i]
		switch a.K {
		case 't':
			if b.K != 't' || len(a.Text) != len(b.Text) {
				return false, false
			}
			for j := range a.Text {
				ok = rt.And(ok, a.Text[j] == b.Text[j])
			}
		case 'd', 'u':
			if b.K != 'd' && b.K != 'u' {
				return false, false
			}
			if a.K != b.K {
				ok = rt.And(ok, int64(a.U) >= 0)
			}
			ok = rt.And(ok, a.U == b.U)
		case 'f':
			if b.K != 'f' || a.Prec != b.Prec {
				return false, false
			}
			ok = rt.And(ok, rt.SameF64(a.F, b.F))
		case 'p':
			if b.K != 'p' {
				return false, false
			}
		}
	}
	return true, ok
}

// show renders the shape of what is printed.
func show(out []irx.Piece) string {
	s := ""
	for _, p := range out {
		if p.K == 't' {
			s += string(p.Text)
		} else {
			s += "<" + string(rune(p.K)) + ">"
		}
	}
	return s
}
