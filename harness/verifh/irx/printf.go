package irx

// Piece is a part of what is printed: characters ('t'), a signed ('d') or an
// unsigned ('u') decimal number, a float with Prec decimals ('f') or an
// address ('p').
type Piece struct {
	K    byte
	Text []byte
	U    uint64
	F    float64
	Prec int
	P    *Val
}

// AddText appends characters to out.
func AddText(out []Piece, b ...byte) []Piece {
	if len(b) == 0 {
		return out
	}
	if n := len(out); n > 0 && out[n-1].K == 't' {
		out[n-1].Text = append(append([]byte{}, out[n-1].Text...), b...)
		return out
	}
	return append(out, Piece{K: 't', Text: append([]byte{}, b...)})
}

// printf does what C's printf does with the arguments of a variadic call. The
// bits above the type of an integer argument are unspecified, except that an
// i1 is passed as 0 or 1 (the x86-64 lowering zero-extends it).
func (m *M) printf(f string, args []*Val) []Piece {
	var out []Piece
	next := 0
	arg := func() *Val {
		if next >= len(args) {
			m.trap("printf: missing argument for " + f)
		}
		next++
		a := args[next-1]
		if a.K == Undef {
			m.trap("printf: undef argument")
		}
		return a
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = AddText(out, f[i])
			continue
		}
		i++
		prec := -1
		if i < len(f) && f[i] == '.' {
			prec = 0
			for i++; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
				prec = prec*10 + int(f[i]-'0')
			}
		}
		w := 32
		for ; i < len(f) && (f[i] == 'h' || f[i] == 'l'); i++ {
			switch {
			case f[i] == 'h' && w == 32:
				w = 16
			case f[i] == 'h':
				w = 8
			default:
				w = 64
			}
		}
		if i >= len(f) {
			m.trap("printf: incomplete conversion in " + f)
		}
		switch f[i] {
		case '%':
			out = AddText(out, '%')
		case 'd', 'i', 'u':
			a := arg()
			if a.K == Bool {
				out = append(out, Piece{K: 'u', U: a.Bits()})
				continue
			}
			if a.K != Int {
				m.trap("printf: an argument that is no integer for an integer conversion of " + f)
			}
			if a.W < w {
				m.trap("printf: a conversion of " + f + " is wider than its argument")
			}
			u := a.Bits()
			if w < 64 {
				u &= uint64(1)<<uint(w) - 1
			}
			if f[i] == 'u' {
				out = append(out, Piece{K: 'u', U: u})
			} else {
				out = append(out, Piece{K: 'd', U: uint64(sext(w, u))})
			}
		case 'f':
			a := arg()
			if a.K != F64 {
				m.trap("printf: an argument that is no double for " + f)
			}
			if prec < 0 {
				prec = 6
			}
			out = append(out, Piece{K: 'f', F: a.F, Prec: prec})
		case 's':
			a := arg()
			if a.K != Pointer {
				m.trap("printf: an argument that is no pointer for " + f)
			}
			out = AddText(out, m.Str(a)...)
		case 'p':
			a := arg()
			if a.K != Pointer {
				m.trap("printf: an argument that is no pointer for " + f)
			}
			out = append(out, Piece{K: 'p', P: a})
		default:
			m.trap("printf: conversion of " + f)
		}
	}
	return out
}
