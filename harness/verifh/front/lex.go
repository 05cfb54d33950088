// Package front holds the harnesses about the front end.
package front

import (
	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/token"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// rtok is a token of the reference lexer.
type rtok struct {
	t   token.TypeToken
	lit string
	pos int // of its first byte
	end int // one past its last byte
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
func digit(c byte) bool  { return c >= '0' && c <= '9' }
func hexDigit(c byte) bool {
	return digit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

var words = map[string]token.TypeToken{
	"func": token.FUNCTION, "pub": token.PUBLIC, "true": token.TRUE, "false": token.FALSE, "if": token.IF, "else": token.ELSE,
	"for": token.FOR, "return": token.RETURN, "struct": token.STRUCT, "import": token.IMPORT, "break": token.BREAK,
	"extern": token.EXTERN, "continue": token.CONTINUE, "type": token.TYPE, "as": token.AS, "union": token.UNION,
	"switch": token.SWITCH, "case": token.CASE, "default": token.DEFAULT, "const": token.CONST,
}

var twoChars = []token.TypeToken{"..", "==", "!=", "++", "--", "<<", "<=", ">>", ">=", "&&", "||"}

const oneChar = "@.:[]=!%;()+-/*<>&|^,{}"

// lexRef splits s into tokens, by the language's lexical rules: the longest
// token at every position, separated by white space and // comments. The last
// token is EOF or ILLEGAL.
func lexRef(s string) []rtok {
	var out []rtok
	i := 0
	at := func(k int) byte {
		if k < len(s) {
			return s[k]
		}
		return 0
	}
	for {
		for i < len(s) {
			if s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n' {
				i++
			} else if s[i] == '/' && at(i+1) == '/' {
				for i < len(s) && s[i] != '\n' {
					i++
				}
			} else {
				break
			}
		}
		if i >= len(s) {
			return append(out, rtok{token.EOF, "", i, i})
		}
		start := i
		add := func(t token.TypeToken, lit string, end int) {
			out = append(out, rtok{t, lit, start, end})
			i = end
		}
		c := s[i]
		switch {
		case letter(c):
			j := i
			for j < len(s) && (letter(s[j]) || digit(s[j])) {
				j++
			}
			t, ok := words[s[i:j]]
			if !ok {
				t = token.IDENT
			}
			add(t, s[i:j], j)
		case c == '0' && at(i+1) == 'x':
			j := i + 2
			for j < len(s) && hexDigit(s[j]) {
				j++
			}
			add(token.HEX, s[i:j], j)
		case c == '0' && at(i+1) == 'b':
			j := i + 2
			for j < len(s) && (s[j] == '0' || s[j] == '1') {
				j++
			}
			add(token.BINARY, s[i:j], j)
		case digit(c):
			j := i
			for j < len(s) && digit(s[j]) {
				j++
			}
			t := token.INT
			if at(j) == '.' && digit(at(j+1)) {
				t = token.FLOAT
				j++
				for j < len(s) && digit(s[j]) {
					j++
				}
			}
			add(t, s[i:j], j)
		case c == '"':
			var lit []byte
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
					if j >= len(s) {
						break
					}
					if s[j] == 'n' {
						lit = append(lit, '\n')
					} else {
						lit = append(lit, s[j])
					}
				} else {
					lit = append(lit, s[j])
				}
				j++
			}
			if j >= len(s) {
				return append(out, rtok{token.ILLEGAL, "", start, j})
			}
			add(token.STRING, string(lit), j+1)
		case c == '\'':
			j := i + 1
			b := at(j)
			if b == '\\' {
				j++
				b = at(j)
				if b == 'n' {
					b = '\n'
				} else if b == 't' {
					b = '\t'
				} else if b == 'r' {
					b = '\r'
				}
			}
			if j >= len(s) || at(j+1) != '\'' {
				return append(out, rtok{token.ILLEGAL, "", start, j})
			}
			add(token.CHAR, string([]byte{b}), j+2)
		case c == '#':
			j := i + 1
			for j < len(s) && (letter(s[j]) || digit(s[j])) {
				j++
			}
			if s[i+1:j] != "if" {
				return append(out, rtok{token.ILLEGAL, "", start, j})
			}
			add(token.MACRO_IF, "#", j)
		default:
			two := false
			for _, t := range twoChars {
				if c == t[0] && at(i+1) == t[1] {
					add(t, string(t), i+2)
					two = true
					break
				}
			}
			if two {
				continue
			}
			one := false
			for k := 0; k < len(oneChar); k++ {
				if c == oneChar[k] {
					add(token.TypeToken(oneChar[k:k+1]), oneChar[k:k+1], i+1)
					one = true
					break
				}
			}
			if !one {
				return append(out, rtok{token.ILLEGAL, "", start, i})
			}
		}
	}
}

// sameTokens compares the lexer with the reference on s.
func sameTokens(s string) {
	want := lexRef(s)
	l := lexer.New(s)
	for i, w := range want {
		t := l.NextToken()
		if t.Type != w.t {
			rt.Log("source", s)
			rt.Log("token", i)
			rt.Log("type", string(t.Type))
			rt.Log("expected", string(w.t))
		}
		rt.Assert(t.Type == w.t, "every token has its kind")
		if w.t != token.ILLEGAL && w.t != token.EOF {
			if t.Literal != w.lit {
				rt.Log("source", s)
				rt.Log("literal", t.Literal)
				rt.Log("expected", w.lit)
			}
			rt.Assert(t.Literal == w.lit, "every token has its text")
		}
	}
	if want[len(want)-1].t == token.EOF {
		rt.Assert(l.NextToken().Type == token.EOF, "the end stays the end")
		rt.Assert(l.NextToken().Type == token.EOF, "the end stays the end")
	}
	rt.Cover("end")
}

// samePositions compares the positions of the tokens with the reference.
func samePositions(s string) {
	want := lexRef(s)
	l := lexer.New(s)
	line, bol, i := uint32(1), 0, 0
	for _, w := range want {
		for ; i < w.pos; i++ {
			if s[i] == '\n' {
				line++
				bol = i + 1
			}
		}
		t := l.NextToken()
		if t.Line != line || t.Position != uint32(w.pos-bol+1) {
			rt.Log("source", s)
			rt.Log("line", int64(t.Line))
			rt.Log("expected line", int64(line))
			rt.Log("column", int64(t.Position))
			rt.Log("expected column", w.pos-bol+1)
		}
		rt.Assert(t.Line == line, "every token has the line it starts on")
		rt.Assert(t.Position == uint32(w.pos-bol+1), "every token has the column it starts on")
		// the text shown for a token is on its line
		shown := l.RetrieveLine(t)
		if t.Type != token.STRING && t.Type != token.EOF && t.Type != token.ILLEGAL {
			eol := w.pos
			for eol < len(s) && s[eol] != '\n' {
				eol++
			}
			if eol < len(s) {
				eol++ // the end of the line may be shown too
			}
			found := false
			for k := bol; k <= w.pos; k++ {
				for e := w.pos + 1; e <= eol; e++ {
					if shown == s[k:e] {
						found = true
					}
				}
			}
			if !found {
				rt.Log("source", s)
				rt.Log("shown", shown)
			}
			rt.Assert(found, "the text shown for a token contains its start and is on its line")
		}
	}
	rt.Cover("end")
}

// anyBytes are n arbitrary bytes of a text.
func anyBytes(n int) string {
	b := rt.Bytes("src", n)
	for _, c := range b {
		rt.Assume(c != 0)
	}
	return string(b)
}

// H_C02_any: every text of up to 3 bytes (4 thorough).
func H_C02_any() {
	n := rt.Choose("length", 4+rt.Tier())
	sameTokens(anyBytes(n))
}

// H_C02_context: arbitrary bytes (2, thorough 3) inside strings, characters,
// numbers, words, comments, macros and operators, before different ends.
func H_C02_context() {
	pre := []string{"\"", "\"a\\", "\"\\\\", "'", "'\\", "0x", "0b", "0", "12", "1.", "1.5", "// x", "//", "a_", "fo", "x := ", "<", "-", "#i", "#if", "é"}
	post := []string{"", "\"", "'", " a", "1", "\nb"}
	p := pre[rt.Choose("before", len(pre))]
	q := post[rt.Choose("after", len(post))]
	sameTokens(p + anyBytes(2+rt.Tier()) + q)
}

// H_C02_keyword: every keyword, with an arbitrary byte in place of one of its
// own or next to it.
func H_C02_keyword() {
	var ks []string
	for _, k := range []string{"func", "pub", "true", "false", "if", "else", "for", "return", "struct", "import", "break", "extern",
		"continue", "type", "as", "union", "switch", "case", "default", "const", "#if"} {
		ks = append(ks, k)
	}
	k := ks[rt.Choose("keyword", len(ks))]
	i := rt.Choose("position", len(k)+3)
	b := anyBytes(1)
	switch {
	case i < len(k):
		sameTokens(k[:i] + b + k[i+1:])
	case i == len(k):
		sameTokens(b + k + " x")
	case i == len(k)+1:
		sameTokens(k + b)
	default:
		rt.Assume(b[0] == '1')
		sameTokens(k)
	}
}

// H_C02_sequence: three tokens with arbitrary bytes between them.
func H_C02_sequence() {
	ts := []string{"a", "12", "\"s\"", "==", "{", "func", "'c'", "0x1f", "-", "."}
	a, b := ts[rt.Choose("first", len(ts))], ts[rt.Choose("second", len(ts))]
	n := rt.Choose("bytes between", 2)
	sameTokens(a + anyBytes(n) + b + "\n" + a)
}

// H_C03_any: every text of up to 3 bytes (4 thorough).
func H_C03_any() {
	n := rt.Choose("length", 4+rt.Tier())
	samePositions(anyBytes(n))
}

// H_C03_lines: arbitrary bytes between tokens, strings, characters and
// comments on several lines.
func H_C03_lines() {
	ts := []string{"a", "12", "\"s\"", "\"s\nt\"", "\"\\n\"", "==", "{", "func", "'c'", "'\\n'", "#if", "0x1f", "// c\n", "// c", "\t", "é"}
	a, b := ts[rt.Choose("first", len(ts))], ts[rt.Choose("second", len(ts))]
	n := 1 + rt.Choose("bytes between", 1+rt.Tier())
	samePositions(a + anyBytes(n) + b + "\n" + a + " x")
}
