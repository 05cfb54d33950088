package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process over a pipe; every query is self-contained
// ((reset) first), preceded by independence slicing and a result cache.
type Solver struct {
	ctx     *TermCtx
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	timeout int // ms
	cache   map[string]*qres
	queries int
	hits    int
	unknown int
	time    time.Duration
	dead    bool
	maxT    time.Duration
}

type qres struct {
	sat   int // 1 sat, 0 unsat, -1 unknown
	model Model
}

func NewSolver(ctx *TermCtx, bin string, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, bin: bin, timeout: timeoutMs, cache: map[string]*qres{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	io.WriteString(in, "(set-option :timeout "+strconv.Itoa(s.timeout)+")\n")
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// slice returns the constraints of pc transitively sharing variables with q.
func (s *Solver) slice(pc []*Term, q *Term) []*Term {
	vars := q.vars
	used := make([]bool, len(pc))
	for {
		ch := false
		for i, t := range pc {
			if !used[i] && interBits(t.vars, vars) {
				used[i] = true
				ch = true
				vars = unionBits(vars, t.vars)
			}
		}
		if !ch {
			break
		}
	}
	out := []*Term{q}
	for i, t := range pc {
		if used[i] {
			out = append(out, t)
		}
	}
	return out
}

// Check decides satisfiability of pc ∧ q; pc itself is known satisfiable.
// On sat the model binds only the variables in the relevant slice.
func (s *Solver) Check(pc []*Term, q *Term) (int, Model) {
	if q == s.ctx.False {
		return 0, nil
	}
	if q == s.ctx.True {
		return 1, Model{}
	}
	roots := s.slice(pc, q)
	ids := make([]int, len(roots))
	for i, t := range roots {
		ids[i] = int(t.id)
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		s.hits++
		return r.sat, r.model
	}
	r := s.solve(roots)
	s.cache[key] = r
	return r.sat, r.model
}

func (s *Solver) solve(roots []*Term) *qres {
	t0 := time.Now()
	s.queries++
	defer func() {
		if _, err := io.WriteString(s.in, "(pop)\n"); err != nil {
			s.restart()
		}
		d := time.Since(t0)
		s.time += d
		if d > s.maxT {
			s.maxT = d
		}
	}()
	var sb strings.Builder
	sb.WriteString("(push)\n")
	vars := s.ctx.writeSMT(&sb, roots)
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.restart()
		s.unknown++
		return &qres{sat: -1}
	}
	line := s.readLine()
	if strings.HasPrefix(line, "(error") || line == "" {
		fmt.Println("solver:", line)
		s.restart()
		s.unknown++
		return &qres{sat: -1}
	}
	switch line {
	case "unsat":
		return &qres{sat: 0}
	case "sat":
		m := Model{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				if isFP(v.w) {
					// read floats back as bit patterns
					// (fp.to_ieee_bv of a NaN is unspecified)
					nan := "#x7fc00000"
					if v.w == SF64 {
						nan = "#x7ff8000000000000"
					}
					q.WriteString("(ite (fp.isNaN " + smtVar(v.name) + ") " + nan + " (fp.to_ieee_bv " + smtVar(v.name) + ")) ")
				} else {
					q.WriteString(smtVar(v.name) + " ")
				}
			}
			q.WriteString("))\n")
			io.WriteString(s.in, q.String())
			sexp := s.readSexp()
			if strings.Contains(sexp, "(error") {
				fmt.Println("solver:", sexp)
				s.unknown++
				return &qres{sat: -1}
			}
			vals := parseValues(sexp)
			if len(vals) != len(vars) {
				fmt.Println("solver: cannot parse model", sexp)
				s.unknown++
				return &qres{sat: -1}
			}
			for i, v := range vars {
				m[v.name] = vals[i]
			}
		}
		return &qres{sat: 1, model: m}
	}
	s.unknown++
	return &qres{sat: -1}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return ""
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readSexp() string {
	depth := 0
	var sb strings.Builder
	bar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String() + "(error eof)"
		}
		sb.WriteByte(b)
		if b == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				s.out.ReadString('\n')
				return sb.String()
			}
		}
	}
}

// parseValues reads ((expr val) (expr val) ...).
func parseValues(s string) []uint64 {
	var out []uint64
	i := 0
	skipWS := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t') {
			i++
		}
	}
	var skip func()
	skip = func() {
		skipWS()
		if i < len(s) && s[i] == '(' {
			i++
			for {
				skipWS()
				if s[i] == ')' {
					i++
					return
				}
				skip()
			}
		}
		if i < len(s) && s[i] == '|' {
			i++
			for s[i] != '|' {
				i++
			}
			i++
			return
		}
		for i < len(s) && s[i] != ' ' && s[i] != ')' && s[i] != '(' && s[i] != '\n' {
			i++
		}
	}
	skipWS()
	if i >= len(s) || s[i] != '(' {
		return nil
	}
	i++
	for {
		skipWS()
		if i >= len(s) || s[i] != '(' {
			break
		}
		i++
		skip()
		skipWS()
		st := i
		skip()
		v := s[st:i]
		var x uint64
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, _ = strconv.ParseUint(v[2:], 2, 64)
		default:
			return nil
		}
		out = append(out, x)
		skipWS()
		i++ // ')'
	}
	return out
}
