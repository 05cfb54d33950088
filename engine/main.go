package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// usage: vengine run PROP | vengine replay FILE | vengine dbg GROUPS PREFIX
func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vengine run PROP | replay FILE | dbg GROUPS PREFIX")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runProp(os.Args[2]))
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	case "dbg":
		dbg()
	default:
		os.Exit(2)
	}
}

func hdirArg() string {
	if d := os.Getenv("VERIF_HDIR"); d != "" {
		return d
	}
	return filepath.Join(verifDir(), "harness")
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func dbg() {
	e, err := Load(hdirArg(), strings.Split(os.Args[2], ","))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e.tier = envTier()
	fmt.Println("load", e.loadTime)
	secs := 300
	if s := os.Getenv("VERIF_SECS"); s != "" {
		secs, _ = strconv.Atoi(s)
	}
	for _, h := range e.harnessNames(os.Args[3]) {
		ex := e.Explore(h, e.harness[h], time.Duration(secs)*time.Second, 0)
		fmt.Printf("%s paths=%d infeasible=%d instrs=%d branches=%d merges=%d asserts=%d/%d queries=%d hits=%d solver=%v maxq=%v wall=%v outcomes=%v covers=%v incomplete=%q\n", h, ex.paths, ex.infeasible, ex.instrs, ex.branches, ex.merges, ex.discharged, ex.asserts, ex.queries, ex.qhits, ex.solverTime, ex.maxQuery, ex.wall, ex.outcomes, ex.covers, ex.incomplete)
		for i, v := range ex.viol {
			if i > 60 {
				break
			}
			fmt.Println("  VIOL", v.Kind, "|", v.Label, "|", v.Case, "|", v.Detail, v.Inputs, v.Logs)
		}
		for k, n := range ex.unsup {
			fmt.Println("  UNSUP", n, k)
		}
	}
}

func envTier() int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 1
	}
	return 0
}

type hInfo struct {
	group, name, doc string
}

// findHarnesses lists the harness functions deciding a property.
func findHarnesses(hdir, prop string) ([]hInfo, error) {
	var out []hInfo
	files, _ := filepath.Glob(filepath.Join(hdir, "verifh", "*", "*.go"))
	fset := token.NewFileSet()
	for _, f := range files {
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "H_"+prop+"_") {
				out = append(out, hInfo{filepath.Base(filepath.Dir(f)), fd.Name.Name, strings.Join(strings.Fields(fd.Doc.Text()), " ")})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out, nil
}

// ---- native side -------------------------------------------------------

type native struct {
	dir  string
	bin  string
	err  error
	done chan bool
	n    int64
}

// buildNative compiles the same harnesses with the real Go compiler.
func buildNative(hdir string, hs []hInfo) *native {
	n := &native{done: make(chan bool)}
	d, err := os.MkdirTemp("", "verifnative")
	if err != nil {
		n.err = err
		close(n.done)
		return n
	}
	n.dir = d
	n.bin = filepath.Join(d, "replay")
	go func() {
		defer close(n.done)
		var b strings.Builder
		b.WriteString("package main\n\nimport (\n\trt \"" + rtPath + "\"\n")
		gs := map[string]bool{}
		for _, h := range hs {
			if !gs[h.group] {
				gs[h.group] = true
				fmt.Fprintf(&b, "\t%s %q\n", h.group, hPath+"/"+h.group)
			}
		}
		b.WriteString(")\n\nfunc main() {\n\trt.Main(map[string]func(){\n")
		for _, h := range hs {
			fmt.Fprintf(&b, "\t\t%q: %s.%s,\n", h.name, h.group, h.name)
		}
		b.WriteString("\t})\n}\n")
		mf := filepath.Join(d, "main.go")
		os.WriteFile(mf, []byte(b.String()), 0o644)
		ov := map[string]map[string]string{"Replace": {}}
		for dst, src := range overlayFiles(hdir) {
			ov["Replace"][dst] = src
		}
		ov["Replace"][filepath.Join(repo, "internals/verifh/cmd/main.go")] = mf
		of := filepath.Join(d, "overlay.json")
		writeJSON(of, ov)
		cmd := exec.Command("go", "build", "-overlay", of, "-o", n.bin, "./internals/verifh/cmd")
		cmd.Dir = repo
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build failed: %v\n%s", err, out)
		}
	}()
	return n
}

func (n *native) wait() error { <-n.done; return n.err }

func (n *native) close() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

type natResult struct {
	Outcome string   `json:"outcome"`
	Logs    []string `json:"logs"`
	stderr  string
}

type replayRec struct {
	Property string   `json:"property,omitempty"`
	Harness  string   `json:"harness"`
	Inputs   []uint64 `json:"inputs"`
	Names    []string `json:"input_names,omitempty"`
	Tier     int      `json:"tier"`
	Kind     string   `json:"kind,omitempty"`
	Label    string   `json:"label,omitempty"`
	Case     string   `json:"case,omitempty"`
	Detail   string   `json:"detail,omitempty"`
	Logs     []string `json:"logs,omitempty"`
	Native   string   `json:"native_outcome,omitempty"`
	Seq      int      `json:"-"`
}

var replaySeq int64
var replayMu sync.Mutex

// run replays one input vector; outcome is done, "ASSERT-FAIL label", panic, exit, hang, ...
func (n *native) run(r replayRec, timeout time.Duration) natResult {
	replayMu.Lock()
	replaySeq++
	id := replaySeq
	n.n++
	replayMu.Unlock()
	f := filepath.Join(n.dir, fmt.Sprintf("r%d.json", id))
	b, _ := json.Marshal(r)
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	// bound the address space so that runaway recursion ends quickly
	cmd := exec.CommandContext(ctx, n.bin, f)
	cmd.Dir = n.dir
	cmd.Env = append(goEnv(), "GOMAXPROCS=2", "GOMEMLIMIT=2GiB", "TMPDIR="+n.dir, "GOTRACEBACK=single")
	var errb bytes.Buffer
	cmd.Stderr = &limitBuf{b: &errb, max: 1 << 20}
	cmd.Stdout = nil
	err := cmd.Run()
	var res natResult
	res.stderr = errb.String()
	if i := strings.LastIndex(res.stderr, "VERIF-RESULT "); i >= 0 {
		line := firstLine(res.stderr[i+len("VERIF-RESULT "):])
		if json.Unmarshal([]byte(line), &res) == nil && res.Outcome != "" {
			return res
		}
	}
	switch {
	case ctx.Err() != nil:
		res.Outcome = "hang"
	case strings.Contains(res.stderr, "stack overflow") || strings.Contains(res.stderr, "stack exceeds"):
		res.Outcome = "stackoverflow"
	case strings.Contains(res.stderr, "panic: ") || strings.Contains(res.stderr, "fatal error: "):
		res.Outcome = "panic"
	case err != nil:
		res.Outcome = "exit"
	default:
		res.Outcome = "exit"
	}
	return res
}

type limitBuf struct {
	b   *bytes.Buffer
	max int
}

func (l *limitBuf) Write(p []byte) (int, error) {
	if l.b.Len()+len(p) <= l.max {
		l.b.Write(p)
	} else if l.b.Len() < l.max {
		l.b.Write(p[:l.max-l.b.Len()])
	}
	return len(p), nil
}

// confirms reports whether a native outcome exhibits the violation.
func confirms(v Violation, o string) bool {
	switch v.Kind {
	case "assert":
		return o == "ASSERT-FAIL "+v.Label
	case "panic":
		return o == "panic" || o == "stackoverflow"
	case "exit":
		return o == "exit"
	case "hang":
		return o == "hang" || o == "stackoverflow" || o == "panic"
	case "stackoverflow":
		return o == "stackoverflow" || o == "hang" || o == "panic"
	}
	return false
}

// ---- property run ------------------------------------------------------

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Kind     string `json:"kind"`
	Label    string `json:"label"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown() ([]known, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var ks []known
	return ks, json.Unmarshal(b, &ks)
}

func runProp(prop string) int {
	t0 := time.Now()
	tier := envTier()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.ParseInt(s, 10, 64)
	}
	rng := rand.New(rand.NewSource(seed))
	hdir := hdirArg()
	kn, err := loadKnown()
	if err != nil {
		fmt.Println("error: known_findings.json:", err)
		return 2
	}
	hs, err := findHarnesses(hdir, prop)
	if err != nil || len(hs) == 0 {
		fmt.Println("error: no harness for", prop, err)
		return 2
	}
	nat := buildNative(hdir, hs)
	defer nat.close()
	gs := map[string]bool{}
	var groups []string
	for _, h := range hs {
		if !gs[h.group] {
			gs[h.group] = true
			groups = append(groups, h.group)
		}
	}
	e, err := Load(hdir, groups)
	if err != nil {
		fmt.Println("error: load:", err)
		return 2
	}
	e.tier = tier
	if err := nat.wait(); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	total := 420 * time.Second
	valPer := 120
	if tier == 1 {
		total = 3 * time.Hour
		valPer = 1000
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			total = time.Duration(n) * time.Second
		}
	}
	deadline := time.Now().Add(total)
	ev := map[string]any{}
	var hev []map[string]any
	var states, valid int
	var trans, branches, asserts, disch int64
	var queries, unknown int
	var solver time.Duration
	fns := map[string]bool{}
	var samples []any
	nviol, nknown := 0, 0
	incomplete := []string{}
	knownHit := map[int]bool{}
	rc := 0
	os.MkdirAll(filepath.Join(verifDir(), "replays"), 0o755)
	old, _ := filepath.Glob(filepath.Join(verifDir(), "replays", prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	report := func(v Violation, nr natResult) {
		for i, k := range kn {
			if k.Property == prop && k.Status == "known" && k.Kind == v.Kind && k.Label == v.Label && k.Case == v.Case {
				if !knownHit[i] {
					knownHit[i] = true
					nknown++
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
				return
			}
		}
		nviol++
		rc = 1
		f := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%d.json", prop, nviol))
		writeJSON(f, replayRec{Property: prop, Harness: v.Harness, Inputs: v.Inputs, Names: v.Names, Tier: tier, Kind: v.Kind, Label: v.Label, Case: v.Case, Detail: v.Detail, Logs: v.Logs, Native: nr.Outcome})
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		fmt.Printf("  harness=%s kind=%s label=%q case=%q\n", v.Harness, v.Kind, v.Label, v.Case)
		for _, l := range v.Logs {
			if len(l) > 2000 {
				l = l[:2000] + "..."
			}
			fmt.Printf("  %s\n", l)
		}
		if v.Detail != "" {
			fmt.Printf("  %s\n", firstLine(v.Detail))
		}
		if nr.Outcome == "panic" {
			if i := strings.Index(nr.stderr, "panic: "); i >= 0 {
				fmt.Printf("  native: %s\n", firstLine(nr.stderr[i:]))
			}
		}
	}
	isKnown := func(key string) bool {
		for _, k := range kn {
			if k.Property == prop && k.Status == "known" && k.Kind+"|"+k.Label+"|"+k.Case == key {
				return true
			}
		}
		return false
	}
	mism, unconf := 0, 0
	for i, h := range hs {
		left := time.Until(deadline)
		if left < 5*time.Second {
			left = 5 * time.Second
		}
		budget := left / time.Duration(len(hs)-i)
		if budget < 20*time.Second && left > 20*time.Second {
			budget = 20 * time.Second
		}
		e.isKnown = isKnown
		ex := e.Explore(h.name, e.harness[h.name], budget, 0)
		states += ex.paths
		trans += ex.instrs
		branches += ex.branches
		asserts += ex.asserts
		disch += ex.discharged
		queries += ex.queries
		unknown += ex.unknown
		solver += ex.solverTime
		for f := range ex.fnSeen {
			fns[f] = true
		}
		// every path the encoding could not carry on is replayed concretely
		unsup := append([]Violation(nil), ex.unsupW...)
		// violations, confirmed on the real code
		type job struct {
			v  Violation
			nr natResult
			ok bool
		}
		var jobs []*job
		for _, v := range ex.viol {
			jobs = append(jobs, &job{v: v})
		}
		par(len(jobs), func(i int) {
			j := jobs[i]
			n := 1
			if j.v.mapDep {
				n = 60
			}
			for k := 0; k < n; k++ {
				to := 20 * time.Second
				j.nr = nat.run(replayRec{Harness: h.name, Inputs: j.v.Inputs, Tier: tier}, to)
				if confirms(j.v, j.nr.Outcome) {
					j.ok = true
					return
				}
			}
		})
		seen := map[string]bool{}
		for _, j := range jobs {
			key := j.v.Kind + "|" + j.v.Label + "|" + j.v.Case
			if j.ok {
				if !seen[key] {
					seen[key] = true
					report(j.v, j.nr)
				}
			}
		}
		for _, j := range jobs {
			key := j.v.Kind + "|" + j.v.Label + "|" + j.v.Case
			if !j.ok && !seen[key] {
				unconf++
				fmt.Fprintf(os.Stderr, "note: %s: counterexample %s not reproduced natively (native: %s)\n%s\n%v\n%v\n", h.name, key, j.nr.Outcome, j.v.Detail, j.v.Logs, j.v.Inputs)
				incomplete = append(incomplete, h.name+": unconfirmed counterexample "+key)
			}
		}
		// validation of completed paths
		sm := ex.samples
		if len(sm) > valPer {
			rng.Shuffle(len(sm), func(a, b int) { sm[a], sm[b] = sm[b], sm[a] })
			sm = sm[:valPer]
		}
		type vres struct {
			ok bool
			nr natResult
		}
		vr := make([]vres, len(sm))
		par(len(sm), func(i int) {
			n := 1
			for k := 0; k < n; k++ {
				nr := nat.run(replayRec{Harness: h.name, Inputs: sm[i].Inputs, Tier: tier}, 20*time.Second)
				vr[i].nr = nr
				vr[i].ok = nr.Outcome == sm[i].Outcome && (nr.Outcome == "exit" || eqStrings(nr.Logs, sm[i].Logs))
			}
		})
		natViol := map[string]bool{}
		natReport := func(inputs []uint64, nr natResult) bool {
			v := Violation{Harness: h.name, Inputs: inputs, Logs: nr.Logs}
			switch {
			case strings.HasPrefix(nr.Outcome, "ASSERT-FAIL "):
				v.Kind, v.Label = "assert", nr.Outcome[len("ASSERT-FAIL "):]
			case nr.Outcome == "panic", nr.Outcome == "hang", nr.Outcome == "stackoverflow":
				v.Kind, v.Label, v.Detail = nr.Outcome, "native", "native replay of a path outside the encoding"
			default:
				return false
			}
			key := v.Kind + v.Label
			if !natViol[key] && len(seen) == 0 {
				natViol[key] = true
				report(v, nr)
			}
			return true
		}
		nv := 0
		for i := range sm {
			if vr[i].ok {
				nv++
				continue
			}
			mism++
			if mism <= 5 {
				fmt.Fprintf(os.Stderr, "note: %s: native run differs: inputs %v\n  engine %s %v\n  native %s %v\n", h.name, sm[i].Inputs, sm[i].Outcome, sm[i].Logs, vr[i].nr.Outcome, vr[i].nr.Logs)
			}
			natReport(sm[i].Inputs, vr[i].nr)
		}
		valid += nv
		if len(unsup) > 0 {
			ur := make([]natResult, len(unsup))
			par(len(unsup), func(i int) {
				ur[i] = nat.run(replayRec{Harness: h.name, Inputs: unsup[i].Inputs, Tier: tier}, 20*time.Second)
			})
			for i := range unsup {
				natReport(unsup[i].Inputs, ur[i])
			}
		}
		if len(ex.covers) == 0 && len(ex.viol) == 0 && len(ex.unsupW) == 0 {
			fmt.Printf("error: %s: vacuous (no cover point reached)\n", h.name)
			if rc == 0 {
				rc = 2
			}
		}
		if ex.incomplete != "" {
			incomplete = append(incomplete, h.name+": "+ex.incomplete)
		}
		he := map[string]any{"harness": h.name, "what_and_bounds": h.doc, "paths": ex.paths, "infeasible_paths": ex.infeasible, "assertions_checked": ex.asserts, "assertions_discharged": ex.discharged, "solver_queries": ex.queries, "cached_queries": ex.qhits, "solver_unknown": ex.unknown, "solver_s": round(ex.solverTime.Seconds()), "max_query_s": round(ex.maxQuery.Seconds()), "wall_s": round(ex.wall.Seconds()), "merged_regions": ex.merges, "outcomes": ex.outcomes, "reachability_witnesses": ex.covers, "complete_within_bounds": ex.incomplete == "" && len(ex.unsup) == 0, "native_validated": nv}
		if ex.incomplete != "" {
			he["incomplete"] = ex.incomplete
		}
		if len(ex.unsup) > 0 {
			var us []string
			for k, n := range ex.unsup {
				us = append(us, fmt.Sprintf("%d× %s", n, firstLine(k)))
			}
			sort.Strings(us)
			if len(us) > 10 {
				us = us[:10]
			}
			he["outside_encoding"] = us
		}
		hev = append(hev, he)
		for k := 0; k < len(sm) && k < 3; k++ {
			samples = append(samples, map[string]any{"harness": h.name, "inputs": sm[k].Inputs, "observed": trunc(sm[k].Logs), "outcome": sm[k].Outcome})
		}
		fmt.Printf("%s: %d paths, %d assertions, %d queries (%.1fs solver), %d validated natively, %.1fs%s\n", h.name, ex.paths, ex.asserts, ex.queries, ex.solverTime.Seconds(), nv, ex.wall.Seconds(), ifs(ex.incomplete != "", " INCOMPLETE: "+ex.incomplete, ""))
	}
	tierN := "quick"
	if tier == 1 {
		tierN = "thorough"
	}
	var fl []string
	for f := range fns {
		fl = append(fl, strings.TrimPrefix(f, modulePrefix))
	}
	sort.Strings(fl)
	ev["property"] = prop
	ev["tier"] = tierN
	ev["seed"] = seed
	ev["level"] = "model_checking"
	ev["coverage"] = map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples,
		"explanation":           "states = symbolic paths explored to completion (each stands for every input satisfying its path condition); transitions = SSA instructions executed symbolically; every branch on symbolic data and every assertion is decided by the SMT solver",
		"exhaustive":            len(incomplete) == 0,
		"symbolic_branches":     branches,
		"assertions_checked":    asserts,
		"assertions_discharged": disch,
		"solver_queries":        queries,
		"solver_unknown":        unknown,
		"solver_seconds":        round(solver.Seconds()),
		"solver":                e.z3,
		"functions_encoded":     fl,
		"functions_encoded_n":   len(fl),
		"harnesses":             hev,
		"native_replays":        nat.n,
		"native_mismatches":     mism,
		"unconfirmed":           unconf,
		"known_findings_seen":   nknown,
		"incomplete":            incomplete,
		"encoding_load_seconds": round(e.loadTime.Seconds()),
		"peak_unit_of_encoding": "golang.org/x/tools/go/ssa of /repo's working tree, rebuilt on this run",
	}
	ev["assumptions"] = []string{
		"sequential consistency is not at issue: the code under test is single-threaded",
		"the engine's models of fmt, strconv formatting, strings.Builder, os.ReadFile and the logger stand for the real ones (spot-checked by native replays)",
		"nothing is claimed beyond the bounds listed per harness",
	}
	ev["wall_s"] = round(time.Since(t0).Seconds())
	ev["violations"] = nviol
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := writeJSON(filepath.Join(verifDir(), "evidence", prop+".json"), ev); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	if rc == 0 {
		fmt.Printf("OK property=%s %.1fs\n", prop, time.Since(t0).Seconds())
	}
	return rc
}

func trunc(l []string) []string {
	var out []string
	for i, s := range l {
		if i > 12 {
			out = append(out, "...")
			break
		}
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		out = append(out, s)
	}
	return out
}

func ifs(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

func round(f float64) float64 { return float64(int64(f*1000+0.5)) / 1000 }

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func par(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			f(i)
			<-sem
		}(i)
	}
	wg.Wait()
}

func replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r replayRec
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	hs, err := findHarnesses(hdirArg(), r.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	nat := buildNative(hdirArg(), hs)
	defer nat.close()
	if err := nat.wait(); err != nil {
		fmt.Println(err)
		return 2
	}
	nr := nat.run(r, 30*time.Second)
	fmt.Println("outcome:", nr.Outcome)
	for _, l := range nr.Logs {
		fmt.Println("  " + l)
	}
	if nr.Outcome != "done" {
		fmt.Println(nr.stderr)
		return 1
	}
	return 0
}
