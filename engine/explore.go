package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Item struct {
	prefix []uint32
	model  Model
}

type Input struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	term *Term
	val  uint64 // for choices
	ch   bool
}

type Event struct {
	label string
	val   V
	ti    *TI
}

type Violation struct {
	Kind    string // assert, panic, exit, hang, stackoverflow
	Label   string
	Detail  string
	Inputs  []uint64
	Names   []string
	Logs    []string
	Path    []uint32
	Case    string
	mapDep  bool
	Harness string
}

type Completed struct {
	Inputs  []uint64
	Logs    []string
	Outcome string
}

// Exploration of one harness.
type Explore struct {
	eng      *Engine
	h        string
	entry    *ssa.Function
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []Item
	busy     int
	stop     bool
	deadline time.Time
	maxPaths int

	// results
	paths        int
	infeasible   int
	instrs       int64
	branches     int64
	merges       int64
	asserts      int64
	discharged   int64
	queries      int
	qhits        int
	unknown      int
	solverTime   time.Duration
	maxQuery     time.Duration
	viol         []Violation
	unsupW       []Violation
	nviolPaths   int
	newViol      int
	violSeen     map[string]int
	incomplete   string
	unsup        map[string]int
	covers       map[string]int
	fnSeen       map[string]bool
	samples      []Completed
	outcomes     map[string]int
	maxViol      int
	maxViolPaths int
	maxLog       int
	start        time.Time
	wall         time.Duration
}

type Worker struct {
	eng    *Engine
	ex     *Explore
	ctx    *TermCtx
	solver *Solver
	fnSeen []bool
	id     int
	stk    []V
}

func (w *Worker) growSeen(id int) {
	n := make([]bool, id+1024)
	copy(n, w.fnSeen)
	w.fnSeen = n
	w.fnSeen[id] = true
}

type Path struct {
	w         *Worker
	prefix    []uint32
	log       []uint32
	pc        []*Term
	known     map[*Term]bool
	model     Model
	inputs    []Input
	events    []Event
	steps     int64
	maxSteps  int64
	depth     int
	maxDepth  int
	stack     []V
	sp        int
	fr        *Frame
	globals   []*V
	mergeFail map[int32]int
	noMerge   bool
	merges    int64
	branches  int64
	asserts   int64
	disch     int64
	mapOrder  int
	randMode  int
	mapUsed   bool
	caseName  string
	lastPanic string
	allowExit bool
	diagExit  bool // an exit with an error message for the user is allowed, one for an internal error isn't
	covers    map[string]bool
	seq       int
	inInit    bool
	extra     map[string]any
}

// learn records that t holds (and, if add is set, asserts it in the path
// condition). The set of known facts must not depend on add: replays of a
// decision prefix always pass add=true.
func (p *Path) learn(t *Term, add bool) {
	if p.known[t] {
		return
	}
	c := p.w.ctx
	if t.op == OBAnd {
		p.known[t] = true
		p.known[c.not(t)] = false
		p.learn(t.a[0], add)
		p.learn(t.a[1], add)
		return
	}
	if t.op == OBNot && t.a[0].op == OBOr {
		p.known[t] = true
		p.known[t.a[0]] = false
		p.learn(c.not(t.a[0].a[0]), add)
		p.learn(c.not(t.a[0].a[1]), add)
		return
	}
	p.known[t] = true
	p.known[c.not(t)] = false
	if add {
		p.pc = append(p.pc, t)
	}
}

func (p *Path) addPC(t *Term)    { p.learn(t, true) }
func (p *Path) setKnown(t *Term) { p.learn(t, false) }

func mergeModel(a, b Model) Model {
	m := make(Model, len(a)+len(b))
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		m[k] = v
	}
	return m
}

func (p *Path) push(d uint32, m Model) {
	pre := make([]uint32, len(p.log)+1)
	copy(pre, p.log)
	pre[len(p.log)] = d
	p.w.ex.pushItem(Item{pre, m})
}

func (ex *Explore) pushItem(it Item) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

// branch decides a symbolic condition, queueing the other side if feasible.
func (p *Path) branch(t *Term) bool {
	if kv, ok := p.known[t]; ok {
		return kv
	}
	p.branches++
	c := p.w.ctx
	if len(p.log) < len(p.prefix) {
		d := p.prefix[len(p.log)] != 0
		p.log = append(p.log, b2d(d))
		if d {
			p.addPC(t)
		} else {
			p.addPC(c.not(t))
		}
		return d
	}
	mv := c.eval(t, p.model) != 0
	oth := c.not(t)
	mine := t
	if !mv {
		oth, mine = t, c.not(t)
	}
	sat, m := p.w.solver.Check(p.pc, oth)
	switch sat {
	case 1:
		p.push(b2d(!mv), mergeModel(p.model, m))
		p.log = append(p.log, b2d(mv))
		p.addPC(mine)
	case 0:
		p.log = append(p.log, b2d(mv))
		p.setKnown(mine)
	default:
		p.w.ex.noteIncomplete("solver unknown at a branch" + p.where())
		p.log = append(p.log, b2d(mv))
		p.addPC(mine)
	}
	return mv
}

func b2d(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (ex *Explore) noteIncomplete(s string) {
	ex.mu.Lock()
	if ex.incomplete == "" {
		ex.incomplete = s
	}
	ex.mu.Unlock()
}

// choose explores every value in [0,n).
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if len(p.log) < len(p.prefix) {
		d := p.prefix[len(p.log)]
		p.log = append(p.log, d)
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		p.push(uint32(i), p.model)
	}
	p.log = append(p.log, 0)
	return 0
}

// concretize picks a value for t (from the model), forking the remaining values.
func (p *Path) concretize(t *Term) uint64 {
	if t.isC() {
		return t.k
	}
	c := p.w.ctx
	for i := 0; ; i++ {
		var v uint64
		if len(p.log) < len(p.prefix) {
			// value stored as two words
			lo, hi := p.prefix[len(p.log)], p.prefix[len(p.log)+1]
			p.log = append(p.log, lo, hi)
			v = uint64(hi)<<32 | uint64(lo)
		} else {
			v = c.eval(t, p.model)
			p.log = append(p.log, uint32(v), uint32(v>>32))
		}
		if p.branch(c.eq(t, c.konst(t.w, v))) {
			return v
		}
		if i > 4096 {
			p.fatal("concretization does not converge")
		}
	}
}

func (p *Path) assume(v V) {
	t, ok := v.r.(*Term)
	if !ok {
		if v.u == 0 {
			panic(pathEnd{"infeasible", ""})
		}
		return
	}
	if t.isC() {
		if t.k == 0 {
			panic(pathEnd{"infeasible", ""})
		}
		return
	}
	if kv, ok := p.known[t]; ok {
		if !kv {
			panic(pathEnd{"infeasible", ""})
		}
		return
	}
	c := p.w.ctx
	if len(p.log) < len(p.prefix) {
		// assumed before the fork point: already satisfied by the item's model
		p.log = append(p.log, p.prefix[len(p.log)])
		p.addPC(t)
		return
	}
	p.log = append(p.log, 1)
	if c.eval(t, p.model) == 0 {
		sat, m := p.w.solver.Check(p.pc, t)
		if sat == 0 {
			panic(pathEnd{"infeasible", ""})
		}
		if sat < 0 {
			p.w.ex.noteIncomplete("solver unknown at assume")
			panic(pathEnd{"infeasible", ""})
		}
		p.model = mergeModel(p.model, m)
	}
	p.addPC(t)
}

func (p *Path) assertV(v V, label string) {
	t, ok := v.r.(*Term)
	if ok && t.isC() {
		v, ok = V{u: t.k}, false
	}
	// assertions before the fork point were counted by the path that forked
	fresh := int64(1)
	if len(p.log) < len(p.prefix) {
		fresh = 0
	}
	p.asserts += fresh
	if !ok {
		if v.u == 0 {
			p.violate("assert", label, "", p.model)
		}
		p.disch += fresh
		return
	}
	if kv, ok := p.known[t]; ok && kv {
		p.disch += fresh
		return
	}
	c := p.w.ctx
	if len(p.log) < len(p.prefix) {
		p.log = append(p.log, p.prefix[len(p.log)])
		p.addPC(t)
		return
	}
	p.log = append(p.log, 1)
	if c.eval(t, p.model) == 0 {
		p.violate("assert", label, "", p.model)
	}
	sat, m := p.w.solver.Check(p.pc, c.not(t))
	switch sat {
	case 1:
		p.violate("assert", label, "", mergeModel(p.model, m))
	case 0:
		p.disch++
		p.setKnown(t)
	default:
		p.w.ex.noteIncomplete("solver unknown at assertion " + label)
		p.addPC(t)
	}
}

func (p *Path) violate(kind, label, detail string, m Model) {
	p.model = m
	panic(pathEnd{"violation:" + kind, label + "\x00" + detail})
}

func (p *Path) inputVals() ([]uint64, []string) {
	var vals []uint64
	var names []string
	for _, in := range p.inputs {
		if in.ch {
			vals = append(vals, in.val)
		} else {
			vals = append(vals, p.w.ctx.eval(in.term, p.model))
		}
		names = append(names, in.Name)
	}
	return vals, names
}

func (p *Path) logs() []string {
	var out []string
	for _, e := range p.events {
		out = append(out, e.label+"="+p.show(e.val, e.ti, 0))
	}
	return out
}

func (p *Path) newInput(name string, w uint8) *Term {
	n := fmt.Sprintf("i%d_%s", len(p.inputs), name)
	t := p.w.ctx.variable(fmt.Sprintf("%s_%d", n, w), w)
	p.inputs = append(p.inputs, Input{Name: n, W: w, term: t})
	return t
}

func (p *Path) global(i int32) *V {
	if int(i) >= len(p.globals) {
		n := make([]*V, numGlobals()+64)
		copy(n, p.globals)
		p.globals = n
	}
	v := p.globals[i]
	if v == nil {
		g := globalAt(i)
		if p.w.eng.stdInit[g.Pkg] {
			v = p.w.eng.stdGlobal(i)
		} else {
			if !initAllowed(g.Pkg.Pkg.Path()) && storedByInit(g) && !stream[g.String()] {
				p.fatal("global %s of a package whose initialiser is not modelled", g.String())
			}
			v = new(V)
			*v = zero(TypeInfo(g.Type()).elem)
		}
		p.globals[i] = v
	}
	return v
}

func (w *Worker) pathStack() []V {
	if w.stk == nil {
		w.stk = make([]V, 1<<16)
	}
	return w.stk
}

func (w *Worker) newPath(it Item) *Path {
	return &Path{w: w, prefix: it.prefix, model: it.model, known: map[*Term]bool{}, mergeFail: map[int32]int{}, maxSteps: w.ex.eng.maxSteps, maxDepth: 1500, stack: w.pathStack(), covers: map[string]bool{}, extra: map[string]any{}}
}

func (w *Worker) runPath(it Item) {
	p := w.newPath(it)
	ex := w.ex
	kind, msg := "done", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					kind, msg = x.kind, x.msg
				case *tPanic:
					kind, msg = "violation:panic", "uncaught panic\x00"+x.msg+x.tr
				default:
					kind, msg = "unsupported", fmt.Sprintf("engine error: %v%s\n%s", r, p.where(), string(debug.Stack()))
				}
			}
		}()
		p.inInit = true
		for _, f := range w.eng.initFns {
			p.callFn(getFn(f), nil, nil)
		}
		p.inInit = false
		p.steps = 0
		p.callFn(getFn(ex.entry), nil, nil)
	}()
	if len(p.log) < len(p.prefix) && kind == "done" {
		kind, msg = "unsupported", "engine error: replay diverged"
	}
	switch kind {
	case "exit":
		if !p.allowExit && !(p.diagExit && strings.HasPrefix(msg, "os.Exit") && !strings.Contains(msg, "nternal"+"Error")) {
			kind, msg = "violation:exit", "process exit\x00"+msg
		}
	case "steplimit":
		kind, msg = "violation:hang", "step limit\x00"+msg
	case "stackoverflow":
		kind, msg = "violation:stackoverflow", "stack overflow\x00"+msg
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.instrs += p.steps
	ex.branches += p.branches
	ex.merges += p.merges
	ex.asserts += p.asserts
	ex.discharged += p.disch
	if len(p.log) > ex.maxLog {
		ex.maxLog = len(p.log)
	}
	if kind == "infeasible" {
		ex.infeasible++
		return
	}
	ex.paths++
	ex.outcomes[kind]++
	for k := range p.covers {
		ex.covers[k]++
	}
	switch {
	case kind == "unsupported":
		ex.unsup[msg]++
		if len(ex.unsupW) < 200 {
			v := Violation{Kind: "unsupported", Label: firstLine(msg), Case: p.caseName, Harness: ex.h}
			v.Inputs, _ = p.inputVals()
			ex.unsupW = append(ex.unsupW, v)
		}
		if ex.incomplete == "" {
			ex.incomplete = "unsupported: " + firstLine(msg)
		}
	case strings.HasPrefix(kind, "violation:"):
		parts := strings.SplitN(msg, "\x00", 2)
		v := Violation{Kind: kind[len("violation:"):], Label: parts[0], Case: p.caseName, Harness: ex.h, mapDep: p.mapUsed}
		if len(parts) > 1 {
			v.Detail = parts[1]
		}
		v.Inputs, v.Names = p.inputVals()
		v.Logs = p.logs()
		v.Path = p.log
		key := v.Kind + "|" + v.Label + "|" + v.Case
		ex.violSeen[key]++
		if ex.eng.isKnown == nil || !ex.eng.isKnown(key) {
			ex.nviolPaths++
			if ex.violSeen[key] == 1 {
				ex.newViol++
			}
		}
		if os.Getenv("VERIF_DISTINCT") != "" { // development: one example per stack
			f := strings.Split(v.Detail, " <- ")
			if len(f) > 3 {
				f = f[:3]
			}
			key += "|" + strings.Join(f, "<-")
			if ex.violSeen[key]++; v.Detail == "" {
				key += v.Logs[len(v.Logs)-1]
				ex.violSeen[key]++
			}
		}
		if ex.violSeen[key] <= 2 {
			ex.viol = append(ex.viol, v)
		}
	default:
		// keep a spread of completed paths for native validation
		n := ex.paths
		if len(ex.samples) < 400 || n%97 == 0 {
			var c Completed
			c.Inputs, _ = p.inputVals()
			c.Logs = p.logs()
			c.Outcome = kind
			ex.samples = append(ex.samples, c)
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (ex *Explore) worker(id int, wg *sync.WaitGroup) {
	defer wg.Done()
	w := &Worker{eng: ex.eng, ex: ex, id: id, fnSeen: make([]bool, 4096)}
	w.ctx = NewTermCtx()
	w.solver = NewSolver(w.ctx, ex.eng.z3, ex.eng.queryMs)
	defer w.solver.Close()
	for {
		ex.mu.Lock()
		for len(ex.stack) == 0 && ex.busy > 0 && !ex.stop {
			ex.cond.Wait()
		}
		if ex.stop || (len(ex.stack) == 0 && ex.busy == 0) {
			ex.mu.Unlock()
			ex.cond.Broadcast()
			break
		}
		if time.Now().After(ex.deadline) || (ex.maxPaths > 0 && ex.paths >= ex.maxPaths) {
			ex.stop = true
			if ex.incomplete == "" {
				ex.incomplete = fmt.Sprintf("budget exhausted with %d pending paths", len(ex.stack))
			}
			ex.mu.Unlock()
			ex.cond.Broadcast()
			break
		}
		if ex.newViol >= ex.maxViol || ex.nviolPaths >= ex.maxViolPaths {
			ex.stop = true
			ex.mu.Unlock()
			ex.cond.Broadcast()
			break
		}
		it := ex.stack[len(ex.stack)-1]
		ex.stack = ex.stack[:len(ex.stack)-1]
		ex.busy++
		ex.mu.Unlock()
		w.runPath(it)
		ex.mu.Lock()
		ex.busy--
		done := ex.busy == 0 && len(ex.stack) == 0
		ex.mu.Unlock()
		if done {
			ex.cond.Broadcast()
		}
		if len(w.ctx.tab) > 400000 {
			w.flush()
			w.ctx = NewTermCtx()
			w.solver.ctx = w.ctx
			w.solver.cache = map[string]*qres{}
		}
	}
	w.flush()
	ex.mu.Lock()
	for i, b := range w.fnSeen {
		if b {
			fnMu.Lock()
			f := fnList[i]
			fnMu.Unlock()
			if f.inModule {
				ex.fnSeen[f.name] = true
			}
		}
	}
	ex.mu.Unlock()
}

func (w *Worker) flush() {
	ex := w.ex
	ex.mu.Lock()
	ex.queries += w.solver.queries
	ex.qhits += w.solver.hits
	ex.unknown += w.solver.unknown
	ex.solverTime += w.solver.time
	if w.solver.maxT > ex.maxQuery {
		ex.maxQuery = w.solver.maxT
	}
	w.solver.queries, w.solver.hits, w.solver.unknown, w.solver.time = 0, 0, 0, 0
	ex.mu.Unlock()
}

func (e *Engine) Explore(h string, entry *ssa.Function, budget time.Duration, maxPaths int) *Explore {
	ex := &Explore{eng: e, h: h, entry: entry, deadline: time.Now().Add(budget), maxPaths: maxPaths,
		violSeen: map[string]int{}, unsup: map[string]int{}, covers: map[string]int{}, fnSeen: map[string]bool{}, outcomes: map[string]int{}, maxViol: e.maxViol(), maxViolPaths: e.maxViolPaths(), start: time.Now()}
	ex.cond = sync.NewCond(&ex.mu)
	ex.stack = []Item{{nil, Model{}}}
	var wg sync.WaitGroup
	n := e.workers
	for i := 0; i < n; i++ {
		wg.Add(1)
		go ex.worker(i, &wg)
	}
	if os.Getenv("VERIF_PROGRESS") != "" {
		done := make(chan bool)
		go func() {
			for {
				select {
				case <-done:
					return
				case <-time.After(5 * time.Second):
					ex.mu.Lock()
					fmt.Fprintf(os.Stderr, "[%s] %.0fs paths=%d pending=%d viol=%d unsup=%d q=%d\n", h, time.Since(ex.start).Seconds(), ex.paths, len(ex.stack), len(ex.violSeen), len(ex.unsup), ex.queries)
					ex.mu.Unlock()
				}
			}
		}()
		defer close(done)
	}
	wg.Wait()
	ex.wall = time.Since(ex.start)
	return ex
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// syncMap2 caches a predicate over int pairs.
type syncMap2 struct{ m sync.Map }

func newSyncMap2() *syncMap2 { return &syncMap2{} }
func (s *syncMap2) get(a, b int, f func() bool) bool {
	k := [2]int{a, b}
	if v, ok := s.m.Load(k); ok {
		return v.(bool)
	}
	v := f()
	s.m.Store(k, v)
	return v
}
