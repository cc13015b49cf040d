package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded nondeterministic outcome of a path.
type Decision struct {
	b bool
	v uint64
	w string // where, when self-checking
}

type Item struct {
	prefix []Decision
	model  *Model
}

// Violation is a candidate counterexample.
type Violation struct {
	ID    string // assertion id, "panic", "hang", "deadlock", "leak"
	Msg   string
	Model *Model
	Trail []Decision
	Path  string
	Obs   []string
}

type PathInfo struct {
	Trail []Decision
	Model *Model
	Obs   []string
}

// Explorer owns the work queue of one harness.
type Explorer struct {
	prog    *Program
	entry   *ssa.Function
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []Item
	active  int
	stop    bool
	stopWhy string

	deadline time.Time
	maxPaths int
	workers  int
	qTimeout int
	maxSteps int
	maxViol  int

	// results
	Paths       int
	Done        int
	Assumed     int
	Unsup       map[string]int
	Limit       int
	LimitMsg    map[string]int
	Unknown     int
	Asserts     map[string]*AssertStat
	Reached     map[string]int
	Viol        []*Violation
	violKeys    map[string]int
	Samples     []PathInfo
	UnsupModels []*Model
	Funcs       map[*ssa.Function][]bool
	Steps       int64
	MaxPC       int
	Solver      SolverStats
	Decisions   int64
	Wall        time.Duration
	LeftQueue   int
	EngineErrs  []string
	nodup       map[string]bool
	rnd         *rand.Rand
	params      map[string]int
}

type AssertStat struct {
	Discharged int // proved unsat for the negation (or trivially true on the path)
	Trivial    int
	Violated   int
	Unknown    int
}

type SolverStats struct {
	Queries, CacheHits, Sat, Unsat, Unknown, Restarts int
	Time, Max                                         time.Duration
}

func NewExplorer(p *Program, entry *ssa.Function) *Explorer {
	e := &Explorer{prog: p, entry: entry, Unsup: map[string]int{}, LimitMsg: map[string]int{}, Asserts: map[string]*AssertStat{}, Reached: map[string]int{}, violKeys: map[string]int{}, Funcs: map[*ssa.Function][]bool{}, workers: 8, qTimeout: 10000, maxSteps: 20_000_000, maxViol: 4, nodup: map[string]bool{}}
	e.cond = sync.NewCond(&e.mu)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	e.rnd = rand.New(rand.NewSource(seed))
	return e
}

func (e *Explorer) push(it Item) {
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Explorer) pop() (Item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return Item{}, false
		}
		if time.Now().After(e.deadline) {
			e.stop, e.stopWhy = true, "time budget"
			e.cond.Broadcast()
			return Item{}, false
		}
		if n := len(e.queue); n > 0 {
			if e.maxPaths > 0 && e.Paths >= e.maxPaths {
				e.stop, e.stopWhy = true, "path budget"
				e.cond.Broadcast()
				return Item{}, false
			}
			// mostly depth first (small queue, warm caches), but when the
			// budget does not cover everything what is covered is spread out
			k := n - 1
			if n < 100000 {
				switch e.Paths % 4 {
				case 1, 2:
					k = e.rnd.Intn(n)
				case 3:
					k = e.rnd.Intn(n/8 + 1)
				}
			}
			it := e.queue[k]
			e.queue[k] = e.queue[n-1]
			e.queue = e.queue[:n-1]
			e.active++
			e.Paths++
			return it, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return Item{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.queue) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Explorer) Run() {
	t0 := time.Now()
	e.queue = append(e.queue, Item{model: newModel()})
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newWorker(e, i)
			defer w.close()
			for {
				it, ok := e.pop()
				if !ok {
					return
				}
				w.runPath(it)
				e.done()
			}
		}(i)
	}
	stopT := make(chan struct{})
	go func() {
		select {
		case <-stopT:
		case <-time.After(time.Until(e.deadline) + time.Second):
			e.mu.Lock()
			if !e.stop {
				e.stop, e.stopWhy = true, "time budget"
			}
			e.cond.Broadcast()
			e.mu.Unlock()
		}
	}()
	wg.Wait()
	close(stopT)
	e.LeftQueue = len(e.queue)
	e.Wall = time.Since(t0)
}

// Worker owns a term context, a solver and compiled code.
type Worker struct {
	e    *Explorer
	id   int
	c    *TermCtx
	s    *Solver
	fns  map[*ssa.Function]*cfn
	canT *typeCanon
	ints [1025]*Term
	npth int
	mcur *Machine
}

func newWorker(e *Explorer, id int) *Worker {
	w := &Worker{e: e, id: id}
	w.reset()
	return w
}

func (w *Worker) reset() {
	w.harvest()
	w.c = NewTermCtx()
	w.s = NewSolver(w.c, w.e.qTimeout)
	w.s.log = nil
	if os.Getenv("GOSYM_DEBUG") != "" {
		w.s.log = os.Stderr
	}
	w.fns = map[*ssa.Function]*cfn{}
	w.canT = newTypeCanon()
	for i := range w.ints {
		w.ints[i] = w.c.Const(64, uint64(i))
	}
}

func (w *Worker) harvest() {
	if w.s == nil {
		return
	}
	s := w.s
	w.e.mu.Lock()
	st := &w.e.Solver
	st.Queries += s.Queries
	st.CacheHits += s.CacheHits
	st.Sat += s.NSat
	st.Unsat += s.NUnsat
	st.Unknown += s.NUnknown
	st.Restarts += s.Restarts
	st.Time += s.Time
	if os.Getenv("GOSYM_STATS") != "" {
		fmt.Fprintf(os.Stderr, "worker %d: paths=%d lia=%d %.1fs bv=%d %.1fs oneshot=%d terms=%d\n", w.id, w.npth, s.NLia, s.TLia.Seconds(), s.NBv, s.TBv.Seconds(), s.NOne, w.c.n)
	}
	if s.MaxTime > st.Max {
		st.Max = s.MaxTime
	}
	for f, cf := range w.fns {
		if cf.intr != nil || len(cf.visited) == 0 {
			continue
		}
		old := w.e.Funcs[f]
		if old == nil {
			old = make([]bool, len(cf.visited))
			w.e.Funcs[f] = old
		}
		for i, v := range cf.visited {
			if v {
				old[i] = true
			}
		}
	}
	w.e.mu.Unlock()
	s.Close()
	w.s = nil
}

func (w *Worker) close() { w.harvest() }

// Machine executes one path.
type Machine struct {
	w       *Worker
	c       *TermCtx
	pc      []*Term
	pcSet   map[*Term]bool
	model   *Model
	memo    map[*Term]uint64
	prefix  []Decision
	pos     int
	trail   []Decision
	steps   int
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	names   map[string]int
	obs     []obsEnt
	side    map[*Value]interface{} // engine-side state of sync objects
	gs      []*G
	runq    []*G
	cur     *G
	dead    bool
	delays  int // remaining schedule deviations
	mainG   *G
	endCh   chan struct{}
	fatal   interface{}
	pinfo   string
	sched   bool
	unkPath bool
	race    *raceState
	raceMsg string
	symCfg  map[string]int64
	shared  bool
	initing *ssa.Function
	timers  []*vtimer
	tseq    int
	now     int64
	lazied  map[*ssa.Package]bool
}

type obsEnt struct {
	name string
	v    interface{}
}

func (mc *Machine) i64(n int64) *Term {
	if n >= 0 && n < int64(len(mc.w.ints)) {
		return mc.w.ints[n]
	}
	return mc.c.Const(64, uint64(n))
}

func (mc *Machine) where() string {
	if mc.cur == nil || mc.cur.fr == nil {
		return "?"
	}
	var parts []string
	for f, n := mc.cur.fr, 0; f != nil && n < 6; f, n = f.caller, n+1 {
		parts = append(parts, mc.w.e.prog.pos(f))
	}
	return strings.Join(parts, " < ")
}

func (mc *Machine) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	return mc.model.Eval(t, mc.memo)
}

func (mc *Machine) addPC(t *Term) {
	if t.isConst() {
		return
	}
	if t.op == OAnd {
		for _, x := range t.a {
			mc.addPC(x)
		}
		return
	}
	if mc.pcSet[t] {
		return
	}
	mc.pcSet[t] = true
	mc.pc = append(mc.pc, t)
}

func (mc *Machine) known(t *Term) (val, ok bool) {
	if t.isConst() {
		return t.k == 1, true
	}
	if mc.pcSet[t] {
		return true, true
	}
	if mc.pcSet[mc.c.Not(t)] {
		return false, true
	}
	if t.gnd && t.w == 0 && !(len(t.sup) == 1 && t == t.sup[0]) {
		// decided by the Boolean inputs the path has fixed
		var free []*Term
		base := map[string]uint64{}
		for _, v := range t.sup {
			if mc.pcSet[v] {
				base[v.name] = 1
			} else if mc.pcSet[mc.c.Not(v)] {
				base[v.name] = 0
			} else {
				free = append(free, v)
			}
		}
		if len(base) == 0 {
			return false, false
		}
		tab := t.table(free, base)
		for _, x := range tab {
			if x != tab[0] {
				return false, false
			}
		}
		return tab[0] == 1, true
	}
	return false, false
}

func (mc *Machine) quickKnown(t *Term) (bool, bool) {
	if v, ok := mc.known(t); ok {
		return v, ok
	}
	return false, false
}

// slice returns the constraints of the path that share variables with t.
func (mc *Machine) slice(t *Term) []*Term {
	c := mc.c
	rel := map[int32]bool{}
	for _, v := range c.Vars(t) {
		rel[v] = true
	}
	used := make([]bool, len(mc.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, p := range mc.pc {
			if used[i] {
				continue
			}
			vs := c.Vars(p)
			hit := false
			for _, v := range vs {
				if rel[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p)
				for _, v := range vs {
					rel[v] = true
				}
			}
		}
	}
	return out
}

// sat decides pc && t.
func (mc *Machine) sat(t *Term) (SatRes, *Model) {
	if t.isConst() {
		if t.k == 0 {
			return Unsat, nil
		}
		return Sat, mc.model
	}
	q := append(mc.slice(t), t)
	r, m := mc.w.s.Check(q)
	if r == Sat {
		n := mc.model.clone()
		for k, v := range m.v {
			n.v[k] = v
		}
		for k, tab := range m.m {
			if n.m[k] == nil {
				n.m[k] = map[uint64]uint64{}
			}
			for i, v := range tab {
				n.m[k][i] = v
			}
		}
		if selfCheck {
			memo := map[*Term]uint64{}
			for _, x := range append(append([]*Term{}, mc.pc...), t) {
				if n.Eval(x, memo) != 1 {
					fmt.Fprintf(os.Stderr, "MODEL MISMATCH inquery=%v: %s\n  at %s\n", inTerms(q, x), firstN(x.String(), 1500), mc.where())
					for _, v := range mc.c.Vars(x) {
						fmt.Fprint(os.Stderr, " v", v)
					}
					fmt.Fprintln(os.Stderr)
					break
				}
			}
		}
		return r, n
	}
	return r, nil
}

// must reports that t holds on every continuation of the path.
func (mc *Machine) must(t *Term) bool {
	if v, ok := mc.known(t); ok {
		return v
	}
	if mc.pos >= len(mc.prefix) && mc.eval(t) == 0 {
		return false
	}
	r, _ := mc.sat(mc.c.Not(t))
	return r == Unsat
}

func (mc *Machine) setModel(m *Model) {
	mc.model = m
	mc.shared = false
	mc.memo = map[*Term]uint64{}
}

// setVar gives a fresh variable a model value.
func (mc *Machine) setVar(name string, v uint64) {
	if _, ok := mc.model.v[name]; ok {
		return
	}
	if mc.shared {
		mc.model = mc.model.clone()
		mc.shared = false
	}
	mc.model.v[name] = v
	mc.memo = map[*Term]uint64{}
}

// assume restricts the path.
func (mc *Machine) assume(cond *Term) {
	if v, ok := mc.known(cond); ok {
		if !v {
			panic(abortPath{"assume", ""})
		}
		return
	}
	if mc.pos >= len(mc.prefix) && mc.eval(cond) != 1 {
		r, m := mc.sat(cond)
		if r != Sat {
			if r == Unknown {
				mc.w.e.mu.Lock()
				mc.w.e.Unknown++
				mc.w.e.mu.Unlock()
			}
			panic(abortPath{"assume", ""})
		}
		mc.setModel(m)
	}
	mc.addPC(cond)
}

// decide resolves a two-way choice. v is recorded alongside.
func (mc *Machine) decide(cond *Term, v uint64) bool {
	c := mc.c
	if mc.pos < len(mc.prefix) {
		d := mc.prefix[mc.pos]
		if selfCheck && d.w != mc.site() {
			fmt.Fprintf(os.Stderr, "TRAIL MISMATCH at %d of %d: recorded %s\n  now %s\n", mc.pos, len(mc.prefix), d.w, mc.site())
			panic(abortPath{"unsup", "trail mismatch"})
		}
		mc.pos++
		mc.trail = append(mc.trail, d)
		if d.b {
			mc.addPC(cond)
		} else {
			mc.addPC(c.Not(cond))
		}
		return d.b
	}
	b := mc.eval(cond) == 1
	other := cond
	if b {
		other = c.Not(cond)
	}
	r, m := mc.sat(other)
	if r == Sat {
		np := make([]Decision, len(mc.trail)+1)
		copy(np, mc.trail)
		np[len(mc.trail)] = Decision{!b, v, mc.site()}
		mc.w.e.push(Item{np, m})
	} else if r == Unknown {
		mc.w.e.mu.Lock()
		mc.w.e.Unknown++
		mc.w.e.mu.Unlock()
	}
	mc.trail = append(mc.trail, Decision{b, v, mc.site()})
	mc.pos++
	if b {
		mc.addPC(cond)
	} else {
		mc.addPC(c.Not(cond))
	}
	return b
}

func (mc *Machine) branch(cond *Term) bool {
	if v, ok := mc.known(cond); ok {
		return v
	}
	return mc.decide(cond, 0)
}

// concretize forks over the feasible values of t.
func (mc *Machine) concretize(t *Term) *Term {
	c := mc.c
	for n := 0; ; n++ {
		if t.isConst() {
			return t
		}
		if n > 300 {
			panic(abortPath{"limit", "concretisation of " + t.String() + " has more than 300 values @ " + mc.where()})
		}
		var v uint64
		if mc.pos < len(mc.prefix) {
			v = mc.prefix[mc.pos].v
		} else {
			v = mc.eval(t)
		}
		k := c.Const(t.w, v)
		e := c.Eq(t, k)
		if kv, ok := mc.known(e); ok {
			if kv {
				// recorded all the same: a replay takes v from the trail
				if mc.pos < len(mc.prefix) {
					mc.trail = append(mc.trail, mc.prefix[mc.pos])
				} else {
					mc.trail = append(mc.trail, Decision{true, v, mc.site()})
				}
				mc.pos++
				return k
			}
			// excluded already; the model satisfies pc so this cannot happen
			// outside a replayed prefix
			mc.unsupported("concretize: inconsistent model")
		}
		if mc.decide(e, v) {
			return k
		}
	}
}

// choose is an n-way nondeterministic choice without solver involvement.
func (mc *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if mc.pos < len(mc.prefix) {
		d := mc.prefix[mc.pos]
		if selfCheck && d.w != mc.site() {
			fmt.Fprintf(os.Stderr, "TRAIL MISMATCH at %d of %d: recorded %s\n  now %s\n", mc.pos, len(mc.prefix), d.w, mc.site())
			panic(abortPath{"unsup", "trail mismatch"})
		}
		mc.pos++
		mc.trail = append(mc.trail, d)
		return int(d.v)
	}
	for k := n - 1; k >= 1; k-- {
		np := make([]Decision, len(mc.trail)+1)
		copy(np, mc.trail)
		np[len(mc.trail)] = Decision{true, uint64(k), mc.site()}
		mc.shared = true
		mc.w.e.push(Item{np, mc.model})
	}
	mc.trail = append(mc.trail, Decision{true, 0, mc.site()})
	mc.pos++
	return 0
}

func (e *Explorer) assertStat(id string) *AssertStat {
	s := e.Asserts[id]
	if s == nil {
		s = &AssertStat{}
		e.Asserts[id] = s
	}
	return s
}

// assert discharges cond on this path.
func (mc *Machine) assert(cond *Term, id string, alts ...*Term) {
	e := mc.w.e
	if cond.isConst() && cond.k == 1 {
		e.mu.Lock()
		s := e.assertStat(id)
		s.Discharged++
		s.Trivial++
		e.mu.Unlock()
		return
	}
	// a prefix replay reaches assertions its parent already decided under the
	// same path condition
	if mc.pos < len(mc.prefix) {
		mc.addPC(cond)
		return
	}
	neg := mc.c.Not(cond)
	r, m := mc.sat(neg)
	e.mu.Lock()
	s := e.assertStat(id)
	switch r {
	case Unsat:
		s.Discharged++
	case Unknown:
		s.Unknown++
		e.Unknown++
	case Sat:
		s.Violated++
	}
	e.mu.Unlock()
	if r == Sat {
		mc.report(id, "assertion "+id+" can fail", m)
	}
	if r == Unsat {
		mc.addPC(cond)
	} else {
		// continue under the assumption that it held
		if cond.isConst() {
			panic(abortPath{"violated", id})
		}
		if mc.eval(cond) != 1 {
			r, m := mc.sat(cond)
			if r != Sat {
				panic(abortPath{"violated", id})
			}
			mc.setModel(m)
		}
		mc.addPC(cond)
	}
}

func (mc *Machine) report(id, msg string, m *Model) {
	e := mc.w.e
	where := mc.where()
	e.mu.Lock()
	defer e.mu.Unlock()
	if id == "race" {
		msg = mc.raceMsg
	}
	key := id
	if i := strings.Index(msg, " @ "); i > 0 {
		key += msg[:i]
	}
	e.violKeys[key]++
	if e.violKeys[key] > e.maxViol {
		return
	}
	if selfCheck {
		fmt.Fprintln(os.Stderr, "REPORT", id, m.v)
		for _, x := range mc.pc {
			fmt.Fprintln(os.Stderr, "   pc", m.Eval(x, map[*Term]uint64{}), x)
		}
	}
	tr := make([]Decision, len(mc.trail))
	copy(tr, mc.trail)
	if !strings.Contains(msg, " @ ") {
		msg += " @ " + where
	}
	e.Viol = append(e.Viol, &Violation{ID: id, Msg: msg, Model: m.clone(), Trail: tr})
	if len(e.Viol) >= 24 {
		e.stop, e.stopWhy = true, "enough candidate violations"
		e.cond.Broadcast()
	}
}

func (w *Worker) runPath(it Item) {
	e := w.e
	w.npth++
	if w.c.n > 3_000_000 || len(w.s.cache) > 200_000 {
		w.reset()
	}
	mc := &Machine{w: w, c: w.c, pcSet: map[*Term]bool{}, model: it.model, memo: map[*Term]uint64{}, prefix: it.prefix,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, lazied: map[*ssa.Package]bool{}, names: map[string]int{}, shared: true, side: map[*Value]interface{}{}, endCh: make(chan struct{}), symCfg: map[string]int64{}}
	w.mcur = mc
	g := mc.newG("main")
	mc.mainG = g
	mc.cur = g
	go g.main(func() {
		mc.initPackage(g, e.entry.Pkg)
		g.call(e.entry, nil, nil)
	})
	g.wake <- struct{}{}
	<-mc.endCh
	// kill remaining goroutines
	mc.dead = true
	for _, o := range mc.gs {
		if !o.done {
			o.wake <- struct{}{}
			<-o.gone
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.Steps += int64(mc.steps)
	e.Decisions += int64(len(mc.trail))
	if len(mc.pc) > e.MaxPC {
		e.MaxPC = len(mc.pc)
	}
	switch f := mc.fatal.(type) {
	case nil:
		e.Done++
		if len(e.Samples) < 400 {
			pi := PathInfo{Trail: mc.trail, Model: mc.model}
			for _, o := range mc.obs {
				pi.Obs = append(pi.Obs, o.name+"="+mc.obsString(o.v))
			}
			e.Samples = append(e.Samples, pi)
		}
	case abortPath:
		switch f.kind {
		case "assume":
			e.Assumed++
		case "violated":
			e.Done++
		case "limit":
			e.Limit++
			e.LimitMsg[f.reason]++
		case "exit":
			e.Done++
		default:
			e.Unsup[f.reason]++
			if len(e.UnsupModels) < 60 {
				e.UnsupModels = append(e.UnsupModels, mc.model)
			}
		}
	default:
		if len(e.EngineErrs) < 5 {
			e.EngineErrs = append(e.EngineErrs, fmt.Sprint(f))
		}
		e.Unsup["engine error: "+firstLine(fmt.Sprint(f))]++
		e.UnsupModels = append(e.UnsupModels, mc.model)
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (mc *Machine) obsString(v interface{}) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprint(sext64(mc.eval(x), x.w))
	case string:
		return x
	}
	return fmt.Sprint(v)
}

func stack() string { return string(debug.Stack()) }

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var selfCheck = os.Getenv("GOSYM_CHECK") != ""

func inTerms(q []*Term, t *Term) bool {
	for _, x := range q {
		if x == t {
			return true
		}
	}
	return false
}

func (mc *Machine) site() string {
	if !selfCheck {
		return ""
	}
	return mc.where()
}
