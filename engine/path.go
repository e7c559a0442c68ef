package main

import (
	"fmt"
	"sync"
	"time"
)

// ---- exploration of symbolic paths by re-execution ----

type Item struct {
	prefix []int64
	model  map[string]uint64
}

// control-flow signals (Go panics) used to unwind a simulated program
type abortSignal struct{ reason string }

type Violation struct {
	Harness string
	Kind    string // assert, panic, deadlock, race, hang
	Label   string
	Detail  string
	Inputs  []Input
	Sched   []int
	PathLen int
	Known   string // known finding id, if it falls under one
}

type Input struct {
	Kind string `json:"k"`
	Name string `json:"n"`
	I    int64  `json:"i,omitempty"`
	B    []int  `json:"b,omitempty"`
	S    string `json:"s,omitempty"`
}

type Stats struct {
	Paths, PathsOK, PathsAssume, PathsPruned, PathsUnsupported, PathsStep, PathsViolating int64
	Decisions, Choices                                                                    int64
	Asserts, AssertsSolver, AssertsFolded                                                 int64
	Steps                                                                                 int64
	UnknownBranches                                                                       int64
	MaxDecisions                                                                          int
	Unsupported                                                                           map[string]int64
	Labels                                                                                map[string]int64
	Reach                                                                                 map[string]int64
	Funcs, StdFuncs, Bounded                                                              map[string]int64
	PathsBounded                                                                          int64
	Intrinsics                                                                            map[string]int64
	Queries, CacheHits, NSat, NUnsat, NUnknown                                            int64
	CrossChecked, CrossDisagree                                                           int64
	SolverTime                                                                            time.Duration
	MaxQuery                                                                              time.Duration
	Samples                                                                               []string
	RaceLocs                                                                              int64
	SyncOps                                                                               int64
}

func newStats() *Stats {
	return &Stats{Unsupported: map[string]int64{}, Labels: map[string]int64{}, Reach: map[string]int64{}, Funcs: map[string]int64{}, StdFuncs: map[string]int64{}, Bounded: map[string]int64{}, Intrinsics: map[string]int64{}}
}

func (a *Stats) add(b *Stats) {
	a.Paths += b.Paths
	a.PathsOK += b.PathsOK
	a.PathsAssume += b.PathsAssume
	a.PathsPruned += b.PathsPruned
	a.PathsUnsupported += b.PathsUnsupported
	a.PathsStep += b.PathsStep
	a.PathsViolating += b.PathsViolating
	a.Decisions += b.Decisions
	a.Choices += b.Choices
	a.Asserts += b.Asserts
	a.AssertsSolver += b.AssertsSolver
	a.AssertsFolded += b.AssertsFolded
	a.Steps += b.Steps
	a.UnknownBranches += b.UnknownBranches
	if b.MaxDecisions > a.MaxDecisions {
		a.MaxDecisions = b.MaxDecisions
	}
	for k, v := range b.Unsupported {
		a.Unsupported[k] += v
	}
	for k, v := range b.Labels {
		a.Labels[k] += v
	}
	for k, v := range b.Reach {
		a.Reach[k] += v
	}
	for k, v := range b.Funcs {
		a.Funcs[k] += v
	}
	for k, v := range b.StdFuncs {
		a.StdFuncs[k] += v
	}
	for k, v := range b.Bounded {
		a.Bounded[k] += v
	}
	a.PathsBounded += b.PathsBounded
	for k, v := range b.Intrinsics {
		a.Intrinsics[k] += v
	}
	a.Queries += b.Queries
	a.CacheHits += b.CacheHits
	a.NSat += b.NSat
	a.NUnsat += b.NUnsat
	a.NUnknown += b.NUnknown
	a.CrossChecked += b.CrossChecked
	a.CrossDisagree += b.CrossDisagree
	a.SolverTime += b.SolverTime
	if b.MaxQuery > a.MaxQuery {
		a.MaxQuery = b.MaxQuery
	}
	if len(a.Samples) < 6 {
		a.Samples = append(a.Samples, b.Samples...)
		if len(a.Samples) > 6 {
			a.Samples = a.Samples[:6]
		}
	}
	a.RaceLocs += b.RaceLocs
	a.SyncOps += b.SyncOps
}

type Queue struct {
	mu       sync.Mutex
	cond     *sync.Cond
	items    []*Item
	active   int
	stop     bool
	deadline time.Time
	maxPaths int64
	paths    int64
	timedOut bool
	halted   bool
	rnd      uint64
}

func NewQueue(deadline time.Time, maxPaths int64) *Queue {
	q := &Queue{deadline: deadline, maxPaths: maxPaths}
	q.cond = sync.NewCond(&q.mu)
	return q
}

func (q *Queue) push(it *Item) {
	q.mu.Lock()
	q.items = append(q.items, it)
	q.cond.Signal()
	q.mu.Unlock()
}

func (q *Queue) pop(spread bool) *Item {
	q.mu.Lock()
	defer q.mu.Unlock()
	for {
		if q.stop {
			return nil
		}
		if time.Now().After(q.deadline) || (q.maxPaths > 0 && q.paths >= q.maxPaths) {
			if len(q.items) > 0 || q.active > 0 {
				q.timedOut = true
			}
			q.stop = true
			q.cond.Broadcast()
			return nil
		}
		if n := len(q.items); n > 0 {
			if spread && n > 1 && n < 20000 {
				// take any pending path, so that no one subtree starves the rest
				best := n - 1
				for t := 0; t < 8; t++ {
					q.rnd = q.rnd*6364136223846793005 + 1442695040888963407
					j := int((q.rnd >> 33) % uint64(n))
					if t == 0 || len(q.items[j].prefix) < len(q.items[best].prefix) {
						best = j
					}
				}
				q.items[best], q.items[n-1] = q.items[n-1], q.items[best]
			}
			it := q.items[n-1]
			q.items = q.items[:n-1]
			q.active++
			q.paths++
			return it
		}
		if q.active == 0 {
			q.stop = true
			q.cond.Broadcast()
			return nil
		}
		q.cond.Wait()
	}
}

func (q *Queue) putBack(it *Item) {
	q.mu.Lock()
	q.timedOut = true
	q.items = append(q.items, it)
	q.mu.Unlock()
}

func (q *Queue) end() time.Time {
	q.mu.Lock()
	defer q.mu.Unlock()
	return q.deadline
}

// hurry ends the exploration soon: there is a candidate to be confirmed.
func (q *Queue) hurry() {
	q.mu.Lock()
	if d := time.Now().Add(2 * time.Second); d.Before(q.deadline) {
		q.deadline = d
		time.AfterFunc(2*time.Second, func() { q.mu.Lock(); q.cond.Broadcast(); q.mu.Unlock() })
	}
	q.mu.Unlock()
}

// extend lets an exploration stopped by its deadline go on.
func (q *Queue) extend(deadline time.Time) {
	q.mu.Lock()
	q.deadline = deadline
	q.stop = false
	q.timedOut = false
	q.mu.Unlock()
}

func (q *Queue) done() {
	q.mu.Lock()
	q.active--
	if q.active == 0 {
		q.cond.Broadcast()
	}
	q.mu.Unlock()
}

func (q *Queue) halt() {
	q.mu.Lock()
	q.stop = true
	q.halted = true
	q.cond.Broadcast()
	q.mu.Unlock()
}

// Path is the state of one symbolic execution.
type Path struct {
	w      *Worker
	tf     *TF
	prefix []int64
	dec    []int64
	fixed  map[*Term]uint64
	model  Model
	pc     []*Term
	pcset  map[*Term]bool
	inputs []inputRec
	nvar   int
	steps  int64
	// environment
	clock    *Term // unix seconds
	mapOrder int
	tick     int // the clock advances before this many further readings
	files    map[string]Str
	dirs     map[string]bool
	exitOK   bool // the harness handles os.Exit
	exited   bool
	realLog  bool // package log is executed rather than stubbed
	// scheduler
	sched *Sched
	// globals of the program under test, per path
	globals     map[any]*value
	note        []string
	mats        map[*Term]*Opaque // last digit -> materialised number
	known       []knownPred
	labelNo     int
	inInit      int
	sample      string
	lenient     bool
	maxSteps    int64
	ignoreRaces bool
	wg          sync.WaitGroup
	doneCh      chan struct{}
	outcome     string
	open        map[*value]*fileState
	initPkg     any
}

type knownPred struct {
	id   string
	cond *Term
}

type inputRec struct {
	kind string
	name string
	t    *Term
	ts   []*Term
	s    string
	n    int64
}

func (p *Path) abort(reason string) {
	panic(abortSignal{reason})
}

func (p *Path) unsupported(format string, a ...any) {
	panic(abortSignal{"unsupported: " + fmt.Sprintf(format, a...)})
}

func (p *Path) fresh(hint string, w int) *Term {
	t := p.tf.Var(fmt.Sprintf("v%d%s", p.nvar, hint), w)
	p.nvar++
	return t
}

func (p *Path) eval(t *Term) uint64 { return p.tf.eval(t, p.model) }

func (p *Path) assertPC(t *Term) {
	if t.isConst() {
		if t.k == 0 {
			p.abort("internal: false asserted")
		}
		return
	}
	if t.op == OBAnd {
		p.assertPC(t.a)
		p.assertPC(t.b)
		return
	}
	if t.op == OBNot && t.a.op == OBOr {
		p.assertPC(p.tf.Not(t.a.a))
		p.assertPC(p.tf.Not(t.a.b))
		return
	}
	if p.pcset[t] {
		return
	}
	p.pcset[t] = true
	p.pc = append(p.pc, t)
}

func (p *Path) knownVal(c *Term) (bool, bool) {
	if c.isConst() {
		return c.k == 1, true
	}
	if p.pcset[c] {
		return true, true
	}
	if p.pcset[p.tf.Not(c)] {
		return false, true
	}
	return false, false
}

func (p *Path) slice(c *Term) []*Term {
	w := p.w
	if len(w.mark) < len(p.tf.varlist) {
		w.mark = make([]uint32, len(p.tf.varlist)+1024)
		w.markGen = 0
	}
	w.markGen++
	g := w.markGen
	for _, v := range c.vars {
		w.mark[v] = g
	}
	used := w.usedBuf[:0]
	for range p.pc {
		used = append(used, false)
	}
	w.usedBuf = used
	cs := []*Term{c}
	for changed := true; changed; {
		changed = false
		for i, t := range p.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.vars {
				if w.mark[v] == g {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				cs = append(cs, t)
				for _, v := range t.vars {
					if w.mark[v] != g {
						w.mark[v] = g
						changed = true
					}
				}
			}
		}
	}
	return cs
}

// check decides pc ∧ c; on sat returns the updated model.
func (p *Path) check(c *Term) (Result, Model) {
	if c.isConst() {
		if c.k == 0 {
			return Unsat, nil
		}
		return Sat, p.model
	}
	t0 := time.Now()
	if t0.After(p.w.q.end().Add(5 * time.Second)) {
		// hand the path back: it is taken up again if time is left later
		p.w.q.putBack(&Item{prefix: append([]int64(nil), p.dec...), model: p.exportModel(p.model)})
		p.abort("time budget")
	}
	cs := p.slice(c)
	r, vars, vals := p.w.solver.Check(cs)
	if d := time.Since(t0); debugFlag && d > 500*time.Millisecond {
		where := ""
		if p.sched != nil && len(p.sched.threads) > 0 {
			where = p.sched.threads[0].where()
		}
		fmt.Printf("slow query %v res=%d terms=%d vars=%d at %s\n   %.600s\n", d, r, len(cs), len(vars), where, c.String())
	}
	if r != Sat {
		return r, nil
	}
	m := make(Model, len(p.model)+len(vars))
	for k, v := range p.model {
		m[k] = v
	}
	for i, v := range vars {
		m[v] = vals[i]
	}
	return Sat, m
}

func (p *Path) exportModel(m Model) map[string]uint64 {
	r := make(map[string]uint64, len(m))
	for k, v := range m {
		if v != 0 {
			r[p.tf.varlist[k].name] = v
		}
	}
	return r
}

func (p *Path) push(alt int64, m Model) {
	pre := make([]int64, len(p.dec)+1)
	copy(pre, p.dec)
	pre[len(p.dec)] = alt
	p.w.q.push(&Item{prefix: pre, model: p.exportModel(m)})
}

// branch decides a boolean term, forking the exploration if both sides are feasible.
func (p *Path) branch(c *Term) bool {
	if v, ok := p.knownVal(c); ok {
		return v
	}
	p.w.st.Decisions++
	pos := len(p.dec)
	if pos < len(p.prefix) {
		v := p.prefix[pos] == 1
		p.dec = append(p.dec, p.prefix[pos])
		if v {
			p.assertPC(c)
		} else {
			p.assertPC(p.tf.Not(c))
		}
		return v
	}
	if len(p.dec) > p.w.cfg.MaxDecisions {
		p.abort("decision limit")
	}
	v := p.eval(c) == 1
	var other, mine *Term
	if v {
		mine, other = c, p.tf.Not(c)
	} else {
		mine, other = p.tf.Not(c), c
	}
	r, m := p.check(other)
	switch r {
	case Sat:
		p.push(int64(b2u(!v)), m)
	case Unknown:
		p.w.st.UnknownBranches++
	}
	p.dec = append(p.dec, int64(b2u(v)))
	p.assertPC(mine)
	return v
}

// choice is an n-way nondeterministic choice.
func (p *Path) choice(n int) int {
	if n <= 1 {
		return 0
	}
	p.w.st.Choices++
	pos := len(p.dec)
	if pos < len(p.prefix) {
		v := p.prefix[pos]
		p.dec = append(p.dec, v)
		return int(v)
	}
	for k := n - 1; k >= 1; k-- {
		p.push(int64(k), p.model)
	}
	p.dec = append(p.dec, 0)
	return 0
}

// concretize forks over the feasible values of t.
func (p *Path) concretize(t *Term, what string) uint64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return t.k
		}
		if v, ok := p.singleton(t); ok {
			return v
		}
		// the candidate value is part of the decision sequence, so that a
		// replayed prefix asks the same questions
		var v uint64
		if pos := len(p.dec); pos < len(p.prefix) {
			v = uint64(p.prefix[pos])
		} else {
			v = p.eval(t)
		}
		p.dec = append(p.dec, int64(v))
		if n > p.w.cfg.MaxConcretize {
			p.abort("unsupported: too many values for " + what)
		}
		if p.branch(p.tf.Eq(t, p.tf.C(t.w, v))) {
			if p.fixed == nil {
				p.fixed = map[*Term]uint64{}
			}
			p.fixed[t] = v
			return v
		}
	}
}

// singleton reports a value t was fixed to by the path condition.
func (p *Path) singleton(t *Term) (uint64, bool) {
	v, ok := p.fixed[t]
	return v, ok
}

func (p *Path) assume(c *Term) {
	if c.isConst() {
		if c.k == 0 {
			p.abort("assume")
		}
		return
	}
	if len(p.dec) >= len(p.prefix) && p.eval(c) == 0 {
		r, m := p.check(c)
		if r == Unsat {
			p.abort("assume")
		}
		if r == Unknown {
			p.w.st.UnknownBranches++
			p.abort("assume")
		}
		p.model = m
		p.tf.NewEval()
	}
	// In replayed prefixes the model already satisfies every later decision,
	// hence this assumption as well.
	p.assertPC(c)
}

func (p *Path) assertProp(c *Term, label string) {
	p.w.st.Asserts++
	p.w.st.Labels[label]++
	if c.isConst() && c.k == 1 {
		p.w.st.AssertsFolded++
		return
	}
	// Only decide assertions at the frontier: a prefix replay has discharged
	// those before its last decision already.
	if len(p.dec) < len(p.prefix) {
		p.assertPC(c)
		return
	}
	p.w.st.AssertsSolver++
	not := p.tf.Not(c)
	if p.w.debug() {
		fmt.Println("assert", label, c, "not", not, p.tf.True)
	}
	excl := p.tf.True
	for _, k := range p.known {
		// does the violation exist inside a known finding?
		if r, m := p.check2(p.tf.BAnd(not, p.tf.BAnd(k.cond, excl))); r == Sat {
			p.w.report(p, &Violation{Kind: "assert", Label: label, Known: k.id}, m)
		}
		excl = p.tf.BAnd(excl, p.tf.Not(k.cond))
	}
	r, m := p.check2(p.tf.BAnd(not, excl))
	switch r {
	case Sat:
		p.w.report(p, &Violation{Kind: "assert", Label: label}, m)
		p.w.st.PathsViolating++
	case Unknown:
		p.w.st.Unsupported["solver unknown on assertion "+label]++
	}
	// continue under the assertion
	if p.eval(c) == 0 {
		r, m := p.check(c)
		if r != Sat {
			p.abort("violated")
		}
		p.model = m
		p.tf.NewEval()
	}
	p.assertPC(c)
}

func (p *Path) check2(c *Term) (Result, Model) {
	return p.check(c)
}
