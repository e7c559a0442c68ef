package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog           *ssa.Program
	mu             sync.Mutex
	mainPkg        *ssa.Package
	modPrefix      string
	runtimeErrType types.Type
	errorsNew      *ssa.Function
	fsPkg, shim    *ssa.Package
	sysSignal      types.Type
	ioEOF          *ssa.Global
	strconvPkg     *ssa.Package
	utf8Decode     *ssa.Function
	moduleInits    []*ssa.Package
	LoadTime       time.Duration
}

func (p *Program) isModulePath(path string) bool {
	return path == p.modPrefix || strings.HasPrefix(path, p.modPrefix+"/")
}

func (p *Program) isModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return p.isModulePath(fn.Pkg.Pkg.Path())
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return p.isModulePath(o.Pkg.Pkg.Path())
	}
	if fn.Parent() != nil {
		return p.isModule(fn.Parent())
	}
	return false
}

func (p *Program) moduleG(g *ssa.Global) bool {
	return g.Pkg != nil && p.isModulePath(g.Pkg.Pkg.Path())
}

func loadProgram(dir string, overlay map[string][]byte, modPrefix string) (*Program, error) {
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: overlay}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(errs) < 10 {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, mainPkg: ps[0], modPrefix: modPrefix}
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case "runtime":
			P.runtimeErrType = p.Type("errorString").Type()
		case "errors":
			P.errorsNew = p.Func("New")
		case "io":
			P.ioEOF = p.Var("EOF")
		case "strconv":
			P.strconvPkg = p
		case "io/fs":
			P.fsPkg = p
		case "syscall":
			P.sysSignal = p.Type("Signal").Type()
		case modPrefix + "/zzverif":
			P.shim = p
		case "unicode/utf8":
			P.utf8Decode = p.Func("DecodeRuneInString")
		}
	}
	P.LoadTime = time.Since(t0)
	return P, nil
}

type Config struct {
	MaxDecisions  int
	MaxConcretize int
	MaxAlloc      int
	SymAlloc      int
	All           bool // look for every candidate, not only the first
	MaxSteps      int64
	Tier          int
	Solver        string
	SolverTimeout int
	Cross         string
	CrossEvery    int64
	TermLimit     int32
}

type Worker struct {
	prog       *Program
	cfg        *Config
	tf         *TF
	solver     *Solver
	st         *Stats
	q          *Queue
	mark       []uint32
	markGen    uint32
	usedBuf    []bool
	funcs      map[*ssa.Function]*cfunc
	implCache  map[implKey]bool
	methCache  map[methKey]*ssa.Function
	mnCache    map[mnKey]*ssa.Function
	stdGlobals map[*ssa.Global]*value
	stdInit    map[*ssa.Package]bool
	uniq       map[string]*value
	zp         *Path
	curStats   bool
	run        *Run
	id         int
}

// Run is the exploration of one harness.
type Run struct {
	name    string
	fn      *ssa.Function
	mu      sync.Mutex
	viols   []*Violation
	per     map[string]int
	q       *Queue
	max     int
	samples []*ReplayFile
	nok     int64
}

func newWorker(prog *Program, cfg *Config, id int) *Worker {
	w := &Worker{prog: prog, cfg: cfg, id: id}
	w.reset()
	return w
}

func (w *Worker) reset() {
	if w.solver != nil {
		w.flushSolver()
		w.solver.Close()
	}
	w.tf = NewTF()
	w.solver = NewSolver(w.tf, w.cfg.Solver, w.cfg.SolverTimeout)
	if w.cfg.Cross != "" {
		w.solver.cross = NewSolver(w.tf, w.cfg.Cross, w.cfg.SolverTimeout)
		w.solver.crossEvery = w.cfg.CrossEvery
	}
	w.mark = nil
	w.flushFuncs()
	w.funcs = map[*ssa.Function]*cfunc{}
	w.implCache = map[implKey]bool{}
	w.methCache = map[methKey]*ssa.Function{}
	w.mnCache = map[mnKey]*ssa.Function{}
	w.stdGlobals = map[*ssa.Global]*value{}
	w.stdInit = map[*ssa.Package]bool{}
	w.uniq = nil
	w.zp = &Path{w: w, tf: w.tf}
}

func (w *Worker) flushSolver() {
	if w.st == nil || w.solver == nil {
		return
	}
	s, st := w.solver, w.st
	st.Queries += s.Queries
	st.CacheHits += s.CacheHits
	st.NSat += s.NSat
	st.NUnsat += s.NUnsat
	st.NUnknown += s.NUnknown
	st.SolverTime += s.Time
	if s.MaxTime > st.MaxQuery {
		st.MaxQuery = s.MaxTime
	}
	st.CrossChecked += s.CrossChecked
	st.CrossDisagree += s.CrossDisagree
	s.Queries, s.CacheHits, s.NSat, s.NUnsat, s.NUnknown, s.Time, s.MaxTime, s.CrossChecked, s.CrossDisagree = 0, 0, 0, 0, 0, 0, 0, 0, 0
}

func (w *Worker) flushFuncs() {
	if w.st == nil {
		return
	}
	for _, cf := range w.funcs {
		if cf.calls > 0 {
			if cf.module {
				w.st.Funcs[cf.name] += cf.calls
			} else {
				w.st.StdFuncs[cf.name] += cf.calls
			}
			cf.calls = 0
		}
	}
}

func (w *Worker) newPath(it *Item) *Path {
	p := &Path{w: w, tf: w.tf, prefix: it.prefix, model: Model{}, pcset: map[*Term]bool{}, globals: map[any]*value{}, maxSteps: w.cfg.MaxSteps}
	for n, v := range it.model {
		i := strings.LastIndexByte(n, '_')
		wd, _ := strconv.Atoi(n[i+1:])
		t := w.tf.Var(n[:i], wd)
		p.model[t.vars[0]] = v
	}
	p.clock = w.tf.C(64, 1_000_000)
	w.tf.NewEval()
	return p
}

func (p *Path) finish(outcome string) {
	if p.outcome == "" {
		p.outcome = outcome
		p.doneCh <- struct{}{}
	}
}

func (p *Path) threadPanic(th *Thread, r any) {
	th.done = true
	switch x := r.(type) {
	case abortSignal:
		if x.reason == "killed" {
			return
		}
		if strings.HasPrefix(x.reason, "unsupported") {
			p.note = append(p.note, th.where())
		}
		p.finish(x.reason)
	case *targetPanic:
		func() {
			defer func() {
				if r := recover(); r != nil {
					p.note = append(p.note, fmt.Sprint(r))
					if p.w.debug() {
						fmt.Printf("report failed: %v\n%s\n", r, debug.Stack())
					}
				}
			}()
			if p.w.debug() {
				fmt.Println("target panic:", x.msg, "at", x.site)
			}
			p.w.report(p, &Violation{Kind: "panic", Label: "panic", Detail: x.msg + " at " + x.site}, p.model)
		}()
		p.finish("violated")
	default:
		if p.w.debug() {
			fmt.Printf("engine error: %v\n%s\n", r, debug.Stack())
		}
		p.note = append(p.note, th.where())
		p.finish(fmt.Sprintf("unsupported: engine error %v", r))
	}
}

var debugFlag bool

func (w *Worker) debug() bool { return debugFlag }

func (p *Path) stepLimit(th *Thread) {
	if p.lenient {
		p.abort("step limit")
	}
	p.w.report(p, &Violation{Kind: "hang", Label: "hang", Detail: "step limit in " + th.where()}, p.model)
	p.abort("step limit")
}

// execute runs one path of the harness.
func (w *Worker) execute(it *Item) {
	if w.tf.next > w.cfg.TermLimit {
		w.reset()
	}
	p := w.newPath(it)
	p.doneCh = make(chan struct{}, 1)
	s := &Sched{p: p}
	p.sched = s
	w.curStats = true
	mainTh := s.newThread(nil, nil)
	mainTh.fn = &nativeFn{name: "main", f: func(th *Thread, _ []value) value {
		p.inInit = 1
		if init := w.prog.mainPkg.Func("init"); init != nil {
			p.initModule(th, w.prog.mainPkg, map[*ssa.Package]bool{})
		}
		p.inInit = 0
		p.steps = 0
		th.callSSA(nil, w.run.fn, nil, nil)
		return nil
	}}
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		defer func() {
			if r := recover(); r != nil {
				p.threadPanic(mainTh, r)
			}
		}()
		if !<-mainTh.resume {
			return
		}
		mainTh.call(nil, mainTh.fn, nil)
		mainTh.done = true
		p.finish("ok")
	}()
	mainTh.resume <- true
	<-p.doneCh
	for _, t := range s.threads {
		if !t.done {
			select {
			case t.resume <- false:
			default:
			}
		}
	}
	p.wg.Wait()
	st := w.st
	st.Paths++
	st.Steps += p.steps
	st.SyncOps += s.nsync
	if len(p.dec) > st.MaxDecisions {
		st.MaxDecisions = len(p.dec)
	}
	o := p.outcome
	if w.debug() {
		fmt.Println("path", o, len(p.prefix), len(p.dec))
	}
	switch {
	case o == "ok":
		st.PathsOK++
		if len(st.Samples) < 3 && len(p.inputs) > 0 {
			st.Samples = append(st.Samples, p.sampleString())
		}
		w.run.sample(p)
	case o == "time budget":
		st.Paths-- // handed back to the queue
	case o == "assume":
		st.PathsAssume++
	case o == "pruned":
		st.PathsPruned++
	case o == "violated":
		st.PathsViolating++
	case strings.HasPrefix(o, "unsupported"):
		st.PathsUnsupported++
		k := o
		if len(p.note) > 0 {
			k += " @ " + p.note[0]
		}
		if len(k) > 400 {
			k = k[:400]
		}
		st.Unsupported[k]++
	default:
		st.PathsBounded++
		st.Bounded[o]++
	}
}

func (p *Path) sampleString() string {
	p.tf.NewEval()
	var sb strings.Builder
	for _, in := range p.inputs {
		switch in.kind {
		case "bytes":
			fmt.Fprintf(&sb, "%s=\"", in.name)
			for _, t := range in.ts {
				b := byte(p.eval(t))
				if b >= 0x20 && b < 0x7f && b != '"' {
					sb.WriteByte(b)
				} else {
					fmt.Fprintf(&sb, "\\x%02x", b)
				}
			}
			sb.WriteString("\" ")
		default:
			fmt.Fprintf(&sb, "%s=%d ", in.name, int64(p.eval(in.t)))
		}
	}
	s := sb.String()
	if len(s) > 300 {
		s = s[:300]
	}
	return fmt.Sprintf("%s [path condition: %d constraints]", s, len(p.pc))
}

// initModule runs the initialisers of the packages under test.
func (p *Path) initModule(th *Thread, pkg *ssa.Package, seen map[*ssa.Package]bool) {
	if seen[pkg] {
		return
	}
	seen[pkg] = true
	imps := pkg.Pkg.Imports()
	sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
	for _, im := range imps {
		if p.w.prog.isModulePath(im.Path()) {
			p.initModule(th, p.w.prog.prog.Package(im), seen)
		}
	}
	p.initPkg = pkg
	th.callSSA(nil, pkg.Func("init"), nil, nil)
}

func (w *Worker) report(p *Path, v *Violation, m Model) {
	v.Harness = w.run.name
	v.Inputs = p.evalInputs(m)
	v.Sched = append([]int(nil), p.sched.schedule...)
	v.PathLen = len(p.dec)
	r := w.run
	r.mu.Lock()
	defer r.mu.Unlock()
	key := v.Kind + "|" + v.Label
	if v.Kind == "panic" || v.Kind == "hang" {
		key += v.Detail
	}
	r.per[key]++
	if r.per[key] > 4 {
		return
	}
	r.viols = append(r.viols, v)
	if len(r.viols) >= r.max {
		r.q.halt()
	} else if !w.cfg.All {
		r.q.hurry()
	}
}

// sample keeps a spread of complete paths for native validation.
func (r *Run) sample(p *Path) {
	if p.exited {
		return // the process itself would end
	}
	r.mu.Lock()
	r.nok++
	n := r.nok
	slot := -1
	if len(r.samples) < 96 {
		slot = len(r.samples)
		r.samples = append(r.samples, nil)
	} else if n%int64(1+n/96) == 0 {
		slot = int((n * 7919) % 96)
	}
	r.mu.Unlock()
	if slot < 0 {
		return
	}
	rf := &ReplayFile{Harness: r.name, Kind: "sample", Tier: p.w.cfg.Tier, Inputs: p.evalInputs(p.model), Schedule: append([]int(nil), p.sched.schedule...)}
	if rf.Inputs == nil {
		rf.Inputs = []Input{}
	}
	r.mu.Lock()
	r.samples[slot] = rf
	r.mu.Unlock()
}

func (p *Path) evalInputs(m Model) []Input {
	saved := p.model
	p.model = m
	p.tf.NewEval()
	var out []Input
	for _, in := range p.inputs {
		x := Input{Kind: in.kind, Name: in.name}
		switch in.kind {
		case "bytes":
			x.B = make([]int, len(in.ts))
			for i, t := range in.ts {
				x.B[i] = int(p.eval(t))
			}
		default:
			x.I = int64(p.eval(in.t))
		}
		out = append(out, x)
	}
	p.model = saved
	p.tf.NewEval()
	return out
}

func (w *Worker) loop(run *Run, q *Queue, st *Stats) {
	w.run = run
	w.q = q
	w.st = st
	for {
		it := q.pop(w.id%2 == 1)
		if it == nil {
			break
		}
		w.execute(it)
		q.done()
	}
	w.flushSolver()
	w.flushFuncs()
}

// hrun is the exploration of one harness, resumable while paths are left.
type hrun struct {
	name     string
	run      *Run
	q        *Queue
	st       *Stats
	dur      time.Duration
	finished bool
	judged   int
	sampled  bool
}

func newHrun(fn *ssa.Function, maxViol int) *hrun {
	q := NewQueue(time.Now(), 0)
	h := &hrun{name: fn.Name(), q: q, st: newStats()}
	h.run = &Run{name: fn.Name(), fn: fn, per: map[string]int{}, q: q, max: maxViol}
	q.push(&Item{})
	return h
}

func (h *hrun) explore(ws []*Worker, budget time.Duration) {
	q := h.q
	q.extend(time.Now().Add(budget))
	t0 := time.Now()
	var wg sync.WaitGroup
	sts := make([]*Stats, len(ws))
	for i, w := range ws {
		sts[i] = newStats()
		wg.Add(1)
		go func(w *Worker, st *Stats) {
			defer wg.Done()
			w.loop(h.run, q, st)
		}(w, sts[i])
	}
	// wake sleeping workers at the deadline
	stopT := time.AfterFunc(budget, func() { q.mu.Lock(); q.cond.Broadcast(); q.mu.Unlock() })
	wg.Wait()
	stopT.Stop()
	for _, s := range sts {
		h.st.add(s)
	}
	h.dur += time.Since(t0)
	h.finished = q.halted || len(q.items) == 0
}
