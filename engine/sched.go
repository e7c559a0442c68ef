package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Threads of the program under test run one at a time, each on its own Go
// goroutine, handing a baton to each other.

type VC []int32

func (v VC) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v VC) join(o VC) VC {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

func (v VC) clone() VC { return append(VC(nil), v...) }

type opKind uint8

const (
	opNone opKind = iota
	opLock
	opRLock
	opAnnounce
	opAtomicR
	opAtomicW
	opWait // generic condition
)

type pendOp struct {
	kind  opKind
	obj   any // identity
	ready func() bool
}

type Thread struct {
	p       *Path
	id      int
	depth   int
	fr      *Frame
	deferFr []*Frame
	resume  chan bool // true: run, false: die
	pend    pendOp
	done    bool
	started bool
	vc      VC
	fn      value
	args    []value
	group   int // explore group (>0)
	held    map[*lockState]int
	waiting bool
	wake    bool
}

type lockState struct {
	writer   *Thread
	readers  map[*Thread]int
	waitingW map[*Thread]bool
	vcW, vcR VC
	id       int
}

type shadow struct {
	wT    int32
	wC    int32
	wSite string
	reads []readRec
}
type readRec struct {
	t, c int32
	site string
}

type Sched struct {
	p        *Path
	threads  []*Thread
	locks    map[*value]*lockState
	explore  bool
	announce bool
	tracking bool
	group    []*Thread
	sleep    map[*Thread]pendOp
	schedule []int
	shadows  map[*value]*shadow
	raced    bool
	switches int
	maxSw    int
	main     *Thread
	atomVC   map[any]VC
	races    map[string]bool
	nsync    int64
	wgs      map[*value]*wgState
	onces    map[*value]*onceState
	smaps    map[*value]*Map
	priming  bool
}

type wgState struct {
	n  int64
	vc VC
}
type onceState struct {
	done    bool
	running bool
	vc      VC
}

func (s *Sched) lock(v *value) *lockState {
	if s.locks == nil {
		s.locks = map[*value]*lockState{}
	}
	l := s.locks[v]
	if l == nil {
		l = &lockState{readers: map[*Thread]int{}, waitingW: map[*Thread]bool{}, id: len(s.locks)}
		s.locks[v] = l
	}
	return l
}

func (s *Sched) newThread(fn value, args []value) *Thread {
	th := &Thread{p: s.p, id: len(s.threads), resume: make(chan bool, 1), fn: fn, args: args}
	s.threads = append(s.threads, th)
	for len(th.vc) <= th.id {
		th.vc = append(th.vc, 0)
	}
	th.vc[th.id] = 1
	return th
}

// body is the goroutine of a thread.
func (th *Thread) body() {
	p := th.p
	defer p.wg.Done()
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		p.threadPanic(th, r)
	}()
	if !<-th.resume {
		th.done = true
		return
	}
	th.call(nil, th.fn, th.args)
	th.done = true
	p.sched.exit(th)
}

func (s *Sched) spawn(parent *Thread, fn value, args []value) *Thread {
	if s.p.lenient {
		s.p.unsupported("go statement during initialisation")
	}
	if len(s.threads) > 4096 {
		s.p.abort("bound: more than 4096 goroutines")
	}
	th := s.newThread(fn, args)
	if parent != nil {
		th.vc = th.vc.join(parent.vc)
		parent.vc[parent.id]++
	}
	if s.explore && parent.group > 0 {
		th.group = parent.group
		s.group = append(s.group, th)
		th.pend = pendOp{kind: opNone}
	}
	s.p.wg.Add(1)
	go th.body()
	return th
}

// transfer hands the baton to "to" and waits until it comes back.
func (s *Sched) transfer(from, to *Thread) {
	if from == to {
		return
	}
	to.resume <- true
	if !<-from.resume {
		panic(abortSignal{"killed"})
	}
}

func (s *Sched) enabled(t *Thread) bool {
	if t.done {
		return false
	}
	switch t.pend.kind {
	case opNone:
		return true
	default:
		if t.pend.ready != nil {
			return t.pend.ready()
		}
		return true
	}
}

// exit is called by a finished thread: pass the baton on for good.
func (s *Sched) exit(th *Thread) {
	next := s.pick(th)
	if next == nil {
		// nobody can run: deadlock of the others
		s.deadlock(th)
		return
	}
	next.resume <- true
}

// block suspends th until its pending operation is enabled.
func (s *Sched) block(th *Thread, op pendOp) {
	th.pend = op
	for {
		next := s.pick(th)
		if next == nil {
			s.deadlock(th)
		}
		if next != th {
			s.transfer(th, next)
		}
		if s.enabled(th) {
			th.pend = pendOp{}
			return
		}
	}
}

// pick chooses the next thread to run (th gives up the baton, or may go on).
func (s *Sched) pick(th *Thread) *Thread {
	if s.priming {
		return s.main
	}
	if s.explore {
		return s.pickExplore(th)
	}
	// run-to-block: round robin starting after th
	n := len(s.threads)
	for i := 1; i <= n; i++ {
		t := s.threads[(th.id+i)%n]
		if s.enabled(t) {
			return t
		}
	}
	return nil
}

func indep(a, b pendOp) bool {
	if a.obj == nil || b.obj == nil || a.obj != b.obj {
		return a.kind != opWait && b.kind != opWait
	}
	ra := a.kind == opRLock || a.kind == opAtomicR
	rb := b.kind == opRLock || b.kind == opAtomicR
	return ra && rb
}

func (s *Sched) pickExplore(th *Thread) *Thread {
	var en []*Thread
	alive := false
	for _, t := range s.group {
		if t.done {
			continue
		}
		alive = true
		if s.enabled(t) {
			en = append(en, t)
		}
	}
	if !alive {
		return s.main
	}
	if len(en) == 0 {
		return nil
	}
	cand := en[:0:0]
	for _, t := range en {
		if _, asleep := s.sleep[t]; !asleep {
			cand = append(cand, t)
		}
	}
	if len(cand) == 0 {
		s.p.abort("pruned")
	}
	// prefer to continue with the current thread first
	for i, t := range cand {
		if t == th && i > 0 {
			copy(cand[1:i+1], cand[:i])
			cand[0] = th
			break
		}
	}
	// context bound
	if s.maxSw > 0 && s.switches >= s.maxSw && len(cand) > 1 && cand[0] == th {
		s.p.w.st.Bounded["context switches"]++
		cand = cand[:1]
	}
	k := s.p.choice(len(cand))
	ch := cand[k]
	if ch != th && !th.done && s.enabled(th) {
		s.switches++
	}
	ns := map[*Thread]pendOp{}
	for t, op := range s.sleep {
		if t != ch && indep(op, ch.pend) {
			ns[t] = op
		}
	}
	for _, t := range cand[:k] {
		if indep(t.pend, ch.pend) {
			ns[t] = t.pend
		}
	}
	s.sleep = ns
	s.schedule = append(s.schedule, ch.group-1)
	return ch
}

// point is a scheduling point before a visible operation.
func (s *Sched) point(th *Thread, op pendOp) {
	s.nsync++
	if !s.explore || th.group == 0 {
		if op.ready != nil && !op.ready() {
			s.block(th, op)
		}
		return
	}
	s.block(th, op)
}

func (s *Sched) deadlock(th *Thread) {
	var ws []string
	for _, t := range s.threads {
		if !t.done && t.fr != nil {
			ws = append(ws, fmt.Sprintf("T%d blocked in %s", t.id, t.where()))
		}
	}
	sort.Strings(ws)
	s.p.w.report(s.p, &Violation{Kind: "deadlock", Label: "deadlock", Detail: strings.Join(ws, "; ")}, s.p.model)
	s.p.abort("violated")
}

// runExplore runs the given closures as concurrent threads under all schedules.
func (s *Sched) runExplore(main *Thread, fns []value, announce bool, maxSw int) {
	if s.explore {
		s.p.unsupported("nested exploration")
	}
	s.main = main
	s.announce = announce
	s.maxSw = maxSw
	s.group = nil
	s.sleep = nil
	s.switches = 0
	s.schedule = nil
	s.tracking = true
	if s.shadows == nil {
		s.shadows = map[*value]*shadow{}
	}
	for i, f := range fns {
		t := s.spawn(main, f, nil)
		t.group = i + 1
		s.group = append(s.group, t)
	}
	s.explore = true
	// bring every thread to its first visible operation (invisible prefix)
	s.priming = true
	for _, t := range append([]*Thread(nil), s.group...) {
		s.transfer(main, t)
	}
	s.priming = false
	for {
		alive := false
		for _, t := range s.group {
			if !t.done {
				alive = true
			}
		}
		if !alive {
			break
		}
		next := s.pickExplore(main)
		if next == nil {
			s.deadlock(main)
		}
		if next == main {
			break
		}
		s.transfer(main, next)
	}
	s.explore = false
	s.tracking = false
	for _, t := range s.group {
		main.vc = main.vc.join(t.vc)
	}
	main.vc[main.id]++
}

// ---- locks ----

func (th *Thread) lockW(v *value) {
	s := th.p.sched
	if v == nil {
		th.rtPanic("invalid memory address or nil pointer dereference")
	}
	l := s.lock(v)
	free := func() bool { return l.writer == nil && len(l.readers) == 0 }
	if s.explore && s.announce && th.group > 0 {
		// first step: announce, which blocks new readers
		s.point(th, pendOp{kind: opAnnounce, obj: l})
		if !free() {
			l.waitingW[th] = true
			s.point(th, pendOp{kind: opLock, obj: l, ready: free})
			delete(l.waitingW, th)
		}
	} else {
		s.point(th, pendOp{kind: opLock, obj: l, ready: free})
	}
	l.writer = th
	th.vc = th.vc.join(l.vcW).join(l.vcR)
}

func (th *Thread) tryLockW(v *value) bool {
	s := th.p.sched
	l := s.lock(v)
	s.point(th, pendOp{kind: opAtomicW, obj: l})
	if l.writer == nil && len(l.readers) == 0 {
		l.writer = th
		th.vc = th.vc.join(l.vcW).join(l.vcR)
		return true
	}
	return false
}

func (th *Thread) unlockW(v *value) {
	s := th.p.sched
	l := s.lock(v)
	if l.writer == nil {
		th.fatal("sync: unlock of unlocked mutex")
	}
	l.writer = nil
	l.vcW = l.vcW.join(th.vc)
	th.vc[th.id]++
}

func (th *Thread) lockR(v *value) {
	s := th.p.sched
	if v == nil {
		th.rtPanic("invalid memory address or nil pointer dereference")
	}
	l := s.lock(v)
	s.point(th, pendOp{kind: opRLock, obj: l, ready: func() bool { return l.writer == nil && len(l.waitingW) == 0 }})
	l.readers[th]++
	th.vc = th.vc.join(l.vcW)
}

func (th *Thread) tryLockR(v *value) bool {
	s := th.p.sched
	l := s.lock(v)
	s.point(th, pendOp{kind: opAtomicW, obj: l})
	if l.writer == nil && len(l.waitingW) == 0 {
		l.readers[th]++
		th.vc = th.vc.join(l.vcW)
		return true
	}
	return false
}

func (th *Thread) unlockR(v *value) {
	s := th.p.sched
	l := s.lock(v)
	if l.readers[th] == 0 {
		// a reader lock may be released by another goroutine
		found := false
		for t := range l.readers {
			l.readers[t]--
			if l.readers[t] == 0 {
				delete(l.readers, t)
			}
			found = true
			break
		}
		if !found {
			th.fatal("sync: RUnlock of unlocked RWMutex")
		}
	} else {
		l.readers[th]--
		if l.readers[th] == 0 {
			delete(l.readers, th)
		}
	}
	l.vcR = l.vcR.join(th.vc)
	th.vc[th.id]++
}

// atomicAt orders an atomic operation on a location.
func (th *Thread) atomicAt(loc any, write bool) {
	s := th.p.sched
	k := opAtomicR
	if write {
		k = opAtomicW
	}
	s.point(th, pendOp{kind: k, obj: loc})
	if s.atomVC == nil {
		s.atomVC = map[any]VC{}
	}
	th.vc = th.vc.join(s.atomVC[loc])
	if write {
		s.atomVC[loc] = s.atomVC[loc].join(th.vc)
		th.vc[th.id]++
	}
}

// ---- data races ----

func (th *Thread) accessDeep(loc *value, write bool) {
	if !th.p.sched.tracking {
		return
	}
	switch v := (*loc).(type) {
	case structure:
		for i := range v {
			th.accessDeep(&v[i], write)
		}
	case array:
		for i := range v {
			th.accessDeep(&v[i], write)
		}
	default:
		th.access(loc, write)
	}
}

func (th *Thread) access(loc *value, write bool) {
	s := th.p.sched
	if !s.tracking || th.group == 0 {
		return
	}
	sh := s.shadows[loc]
	if sh == nil {
		sh = &shadow{wT: -1}
		s.shadows[loc] = sh
	}
	me := int32(th.id)
	site := ""
	getSite := func() string {
		if site == "" {
			site = th.site()
		}
		return site
	}
	if sh.wT >= 0 && sh.wT != me && th.vc.get(int(sh.wT)) < sh.wC {
		s.race(th, sh.wSite, getSite(), write)
	}
	if write {
		for _, r := range sh.reads {
			if r.t != me && th.vc.get(int(r.t)) < r.c {
				s.race(th, r.site, getSite(), write)
			}
		}
		sh.wT, sh.wC = me, th.vc[th.id]
		sh.wSite = getSite()
		sh.reads = sh.reads[:0]
		return
	}
	for i := range sh.reads {
		if sh.reads[i].t == me {
			sh.reads[i].c = th.vc[th.id]
			return
		}
	}
	sh.reads = append(sh.reads, readRec{me, th.vc[th.id], getSite()})
}

func (th *Thread) site() string {
	for fr := th.fr; fr != nil; fr = fr.caller {
		if fr.cf.module {
			return fr.cf.name
		}
	}
	if th.fr != nil {
		return th.fr.cf.name
	}
	return "?"
}

func (s *Sched) race(th *Thread, a, b string, write bool) {
	if s.p.ignoreRaces {
		return
	}
	x, y := a, b
	if x > y {
		x, y = y, x
	}
	key := x + " / " + y
	if s.races == nil {
		s.races = map[string]bool{}
	}
	if s.races[key] {
		return
	}
	s.races[key] = true
	s.p.w.report(s.p, &Violation{Kind: "race", Label: "data race " + key}, s.p.model)
}

// ---- channels ----

type chanWait struct{}

func (th *Thread) chanSend(c *Chan, v value) {
	s := th.p.sched
	if c == nil {
		s.block(th, pendOp{kind: opWait, ready: func() bool { return false }})
	}
	v = copyVal(v)
	s.point(th, pendOp{kind: opWait, obj: c, ready: func() bool { return c.closed || len(c.buf) < c.cap || c.cap == 0 && !c.handed }})
	if c.closed {
		th.rtPanic("send on closed channel")
	}
	if c.cap > 0 {
		c.buf = append(c.buf, v)
		c.vc = append(c.vc, th.vc.clone())
		th.vc[th.id]++
		return
	}
	// unbuffered: hand over and wait until taken
	c.handed = true
	c.slot = v
	c.slotVC = th.vc.clone()
	th.vc[th.id]++
	taken := false
	c.slotTaken = &taken
	me := &taken
	s.block(th, pendOp{kind: opWait, obj: c, ready: func() bool { return *me || c.closed }})
	if !taken {
		th.rtPanic("send on closed channel")
	}
	th.vc = th.vc.join(c.recvVC)
}

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || c.handed || c.closed }

func (th *Thread) take(c *Chan, et types.Type) (value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		th.vc = th.vc.join(c.vc[0])
		c.vc = c.vc[1:]
		return v, true
	}
	if c.handed {
		v := c.slot
		c.handed = false
		*c.slotTaken = true
		th.vc = th.vc.join(c.slotVC)
		c.recvVC = th.vc.clone()
		th.vc[th.id]++
		return v, true
	}
	th.vc = th.vc.join(c.closeC)
	return th.p.zero(et), false
}

func (th *Thread) chanRecv(c *Chan, et types.Type) (value, bool) {
	s := th.p.sched
	if c == nil {
		s.block(th, pendOp{kind: opWait, ready: func() bool { return false }})
	}
	c.recvWait++
	s.point(th, pendOp{kind: opWait, obj: c, ready: c.canRecv})
	c.recvWait--
	return th.take(c, et)
}

func (th *Thread) chanClose(c *Chan) {
	if c == nil {
		th.panicStr("close of nil channel")
	}
	if c.closed {
		th.panicStr("close of closed channel")
	}
	c.closed = true
	c.closeC = th.vc.clone()
	th.vc[th.id]++
}

func (fr *Frame) doSelect(in *ssa.Select, ci *cinstr) value {
	th := fr.th
	p := th.p
	s := p.sched
	tf := p.tf
	type st struct {
		c    *Chan
		send bool
		v    value
		et   types.Type
	}
	var sts []st
	for i, x := range in.States {
		c := fr.get(&ci.ops[2*i]).(*Chan)
		e := st{c: c, send: x.Dir == types.SendOnly, et: x.Chan.Type().Underlying().(*types.Chan).Elem()}
		if e.send {
			e.v = fr.get(&ci.ops[2*i+1])
		}
		sts = append(sts, e)
	}
	ready := func() []int {
		var r []int
		for i, e := range sts {
			if e.c == nil {
				continue
			}
			if e.send {
				if e.c.closed || len(e.c.buf) < e.c.cap || (e.c.cap == 0 && e.c.recvWait > 0 && !e.c.handed) {
					r = append(r, i)
				}
			} else if e.c.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	rs := ready()
	if len(rs) == 0 && in.Blocking {
		for _, e := range sts {
			if e.c != nil && !e.send {
				e.c.recvWait++
			}
		}
		s.block(th, pendOp{kind: opWait, ready: func() bool { return len(ready()) > 0 }})
		for _, e := range sts {
			if e.c != nil && !e.send {
				e.c.recvWait--
			}
		}
		rs = ready()
	}
	// result tuple: index, recvOk, recv values...
	res := tuple{tf.C(64, ^uint64(0)), tf.False}
	chosen := -1
	if len(rs) > 0 {
		chosen = rs[p.choice(len(rs))]
		res[0] = tf.C(64, uint64(chosen))
	}
	for i, e := range sts {
		if e.send {
			if i == chosen {
				th.chanSend(e.c, e.v)
			}
			continue
		}
		if i == chosen {
			v, ok := th.take(e.c, e.et)
			res[1] = tf.Bool(ok)
			res = append(res, v)
		} else {
			res = append(res, p.zero(e.et))
		}
	}
	return res
}
