// Package zzverif is the harness runtime. The symbolic engine intercepts every
// function below; natively they read a recorded input vector, which replays a
// solver counterexample against the real code.
package zzverif

import (
	"context"
	"errors"
	"fmt"
	"math"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"time"
)

type Input struct {
	K string `json:"k"`
	N string `json:"n"`
	I int64  `json:"i,omitempty"`
	B []int  `json:"b,omitempty"`
}

var (
	Inputs   []Input
	pos      int
	Schedule []int
	clock    int64
	tick     int
	tier     int
	Stress   bool
	dir      string
)

type Failed struct{ Label string }
type Diverged struct{ What string }

func Reset(t int) {
	pos = 0
	clock = 1_000_000
	tick = 0
	tier = t
	Listener = nil
	notified = nil
}

func next(k, name string) Input {
	if pos >= len(Inputs) {
		panic(Diverged{"input vector exhausted at " + name})
	}
	in := Inputs[pos]
	if in.K != k || in.N != name {
		panic(Diverged{fmt.Sprintf("input %d is %s %s, wanted %s %s", pos, in.K, in.N, k, name)})
	}
	pos++
	return in
}

func Int64(name string) int64         { return next("int", name).I }
func Int(name string, lo, hi int) int { return int(next("int", name).I) }
func Bool(name string) bool           { return next("bool", name).I != 0 }
func Float(name string) float64       { return math.Float64frombits(uint64(next("float", name).I)) }
func Choice(name string, n int) int   { return int(next("int", name).I) }
func Concrete(x int) int              { return x }
func Bytes(name string, n int) []byte {
	in := next("bytes", name)
	b := make([]byte, len(in.B))
	for i, x := range in.B {
		b[i] = byte(x)
	}
	return b
}

func Assume(c bool) {
	if !c {
		panic(Diverged{"assumption"})
	}
}
func Assert(c bool, label string) {
	if !c {
		panic(Failed{label})
	}
}
func Reach(label string) {}
func SetClock(sec int64) { clock = sec }

// TickAt makes the clock advance by one second just before its nth reading from now (0: never).
func TickAt(n int) { tick = n }
func Now() time.Time {
	if tick > 0 {
		if tick--; tick == 0 {
			clock++
		}
	}
	return time.Unix(clock, 0)
}
func MapOrder(mode int)  {}
func Tier() int          { return tier }
func Symbolic() bool     { return false }
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }
func IgnoreRaces()       {}
func Quiesce() int       { time.Sleep(20 * time.Millisecond); return 0 }

// Goroutines: how many other goroutines there are, once nothing more happens.
func Goroutines() int { Quiesce(); return runtime.NumGoroutine() - 1 }
func Ite(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

func TempDir() string {
	if dir == "" {
		d, err := os.MkdirTemp("", "zzverif")
		if err != nil {
			panic(err)
		}
		dir = d
	}
	return dir
}

func Cleanup() {
	if dir != "" {
		os.RemoveAll(dir)
		dir = ""
	}
}

func File(name string, data []byte) string {
	p := filepath.Join(TempDir(), name)
	if err := os.WriteFile(p, data, 0600); err != nil {
		panic(err)
	}
	return p
}

// ---- controlled scheduling (baton passing), mirroring the engine ----

type thread struct {
	idx    int
	resume chan struct{}
	ready  func() bool
	done   bool
}

var (
	active   bool
	priming  bool
	cur      *thread
	group    []*thread
	mainTh   *thread
	schedPos int
	pending  any // a panic of a thread
	announce bool
)

func Controlled() bool { return active && cur != mainTh }
func Announce() bool   { return announce }

func Par(maxSwitches int, fns ...func())  { par(fns, false) }
func ParD(maxSwitches int, fns ...func()) { par(fns, true) }

func par(fns []func(), ann bool) {
	if Stress {
		stress(fns)
		return
	}
	mainTh = &thread{idx: -1, resume: make(chan struct{}, 1)}
	group = nil
	schedPos = 0
	pending = nil
	announce = ann
	for i, f := range fns {
		t := &thread{idx: i, resume: make(chan struct{}, 1)}
		group = append(group, t)
		f := f
		go func() {
			<-t.resume
			defer func() {
				if r := recover(); r != nil {
					pending = r
					t.done = true
					handTo(mainTh)
				}
			}()
			f()
			t.done = true
			handTo(pick(t))
		}()
	}
	active = true
	priming = true
	cur = mainTh
	for _, t := range group {
		transfer(mainTh, t)
		if pending != nil {
			break
		}
	}
	priming = false
	for pending == nil {
		n := pick(mainTh)
		if n == mainTh {
			break
		}
		transfer(mainTh, n)
	}
	active = false
	if pending != nil {
		panic(pending)
	}
}

func handTo(t *thread) { cur = t; t.resume <- struct{}{} }

func transfer(from, to *thread) {
	if from == to {
		return
	}
	cur = to
	to.resume <- struct{}{}
	<-from.resume
	cur = from
}

func enabled(t *thread) bool { return !t.done && (t.ready == nil || t.ready()) }

type Deadlock struct{}

func pick(th *thread) *thread {
	if priming {
		return mainTh
	}
	alive := false
	var en []*thread
	for _, t := range group {
		if !t.done {
			alive = true
			if enabled(t) {
				en = append(en, t)
			}
		}
	}
	if !alive {
		return mainTh
	}
	if len(en) == 0 {
		pending = Deadlock{}
		return mainTh
	}
	if schedPos < len(Schedule) {
		want := Schedule[schedPos]
		schedPos++
		for _, t := range en {
			if t.idx == want {
				return t
			}
		}
	}
	for _, t := range en {
		if t == th {
			return t
		}
	}
	return en[0]
}

// Point is called before a visible operation; it returns once ready() holds
// and this thread has been scheduled.
func Point(ready func() bool) {
	t := cur
	t.ready = ready
	for {
		n := pick(t)
		transfer(t, n)
		if t.ready == nil || t.ready() {
			t.ready = nil
			return
		}
	}
}

func stress(fns []func()) {
	var done = make(chan any, len(fns))
	start := make(chan struct{})
	for i, f := range fns {
		f, i := f, i
		go func() {
			defer func() { done <- recover() }()
			<-start
			if i%2 == 1 {
				for k := 0; k < jitter(); k++ {
				}
			}
			f()
		}()
	}
	close(start)
	var p any
	for range fns {
		if r := <-done; r != nil {
			p = r
		}
	}
	if p != nil {
		panic(p)
	}
}

var jit int

func jitter() int { jit = (jit*1103515245 + 12345) & 0xffff; return jit % 400 }

// ---- the outside of the process: listening sockets, signals, exit ----

// Listener stands in for net.Listen while it is set.
var Listener func(network, addr string) (net.Listener, error)

func Listen(network, addr string) (net.Listener, error) {
	if Listener == nil {
		return nil, errors.New("no listener")
	}
	return Listener(network, addr)
}

type notify struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var notified []notify

// Notify stands in for signal.Notify.
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	notified = append(notified, notify{c, sigs})
}

func StopNotify(c chan<- os.Signal) {
	for i := range notified {
		if notified[i].c == c {
			notified[i].c = nil
		}
	}
}

// NotifyContext stands in for signal.NotifyContext.
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sigs...)
	go func() {
		<-c
		cancel()
	}()
	return ctx, cancel
}

// Deliver sends the process a signal; false if nothing asked for it, in which
// case the signal's default action would have ended the process.
func Deliver(s os.Signal) bool {
	hit := false
	for _, n := range notified {
		if n.c == nil {
			continue
		}
		want := len(n.sigs) == 0
		for _, x := range n.sigs {
			if x == s {
				want = true
			}
		}
		if want {
			hit = true
			select {
			case n.c <- s:
			default:
			}
		}
	}
	return hit
}

// Exited is the panic that stands for os.Exit.
type Exited struct{ Code int }

func Exit(code int) { panic(Exited{code}) }

// RealLog: package log is executed, not stubbed.
func RealLog() {}

// AllowExit: the harness recovers from Exited.
func AllowExit() {}

// Steps: the path may take n steps.
func Steps(n int) {}

// Sent is a copy of a followed, within its capacity, by the CR LF that ended it
// on the wire: what the parser hands to a command. (The decimal form of a
// symbolic number is copied without.)
func Sent(a []byte) []byte {
	c := append(make([]byte, 0, len(a)+2), a...)
	return append(c, '\r', '\n')[:len(a)]
}
