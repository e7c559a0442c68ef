package main

import (
	"errors"
	"net"
	"os"
	"sync"
	"syscall"

	"gRedis/config"
	"gRedis/logger"
	"gRedis/server"
	v "gRedis/zzverif"
)

// ---- a listening socket in memory ----

type flisten struct {
	mu      sync.Mutex
	ev      chan any // a net.Conn or an error
	done    chan struct{}
	closed  int
	opened  int
	after   int // Accept calls since Close that returned
	network string
	addr    string
}

func (l *flisten) Accept() (net.Conn, error) {
	select {
	case e := <-l.ev:
		if c, ok := e.(*fconn); ok {
			return c, nil
		}
		return nil, e.(error)
	case <-l.done:
	}
	// a closed listener reports so; the process would end here, so a loop that
	// keeps asking is held after a few times
	l.mu.Lock()
	l.after++
	n := l.after
	l.mu.Unlock()
	if n > 3 {
		<-make(chan struct{})
	}
	return nil, net.ErrClosed
}

func (l *flisten) Close() error {
	l.mu.Lock()
	l.closed++
	n := l.closed
	l.mu.Unlock()
	if n > 1 {
		return net.ErrClosed
	}
	close(l.done)
	return nil
}

func (l *flisten) Addr() net.Addr { return faddr{} }

func (l *flisten) isClosed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed > 0
}

// sut is a server started by server.Start.
type sut struct {
	l     *flisten
	mu    sync.Mutex
	ended bool
	err   error
	conns []*fconn
	known []*fconn // well-behaved clients, which must be served
}

func (s *sut) over() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.ended
}

func hStart(host string, port int, fail bool) *sut {
	v.SetClock(clock0)
	cfg := &config.Config{Host: host, Port: port, LogDir: v.TempDir(), LogLevel: "error", SegNum: 1, DbNum: 2}
	config.Conf = cfg
	v.Assume(logger.Init(cfg) == nil)
	s := &sut{l: &flisten{ev: make(chan any, 64), done: make(chan struct{})}}
	v.Listener = func(network, addr string) (net.Listener, error) {
		s.l.opened++
		s.l.network, s.l.addr = network, addr
		if fail {
			return nil, errors.New("bind: address already in use")
		}
		return s.l, nil
	}
	go func() {
		err := server.Start(cfg)
		s.mu.Lock()
		s.ended, s.err = true, err
		s.mu.Unlock()
	}()
	v.Quiesce()
	return s
}

// connect: a client reaches the listener.
func (s *sut) connect() *fconn {
	c := &fconn{in: make(chan []byte, 64)}
	s.conns = append(s.conns, c)
	s.l.ev <- c
	await(func() bool { return len(s.l.ev) == 0 })
	return c
}

func (s *sut) served(c *fconn, label string) {
	n := len(c.got())
	c.send(frame(b("ping")))
	await(func() bool { return len(c.got()) >= n+7 })
	v.Assert(bEq(c.got()[n:], b("+PONG\r\n")), label)
}

// stop: the server ends on the signal, without error, and stops listening.
func (s *sut) stop(sig os.Signal) {
	v.Assert(!s.over(), "runs-until-told-to-stop")
	v.Assert(!s.l.isClosed(), "listens-until-told-to-stop")
	v.Assert(v.Deliver(sig), "handles-the-signal")
	settle(s.over)
	v.Assert(s.over(), "stops-on-the-signal")
	v.Assert(s.err == nil, "stops-without-error")
	v.Assert(s.l.isClosed(), "stops-listening")
	for _, c := range s.conns {
		if !c.endedIn() {
			c.eof()
		}
	}
	v.Quiesce()
}

func (c *fconn) endedIn() bool { return c.noMore }

func (c *fconn) finish() {
	c.noMore = true
	c.eof()
}

func hSignal() os.Signal {
	if v.Choice("signal", 2) == 0 {
		return syscall.SIGTERM
	}
	return os.Interrupt
}

// the address listened on is the configured one.
func H_C23_address() {
	hosts := []string{"127.0.0.1", "0.0.0.0", "255.255.255.255", "::1", "::", "fe80::1:2"}
	host := hosts[v.Choice("host", len(hosts))]
	port := v.Int("port", 0, 65535)
	s := hStart(host, port, false)
	v.Assert(s.l.opened == 1, "listens-once")
	v.Assert(s.l.network == "tcp" || s.l.network == "tcp4" && host[0] != ':' || s.l.network == "tcp6" && host[0] == ':', "network")
	h, p, err := net.SplitHostPort(s.l.addr)
	v.Assert(err == nil, "address-well-formed")
	v.Assert(h == host, "address-host")
	v.Assert(p == hItoa(int64(port)), "address-port")
	s.served(s.connect(), "serves")
	s.stop(hSignal())
	v.Reach("end")
}

// an address that cannot be had is an error.
func H_C23_bind() {
	s := hStart("127.0.0.1", v.Int("port", 0, 65535), true)
	settle(s.over)
	v.Assert(s.over(), "bind-failure-ends")
	v.Assert(s.err != nil, "bind-failure-is-an-error")
	v.Reach("end")
}

// step: something happens to the server.
func (s *sut) step(tag string) {
	switch v.Choice(tag, 8) {
	case 0: // accepting fails
		s.l.ev <- errors.New("accept: connection aborted")
		await(func() bool { return len(s.l.ev) == 0 })
	case 1: // several times, for want of descriptors
		for i := 0; i < 4; i++ {
			s.l.ev <- &net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE}
		}
		await(func() bool { return len(s.l.ev) == 0 })
	case 2: // a client that says nothing
		s.connect()
	case 3: // a client that leaves at once
		s.connect().finish()
	case 4: // a client that stops in the middle of a request
		s.connect().send(b("*2\r\n$3\r\nget\r\n$100\r\nx"))
	case 5: // a client that talks nonsense
		s.connect().send(v.Bytes(tag+"junk", 3))
	case 6: // a client that does not take its replies
		c := s.connect()
		c.stuck = make(chan struct{})
		c.send(frame(b("ping")))
	case 7: // a client that uses the server
		c := s.connect()
		s.served(c, "new-client-served")
		s.known = append(s.known, c)
	}
	v.Quiesce()
}

// whatever happens, clients keep being served until the server is told to stop.
func H_C23_serve() {
	s := hStart("127.0.0.1", 6379, false)
	first := s.connect()
	s.served(first, "first")
	s.known = append(s.known, first)
	n := 3 + v.Tier()
	for i := 0; i < n; i++ {
		s.step("ev")
	}
	last := s.connect()
	s.served(last, "late-client-served")
	for _, c := range s.known {
		s.served(c, "client-keeps-being-served")
	}
	s.stop(hSignal())
	v.Reach("end")
}

// any number of clients at once.
func H_C23_crowd() {
	s := hStart("127.0.0.1", 6379, false)
	sizes := []int{20, 70, 140, 270, 550, 1050}
	n := sizes[v.Choice("n", len(sizes))]
	kind := v.Choice("kind", 4)
	for i := 0; i < n; i++ {
		c := s.connect()
		switch kind {
		case 1:
			s.served(c, "crowd-served")
		case 2:
			c.finish()
		case 3:
			c.send(b("*1\r\n!\r\n"))
		}
	}
	s.served(s.connect(), "one-more-served")
	s.stop(syscall.SIGTERM)
	v.Reach("end")
}

// what one client wrote through the server another one reads.
func H_C23_shared() {
	s := hStart("127.0.0.1", 6379, false)
	a, c := s.connect(), s.connect()
	val := v.Bytes("val", v.Choice("len", 3))
	x := a.ask(b("set"), b("k"), val)
	v.Assert(x.kind == '+', "set")
	if v.Choice("leave", 2) == 0 {
		a.finish()
		await(a.shut)
		v.Assert(a.shut(), "closed-after-leaving")
	}
	if v.Choice("later", 2) == 0 {
		c = s.connect()
	}
	x = c.askS("get", "k")
	v.Assert(x.kind == '$' && bEq(x.s, val), "get")
	s.stop(hSignal())
	v.Reach("end")
}

// accepting fails any number of times, in a row or between clients.
func H_C23_failures() {
	s := hStart("127.0.0.1", 6379, false)
	n := []int{3, 12, 40, 120, 270, 1050}[v.Choice("n", 6)]
	kind := v.Choice("kind", 3)
	for i := 0; i < n; i++ {
		var err error = errors.New("accept: connection aborted")
		if kind == 1 {
			err = &net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE}
		}
		s.l.ev <- err
		await(func() bool { return len(s.l.ev) == 0 })
		if kind == 2 && i%4 == 3 {
			s.served(s.connect(), "served-between-failures")
		}
	}
	s.served(s.connect(), "served-after-failures")
	s.stop(hSignal())
	v.Reach("end")
}
