package main

import (
	"errors"
	"io"
	"net"
	"strconv"
	"sync"
	"time"

	"gRedis/config"
	"gRedis/logger"
	"gRedis/resp"
	"gRedis/server"
	v "gRedis/zzverif"
)

// ---- a connection in memory ----

// fconn hands the server the chunks it is fed, in order; a Read with nothing to
// deliver blocks until the next chunk or the end of the stream.
type fconn struct {
	in     chan []byte
	rest   []byte
	mu     sync.Mutex
	out    []byte
	closed bool
	ended  bool          // Handle returned
	wfail  bool          // writes fail
	reset  bool          // the stream ends with an error instead of EOF
	done   chan struct{} // if set, closed by Close
	noMore bool          // the client has left
	stuck  chan struct{} // writes block on it
}

type faddr struct{}

func (faddr) Network() string { return "tcp" }
func (faddr) String() string  { return "127.0.0.1:1" }

func (c *fconn) Read(p []byte) (int, error) {
	if len(c.rest) == 0 {
		var b []byte
		var ok bool
		if c.done != nil {
			select {
			case b, ok = <-c.in:
			case <-c.done: // closed by the server itself
				return 0, net.ErrClosed
			}
		} else {
			b, ok = <-c.in
		}
		if !ok && c.reset {
			return 0, errors.New("connection reset by peer")
		}
		if !ok {
			return 0, io.EOF
		}
		c.rest = b
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *fconn) Write(p []byte) (int, error) {
	if c.stuck != nil {
		<-c.stuck
	}
	c.mu.Lock()
	if c.wfail {
		c.mu.Unlock()
		return 0, errors.New("broken pipe")
	}
	c.out = append(c.out, p...)
	c.mu.Unlock()
	return len(p), nil
}

func (c *fconn) Close() error {
	c.mu.Lock()
	again := c.closed
	c.closed = true
	c.mu.Unlock()
	if c.done != nil && !again {
		close(c.done)
	}
	return nil
}

func (c *fconn) LocalAddr() net.Addr                { return faddr{} }
func (c *fconn) RemoteAddr() net.Addr               { return faddr{} }
func (c *fconn) SetDeadline(t time.Time) error      { return nil }
func (c *fconn) SetReadDeadline(t time.Time) error  { return nil }
func (c *fconn) SetWriteDeadline(t time.Time) error { return nil }

func (c *fconn) got() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return []byte(string(c.out))
}

func (c *fconn) over() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.ended
}

func (c *fconn) shut() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// hServer makes a server with two databases.
func hServer(seg, dbs int) *server.Manager {
	config.Conf = &config.Config{Host: "127.0.0.1", Port: 6379, LogDir: v.TempDir(), LogLevel: "error", SegNum: seg, DbNum: dbs}
	v.SetClock(clock0)
	v.Assume(logger.Init(config.Conf) == nil)
	return server.NewManager(config.Conf)
}

// dial opens a connection and starts its handler.
func dial(m *server.Manager) *fconn {
	c := &fconn{in: make(chan []byte, 64)}
	go func() {
		m.Handle(c)
		c.mu.Lock()
		c.ended = true
		c.mu.Unlock()
	}()
	return c
}

// settle lets the server run until nothing more happens; natively it waits
// (up to a few seconds) for cond to hold first.
func settle(cond func() bool) {
	v.Quiesce()
	if !v.Symbolic() {
		for i := 0; i < 400 && !cond(); i++ {
			time.Sleep(10 * time.Millisecond)
		}
	}
}

// await is settle for a single reply: natively it only waits for cond.
func await(cond func() bool) {
	if v.Symbolic() {
		v.Quiesce()
		return
	}
	for i := 0; i < 8000 && !cond(); i++ {
		time.Sleep(500 * time.Microsecond)
	}
}

func (c *fconn) send(b []byte)      { c.in <- []byte(string(b)) }
func (c *fconn) eof()               { close(c.in) }
func (c *fconn) replied(n int) bool { return len(c.got()) >= n }

// frame encodes one request.
func frame(args ...[]byte) []byte {
	o := []byte("*" + hItoa(int64(len(args))) + "\r\n")
	for _, a := range args {
		o = append(o, ("$" + hItoa(int64(len(a))) + "\r\n")...)
		o = append(o, a...)
		o = append(o, "\r\n"...)
	}
	return o
}

// sendIn sends s in up to k pieces of any size.
func (c *fconn) sendIn(s []byte, k int, tag string) {
	for ; k > 1 && len(s) > 1; k-- {
		n := v.Choice(tag, len(s))
		if n == 0 {
			break
		}
		c.send(s[:n])
		v.Quiesce()
		s = s[n:]
	}
	c.send(s)
}

// alive: a fresh connection is served.
func alive(m *server.Manager, label string) {
	c := dial(m)
	c.send(frame(b("ping")))
	settle(func() bool { return c.replied(7) })
	v.Assert(bEq(c.got(), b("+PONG\r\n")), label)
	c.eof()
	settle(c.shut)
	v.Assert(c.shut(), label+"-closed")
}

// ---- an independent decoder of reply frames ----

type node struct {
	kind byte // + - : $ * or n for null
	s    []byte
	n    int64
	el   []*node
}

// decode reads one frame from s; ok is false if s does not start with one.
func decode(s []byte) (*node, []byte, bool) {
	if len(s) < 3 {
		return nil, s, false
	}
	e := -1
	for i := 1; i+1 < len(s); i++ {
		if s[i] == '\n' {
			return nil, s, false
		}
		if s[i] == '\r' {
			e = i
			break
		}
	}
	if e < 0 || s[e+1] != '\n' {
		return nil, s, false
	}
	line, rest := s[1:e], s[e+2:]
	x := &node{kind: s[0], s: line}
	switch s[0] {
	case '+', '-':
		return x, rest, true
	case ':':
		n, ok := decimal(line)
		x.n = n
		return x, rest, ok
	case '$':
		n, ok := decimal(line)
		if !ok || n < -1 {
			return nil, s, false
		}
		if n == -1 {
			return &node{kind: 'n'}, rest, true
		}
		if int64(len(rest)) < n+2 || rest[n] != '\r' || rest[n+1] != '\n' {
			return nil, s, false
		}
		x.s = rest[:n]
		return x, rest[n+2:], true
	case '*':
		n, ok := decimal(line)
		if !ok || n < -1 {
			return nil, s, false
		}
		if n == -1 {
			return &node{kind: 'n'}, rest, true
		}
		for i := int64(0); i < n; i++ {
			var y *node
			y, rest, ok = decode(rest)
			if !ok {
				return nil, s, false
			}
			x.el = append(x.el, y)
		}
		return x, rest, true
	}
	return nil, s, false
}

// decimal: the canonical decimal rendering of a 64-bit integer.
func decimal(s []byte) (int64, bool) {
	n, err := strconv.ParseInt(string(s), 10, 64)
	if err != nil {
		return 0, false
	}
	return n, string(s) == hItoa(n)
}

// is: the decoded frame x carries exactly the reply r.
func (x *node) is(r resp.RedisData) bool {
	switch y := r.(type) {
	case *resp.SimpleString:
		return x.kind == '+' && bEq(x.s, lineOf(y.GetData()))
	case *resp.SimpleError:
		return x.kind == '-'
	case *resp.Integer:
		return x.kind == ':' && x.n == y.GetData()
	case *resp.BulkString:
		if y.GetData() == nil {
			return x.kind == 'n'
		}
		return x.kind == '$' && bEq(x.s, y.GetData())
	case *resp.RedisArray:
		if y.GetData() == nil {
			return x.kind == 'n'
		}
		if x.kind != '*' || len(x.el) != len(y.GetData()) {
			return false
		}
		for i := range x.el {
			if !x.el[i].is(y.GetData()[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// lineOf: what a simple string can carry of s.
func lineOf(s string) []byte {
	o := []byte(s)
	for i := range o {
		if o[i] == '\r' || o[i] == '\n' {
			o[i] = ' '
		}
	}
	return o
}
