package main

import (
	"gRedis/server"
	v "gRedis/zzverif"
)

// visit opens a connection whose Read ends when the server closes it.
func visit(m *server.Manager) *fconn {
	c := &fconn{in: make(chan []byte, 64), done: make(chan struct{})}
	go func() {
		m.Handle(c)
		c.mu.Lock()
		c.ended = true
		c.mu.Unlock()
	}()
	return c
}

// gone: the connection is closed and nothing of it is left.
func gone(c *fconn, before int) {
	settle(c.over)
	v.Assert(c.over(), "handler-returns")
	v.Assert(c.shut(), "connection-closed")
	settle(func() bool { return v.Goroutines() <= before })
	v.Assert(v.Goroutines() <= before, "nothing-left-running")
}

// the client leaves after any bytes, or (fault) the server ends the connection first.
func visitWith(s []byte) {
	m := hServer(1, 1)
	before := v.Goroutines()
	c := visit(m)
	c.reset = v.Choice("reset", 2) == 1
	c.wfail = v.Choice("wfail", 2) == 1
	if len(s) > 1 && v.Choice("pieces", 2) == 1 {
		c.sendIn(s, 2, "split")
	} else if len(s) > 0 {
		c.send(s)
	}
	v.Quiesce()
	if c.over() && v.Choice("stay", 2) == 1 {
		gone(c, before) // without any doing of the client
	} else {
		c.eof()
		gone(c, before)
	}
	v.Reach("end")
}

// any bytes.
func H_C26_bytes() { visitWith(v.Bytes("in", v.Choice("len", 4+v.Tier()))) }

// any bytes after a well-formed beginning.
func H_C26_prefix() {
	pre := []string{"*1\r\n", "*1\r\n$", "*2\r\n$1\r\na\r\n", "$", "*", "*1\r\n$3\r\n", "*1\r\n$4\r\nping\r\n", "*2\r\n*0\r\n", ":", "*1\r\n$4\r\nping\r\n*1\r\n$4\r\nping\r\n"}
	p := pre[v.Choice("prefix", len(pre))]
	visitWith(append([]byte(p), v.Bytes("in", v.Choice("len", 4+v.Tier()))...))
}

// a pipeline cut anywhere, with one byte replaced.
func H_C26_cut() {
	s := append(frame(b("set"), b("k"), b("v")), frame(b("nosuch"))...)
	s = append(s, frame(b("ping"))...)
	s = append(s, "$1\r\nx\r\n+OK\r\n:1\r\n*0\r\n"...)
	n := v.Choice("cut", len(s)+1)
	i := v.Choice("flip", len(s)+1)
	v.Assume(i <= n)
	t := []byte(string(s[:n]))
	if i < n {
		t[i] = v.Bytes("byte", 1)[0]
	}
	m := hServer(1, 1)
	before := v.Goroutines()
	c := visit(m)
	c.send(t)
	v.Quiesce()
	c.eof()
	gone(c, before)
	v.Reach("end")
}

// many connections, one after the other and at the same time, each ending in its own way.
func H_C26_many() {
	m := hServer(1, 2)
	before := v.Goroutines()
	ends := []string{"", "*", "*1\r\n$4\r\nping\r\n", "x\r\n", "*1\r\n$4\r\npi", "*2\r\n$6\r\nselect\r\n$1\r\n1\r\n*1\r\n!"}
	n := 3 + v.Tier()
	var cs []*fconn
	for i := 0; i < n; i++ {
		c := visit(m)
		e := ends[v.Choice("how", len(ends))]
		c.reset = v.Choice("reset", 2) == 1
		if e != "" {
			c.send([]byte(e))
		}
		v.Quiesce()
		if v.Choice("leave", 2) == 0 {
			c.eof()
			gone(c, before+2*len(cs))
		} else {
			cs = append(cs, c)
		}
	}
	for _, c := range cs {
		c.eof()
	}
	for _, c := range cs {
		settle(c.over)
	}
	settle(func() bool { return v.Goroutines() <= before })
	v.Assert(v.Goroutines() <= before, "nothing-left-running")
	v.Reach("end")
}
