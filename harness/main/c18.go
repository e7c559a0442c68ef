package main

import (
	"gRedis/server"
	v "gRedis/zzverif"
)

// ask sends one request and returns the reply to it.
func (c *fconn) ask(args ...[]byte) *node {
	n := len(c.got())
	c.send(frame(args...))
	await(func() bool { _, _, ok := decode(c.got()[n:]); return ok })
	x, rest, ok := decode(c.got()[n:])
	v.Assert(ok && len(rest) == 0, "one-reply")
	return x
}

func (c *fconn) askS(args ...string) *node {
	var a [][]byte
	for _, s := range args {
		a = append(a, b(s))
	}
	return c.ask(a...)
}

// clients and what they must see.
type world struct {
	m    *server.Manager
	dbs  []map[string][]byte
	cur  map[*fconn]int
	ndbs int
}

func newWorld(n int) *world {
	w := &world{m: hServer(1, n), cur: map[*fconn]int{}, ndbs: n}
	for i := 0; i < n; i++ {
		w.dbs = append(w.dbs, map[string][]byte{})
	}
	return w
}

// act: one request on connection c, checked against the model.
func (w *world) act(c *fconn, tag string) {
	d := w.dbs[w.cur[c]]
	switch v.Choice(tag, 6) {
	case 0:
		i := v.Choice(tag+"db", w.ndbs)
		x := c.askS("select", hItoa(int64(i)))
		v.Assert(x.kind == '+' && bEq(x.s, b("OK")), "select-reply")
		w.cur[c] = i
	case 1:
		val := v.Bytes(tag+"val", 1)
		x := c.ask(b("set"), b("k"), val)
		v.Assert(x.kind == '+', "set-reply")
		d["k"] = val
	case 2:
		w.get(c, "get")
	case 3:
		x := c.askS("del", "k")
		n := int64(0)
		if d["k"] != nil {
			n = 1
		}
		v.Assert(x.kind == ':' && x.n == n, "del-reply")
		delete(d, "k")
	case 4: // no such database, or not a number
		bad := []string{hItoa(int64(w.ndbs)), "-1", "x", "", "9223372036854775808", "1x", "0.0"}
		x := c.askS("select", bad[v.Choice(tag+"bad", len(bad))])
		v.Assert(x.kind == '-', "bad-select-is-an-error")
	case 5:
		if v.Choice(tag+"none", 2) == 0 {
			v.Assert(c.askS("select").kind == '-', "bad-select-is-an-error")
		} else {
			v.Assert(c.askS("select", "1", "1").kind == '-', "bad-select-is-an-error")
		}
	}
}

func (w *world) get(c *fconn, label string) {
	x := c.askS("get", "k")
	want := w.dbs[w.cur[c]]["k"]
	if want == nil {
		v.Assert(x.kind == 'n', label+"-missing")
	} else {
		v.Assert(x.kind == '$' && bEq(x.s, want), label+"-value")
	}
}

// two connections, any interleaving of their requests; a third one opened later.
func H_C18_connections() {
	w := newWorld(2)
	a, c := dial(w.m), dial(w.m)
	n := 3 + v.Tier()
	for i := 0; i < n; i++ {
		if v.Choice("who", 2) == 0 {
			w.act(a, "a")
		} else {
			w.act(c, "c")
		}
	}
	w.get(a, "end")
	w.get(c, "end")
	e := dial(w.m)
	w.get(e, "new")
	a.eof()
	c.eof()
	e.eof()
	v.Reach("end")
}

// one connection, any number as index.
func H_C18_index() {
	w := newWorld(3)
	c := dial(w.m)
	first := v.Choice("first", 3)
	c.askS("select", hItoa(int64(first)))
	w.cur[c] = first
	c.askS("set", "k", hItoa(int64(first)))
	w.dbs[first]["k"] = b(hItoa(int64(first)))
	idx := v.Bytes("idx", v.Choice("len", 4))
	x := c.ask(b("select"), idx)
	in := false
	for i := 0; i < 3; i++ {
		if x.kind == '+' && decimalIs(idx, int64(i)) {
			w.cur[c] = i
			in = true
		}
	}
	valid := v.Or(decimalIs(idx, 0), v.Or(decimalIs(idx, 1), decimalIs(idx, 2)))
	v.Assert(v.Or(in, x.kind == '-'), "select-out-of-range-is-an-error")
	if len(idx) == 1 {
		v.Assert(v.Or(v.Not(valid), x.kind == '+'), "select-in-range-is-accepted")
	}
	w.get(c, "selected")
	c.eof()
	v.Reach("end")
}

// decimalIs: s reads as the number n in decimal (sign and leading zeros allowed).
func decimalIs(s []byte, n int64) bool {
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		if s[0] == '-' {
			n = -n
		}
		s = s[1:]
	}
	if len(s) == 0 {
		return false
	}
	var t int64
	ok := true
	for _, c := range s {
		ok = v.And(ok, v.And(c >= '0', c <= '9'))
		t = t*10 + int64(c) - '0'
	}
	return v.And(ok, t == n)
}

// every command acts on the selected database only.
func H_C18_isolation() {
	w := newWorld(2)
	a, c := dial(w.m), dial(w.m)
	kind := kinds[1+v.Choice("kind", 4)]
	row := pickRow()
	for _, q := range build(kind, "k", row) {
		a.ask(q...)
	}
	if v.Choice("okey", 2) == 1 {
		a.askS("rpush", "o", "p")
	}
	before := world0(a)
	c.askS("select", "1")
	if v.Choice("same", 2) == 1 {
		for _, q := range build(kind, "k", row) {
			c.ask(q...)
		}
	}
	x := c.ask(row...)
	if string(row[0]) == "keys" {
		v.Assert(x.kind == '*' || x.kind == 'n', "keys-reply")
	}
	v.Assert(sameObs(before, world0(a)), "other-database-unchanged")
	a.eof()
	c.eof()
	v.Reach("end")
}

// what a connection sees of k and o.
func world0(c *fconn) []string {
	var l []string
	one := func(args ...string) {
		n := len(c.got())
		c.askS(args...)
		l = append(l, string(c.got()[n:]))
	}
	for _, k := range ko {
		one("type", k)
		one("ttl", k)
		switch l[len(l)-2] {
		case "+string\r\n":
			one("get", k)
		case "+list\r\n":
			one("lrange", k, "0", "-1")
		case "+hash\r\n":
			one("hget", k, "f")
			one("hlen", k)
		case "+set\r\n":
			one("scard", k)
			one("sismember", k, "a")
		}
	}
	return l
}

// requests of two connections handled at the same time.
func H_C18_concurrent() {
	w := newWorld(2)
	a, c := dial(w.m), dial(w.m)
	x, y := v.Bytes("x", 1), v.Bytes("y", 1)
	sel := v.Choice("a-selects", 2)
	s := append(frame(b("select"), b(hItoa(int64(sel)))), frame(b("set"), b("k"), x)...)
	s = append(s, frame(b("get"), b("k"))...)
	t := append(frame(b("select"), b(hItoa(int64(1-sel)))), frame(b("set"), b("k"), y)...)
	t = append(t, frame(b("get"), b("k"))...)
	// pieces of the two streams arrive in any order
	n := v.Choice("cut", len(s))
	mth := v.Choice("cut2", 3)
	cut2 := []int{0, len(t) / 2, len(t)}[mth]
	if n > 0 {
		a.send(s[:n])
	}
	if cut2 > 0 {
		c.send(t[:cut2])
	}
	v.Quiesce()
	a.send(s[n:])
	v.Quiesce()
	if cut2 < len(t) {
		c.send(t[cut2:])
	}
	want := func(q []byte) []byte {
		return append(append(b("+OK\r\n+OK\r\n$1\r\n"), q...), "\r\n"...)
	}
	settle(func() bool { return a.replied(17) && c.replied(17) })
	v.Assert(bEq(a.got(), want(x)), "first-connection")
	v.Assert(bEq(c.got(), want(y)), "second-connection")
	a.eof()
	c.eof()
	v.Reach("end")
}

// any number of databases: each has its own keys.
func H_C18_many() {
	n := []int{1, 2, 8, 9, 16, 17, 33, 65}[v.Choice("databases", 8)]
	w := newWorld(n)
	c := dial(w.m)
	for i := 0; i < n; i++ {
		if i > 0 {
			v.Assert(c.askS("select", hItoa(int64(i))).kind == '+', "select-reply")
		}
		v.Assert(c.askS("get", "k").kind == 'n', "starts-empty")
		x := v.Bytes("x", 1)
		c.ask(b("set"), b("k"), x)
		w.dbs[i]["k"] = x
	}
	v.Assert(c.askS("select", hItoa(int64(n))).kind == '-', "bad-select-is-an-error")
	w.cur[c] = n - 1
	w.get(c, "after-bad-select")
	gone := v.Choice("gone", n)
	c.askS("select", hItoa(int64(gone)))
	c.askS("del", "k")
	delete(w.dbs[gone], "k")
	for i := n - 1; i >= 0; i-- {
		c.askS("select", hItoa(int64(i)))
		w.cur[c] = i
		w.get(c, "own")
	}
	c.eof()
	v.Reach("end")
}

// several connections at once, each with its own selection.
func H_C18_clients() {
	const n = 6
	w := newWorld(n)
	var cs []*fconn
	for i := 0; i < n; i++ {
		cs = append(cs, dial(w.m))
	}
	off := v.Choice("offset", n)
	for i, c := range cs {
		j := (i + off) % n
		c.askS("select", hItoa(int64(j)))
		w.cur[c] = j
	}
	for _, c := range cs {
		x := v.Bytes("x", 1)
		c.ask(b("set"), b("k"), x)
		w.dbs[w.cur[c]]["k"] = x
	}
	// one goes away, another one comes
	out := v.Choice("leaves", n)
	cs[out].eof()
	v.Quiesce()
	cs[out] = dial(w.m)
	w.cur[cs[out]] = 0
	for _, c := range cs {
		w.get(c, "own")
		c.eof()
	}
	v.Reach("end")
}
