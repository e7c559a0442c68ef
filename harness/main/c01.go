package main

import (
	"gRedis/server"
	v "gRedis/zzverif"
)

// feed sends s (in one or several pieces), ends the stream, and requires the
// connection to be closed and the server to serve the next client.
func feed(s []byte) {
	m := hServer(1, 1)
	c := dial(m)
	switch v.Choice("pieces", 3) {
	case 0:
		c.send(s)
	case 1:
		c.sendIn(s, 2, "split")
	case 2: // byte by byte
		for i := range s {
			c.send(s[i : i+1])
			v.Quiesce()
		}
	}
	finish(m, c)
}

// feed1 is feed in one piece.
func feed1(s []byte) {
	m := hServer(1, 1)
	c := dial(m)
	c.send(s)
	finish(m, c)
}

func finish(m *server.Manager, c *fconn) {
	v.Quiesce()
	c.eof()
	settle(c.over)
	v.Assert(c.over(), "handler-returns")
	v.Assert(c.shut(), "connection-closed")
	alive(m, "next-client-served")
	v.Reach("end")
}

// any bytes at all.
func H_C01_bytes() {
	feed(v.Bytes("in", v.Choice("len", 6+v.Tier())))
}

// any bytes after a well-formed beginning.
func H_C01_prefix() {
	pre := []string{"*1\r\n", "*1\r\n$", "*2\r\n$1\r\na\r\n", "$", "*", "*3\r\n:1\r\n", "*1\r\n$3\r\n", "*2\r\n$4\r\nping\r\n$-1\r\n", "*1\r\n$4\r\nping\r\n", "*2\r\n*1\r\n$1\r\na\r\n", "*2\r\n*0\r\n", "+", ":", "*1\r\n+"}
	p := pre[v.Choice("prefix", len(pre))]
	s := append([]byte(p), v.Bytes("in", v.Choice("len", 5+v.Tier()))...)
	feed(s)
}

// digits: n symbolic decimal digits.
func digits(tag string, n int) []byte {
	d := v.Bytes(tag, n)
	ok := true
	for _, c := range d {
		ok = v.And(ok, v.And(c >= '0', c <= '9'))
	}
	v.Assume(ok)
	return d
}

// length headers with any number.
func H_C01_header() {
	s := []byte([]string{"$", "*", "*1\r\n$", "*2\r\n$1\r\na\r\n$", "*2\r\n$1\r\na\r\n*", "*1\r\n:"}[v.Choice("prefix", 6)])
	if v.Choice("sign", 2) == 1 {
		s = append(s, '-')
	}
	switch n := v.Choice("ndigits", 12); n {
	case 0, 1, 2, 3:
		s = append(s, digits("d", n+1)...)
	case 4:
		s = append(s, "536870911"...)
	case 5:
		s = append(s, "536870912"...)
	case 6:
		s = append(s, "9223372036854775807"...)
	case 7:
		s = append(s, "9223372036854775808"...)
	default: // a longer number: first two and last digits any
		s = append(s, digits("d", 2)...)
		s = append(s, "00000000000000000000"[:[]int{7, 9, 15, 16}[n-8]]...)
		s = append(s, digits("e", 1)...)
	}
	s = append(s, "\r\nab\r\n"...)
	feed1(s)
}

// a request that is fine, mixed with one that is not, any cut in the stream.
func H_C01_cut() {
	s := append(frame(b("set"), b("k"), b("v")), frame(b("ping"))...)
	s = append(s, "$1\r\nx\r\n+OK\r\n:1\r\n*-1\r\n*0\r\n*1\r\n$-1\r\n*2\r\n$3\r\nget\r\n$-1\r\n"...)
	n := v.Choice("cut", len(s)+1)
	i := v.Choice("flip", len(s)+1)
	v.Assume(i <= n)
	t := []byte(string(s[:n]))
	if i < n {
		t[i] = v.Bytes("byte", 1)[0]
	}
	feed1(t)
}

// a client that goes away: replies cannot be written, or the stream breaks off
// with an error at any point.
func H_C01_gone() {
	m := hServer(1, 1)
	c := dial(m)
	c.wfail = v.Choice("wfail", 2) == 1
	c.reset = v.Choice("reset", 2) == 1
	s := append(frame(b("set"), b("k"), v.Bytes("v", 2)), frame(b("nosuch"))...)
	s = append(s, frame(b("ping"))...)
	n := v.Choice("cut", len(s)+1)
	if n > 0 {
		c.send(s[:n])
	}
	finish(m, c)
}

// a request spoiled at one point is not executed: a bulk string that does not
// end in CR LF, or a length that is not a number.
func H_C01_invalid() {
	m := hServer(1, 1)
	c := dial(m)
	head := [4]string{"*3", "$3", "$1", "$1"}
	body := [4]string{"", "set\r\n", "k\r\n", "v\r\n"}
	i := v.Choice("where", 4)
	if i > 0 && v.Choice("what", 2) == 1 {
		e := v.Bytes("end", 2)
		v.Assume(v.Not(v.And(e[0] == '\r', e[1] == '\n')))
		body[i] = body[i][:len(body[i])-2] + string(e)
	} else {
		n := 1 + v.Choice("len", 3)
		h := v.Bytes("head", n)
		odd := false
		for _, x := range h {
			v.Assume(v.And(x > ' ', x < 0x7f))
			digit := v.And(x >= '0', x <= '9')
			odd = v.Or(odd, v.Not(v.Or(digit, v.Or(x == '+', x == '-'))))
		}
		v.Assume(odd)
		head[i] = head[i][:1] + string(h)
	}
	var s []byte
	for j := range head {
		s = append(s, head[j]...)
		s = append(s, '\r', '\n')
		s = append(s, body[j]...)
	}
	c.send(s)
	v.Quiesce()
	if r := c.got(); len(r) > 0 {
		v.Assert(r[0] != '+', "not-executed")
	}
	c.eof()
	settle(c.over)
	v.Assert(c.over(), "handler-returns")
	o := dial(m)
	o.send(frame(b("get"), b("k")))
	v.Quiesce()
	v.Assert(bEq(o.got(), b("$-1\r\n")), "nothing-stored")
	v.Reach("end")
}
