package main

import (
	"gRedis/server"
	v "gRedis/zzverif"
)

// the arguments the server acted on, read back through a second connection.
func readBack(m *server.Manager, k, want []byte, label string) {
	c := dial(m)
	c.send(frame(b("get"), k))
	w := append([]byte("$"+hItoa(int64(len(want)))+"\r\n"), want...)
	w = append(w, "\r\n"...)
	settle(func() bool { return c.replied(len(w)) })
	v.Assert(bEq(c.got(), w), label)
	c.eof()
}

// SET with any key and value, in pieces of any size: executed with exactly
// those bytes and without waiting for more.
func H_C02_set() {
	m := hServer(1, 1)
	c := dial(m)
	k := v.Bytes("k", v.Choice("klen", 4))
	x := v.Bytes("v", v.Choice("vlen", 5+v.Tier()))
	c.sendIn(frame(b("set"), k, x), 3, "split")
	settle(func() bool { return c.replied(5) })
	v.Assert(bEq(c.got(), b("+OK\r\n")), "reply-without-more-bytes")
	readBack(m, k, x, "value-stored-exactly")
	c.eof()
	v.Reach("end")
}

// the same, delivered byte by byte.
func H_C02_bytewise() {
	m := hServer(1, 1)
	c := dial(m)
	k := v.Bytes("k", v.Choice("klen", 4))
	x := v.Bytes("v", v.Choice("vlen", 6+v.Tier()))
	s := frame(b("set"), k, x)
	for i := range s {
		v.Assert(len(c.got()) == 0, "no-reply-before-the-end")
		c.send(s[i : i+1])
		v.Quiesce()
	}
	settle(func() bool { return c.replied(5) })
	v.Assert(bEq(c.got(), b("+OK\r\n")), "reply-without-more-bytes")
	readBack(m, k, x, "value-stored-exactly")
	c.eof()
	v.Reach("end")
}

// several requests back to back: all of them executed, with their own bytes,
// in order, whatever the chunking.
func H_C02_pipeline() {
	m := hServer(1, 1)
	c := dial(m)
	n := 2 + v.Choice("n", 2)
	var s, w []byte
	for i := 0; i < n; i++ {
		x := v.Bytes("v", 1+v.Choice("len", 3))
		if v.Choice("kind", 2) == 0 {
			s = append(s, frame(b("append"), b("log"), x)...)
			w = append(w, x...)
		} else {
			s = append(s, frame(b("append"), b("log"), b("["))...)
			w = append(w, '[')
			s = append(s, frame(b("append"), b("log"), x, x)...) // one argument too many: an error
		}
	}
	c.sendIn(s, 2+v.Tier(), "split")
	settle(func() bool { return c.replied(3 * n) })
	readBack(m, b("log"), w, "all-requests-in-order")
	c.eof()
	v.Reach("end")
}

// any number of arguments.
func H_C02_args() {
	m := hServer(1, 1)
	c := dial(m)
	n := 1 + v.Choice("n", 4)
	args := [][]byte{b("rpush"), b("k")}
	for i := 0; i < n; i++ {
		args = append(args, v.Bytes("v", v.Choice("len", 3)))
	}
	c.sendIn(frame(args...), 2, "split")
	settle(func() bool { return c.replied(4) })
	v.Assert(bEq(c.got(), b(":"+hItoa(int64(n))+"\r\n")), "reply")
	d := dial(m)
	d.send(frame(b("lrange"), b("k"), b("0"), b("-1")))
	w := frame(args[2:]...)
	settle(func() bool { return d.replied(len(w)) })
	v.Assert(bEq(d.got(), w), "arguments-exact")
	c.eof()
	d.eof()
	v.Reach("end")
}

// long values crossing the read buffer.
func H_C02_long() {
	m := hServer(1, 1)
	c := dial(m)
	n := 4060 + v.Choice("n", 40)
	x := make([]byte, n)
	for i := range x {
		x[i] = byte('a' + i%26)
	}
	y := v.Bytes("y", 2)
	x = append(x, y...)
	s := append(frame(b("set"), b("k"), x), frame(b("append"), b("k"), y)...)
	c.send(s)
	settle(func() bool { return c.replied(12) })
	readBack(m, b("k"), append(x, y...), "long-value")
	c.eof()
	v.Reach("end")
}

// several long arguments in one request and in a pipeline.
func H_C02_large() {
	m := hServer(1, 1)
	c := dial(m)
	sizes := []int{60, 130, 520, 1030, 4100, 9000}
	fill := func(n int, ch byte) []byte {
		x := make([]byte, n)
		for i := range x {
			x[i] = ch + byte(i%7)
		}
		return append(x, v.Bytes("tail", 1)...)
	}
	x := fill(sizes[v.Choice("first", len(sizes))], 'a')
	y := fill(sizes[v.Choice("second", len(sizes))], 'k')
	z := fill(sizes[v.Choice("third", 3)], 'r')
	s := frame(b("mset"), b("k"), x, b("o"), y)
	s = append(s, frame(b("rpush"), b("l"), y, z, x)...)
	w := append(b("+OK\r\n:3\r\n"), frame(x, y)...)
	s = append(s, frame(b("mget"), b("k"), b("o"))...)
	w = append(w, frame(y, z, x)...)
	s = append(s, frame(b("lrange"), b("l"), b("0"), b("-1"))...)
	switch v.Choice("pieces", 3) {
	case 0:
		c.send(s)
	case 1:
		c.send(s[:len(x)])
		v.Quiesce()
		c.send(s[len(x):])
	case 2:
		for len(s) > 1000 {
			c.send(s[:1000])
			s = s[1000:]
			v.Quiesce()
		}
		c.send(s)
	}
	settle(func() bool { return c.replied(len(w)) })
	v.Assert(bEq(c.got(), w), "long-arguments-exact")
	c.eof()
	v.Reach("end")
}

// many arguments.
func H_C02_many() {
	m := hServer(1, 1)
	c := dial(m)
	n := []int{7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 128, 200}[v.Choice("n", 12)]
	args := [][]byte{b("rpush"), b("k")}
	for i := 0; i < n; i++ {
		x := b(hItoa(int64(i)))
		if i%8 == 0 {
			x = v.Bytes("v", 1)
		}
		args = append(args, x)
	}
	s := append(frame(args...), frame(b("lrange"), b("k"), b("0"), b("-1"))...)
	w := append(b(":"+hItoa(int64(n))+"\r\n"), frame(args[2:]...)...)
	cut := []int{0, len(s) / 3, len(s) - 1}[v.Choice("cut", 3)]
	if cut > 0 {
		c.send(s[:cut])
		v.Quiesce()
	}
	c.send(s[cut:])
	settle(func() bool { return c.replied(len(w)) })
	v.Assert(bEq(c.got(), w), "arguments-exact")
	c.eof()
	v.Reach("end")
}

// many requests in one piece.
func H_C02_stream() {
	m := hServer(1, 1)
	c := dial(m)
	n := []int{5, 17, 40, 100}[v.Choice("n", 4)]
	var s, w []byte
	for i := 0; i < n; i++ {
		x := b(hItoa(int64(i)))
		if i%16 == 3 {
			x = v.Bytes("x", 2)
		}
		s = append(s, frame(b("set"), b("k"), x)...)
		s = append(s, frame(b("get"), b("k"))...)
		w = append(w, "+OK\r\n$"+hItoa(int64(len(x)))+"\r\n"...)
		w = append(append(w, x...), "\r\n"...)
	}
	cut := v.Choice("cut", 5) * len(s) / 5
	if cut > 0 {
		c.send(s[:cut])
		v.Quiesce()
	}
	c.send(s[cut:])
	settle(func() bool { return c.replied(len(w)) })
	v.Assert(bEq(c.got(), w), "requests-in-order")
	c.eof()
	v.Reach("end")
}
