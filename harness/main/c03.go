package main

import (
	"gRedis/resp"
	v "gRedis/zzverif"
)

// one frame, and nothing else, carrying exactly r.
func exact(s []byte, r resp.RedisData, label string) {
	x, rest, ok := decode(s)
	v.Assert(ok, label+"-well-formed")
	v.Assert(len(rest) == 0, label+"-one-frame")
	v.Assert(x.is(r), label+"-content")
}

func anyReply(depth int) resp.RedisData {
	k := 6
	if depth > 0 {
		k = 8
	}
	switch v.Choice("shape", k) {
	case 0:
		return resp.NewSimpleString(string(v.Bytes("s", v.Choice("len", 4))))
	case 1:
		return resp.NewSimpleError(string(v.Bytes("s", v.Choice("len", 4))))
	case 2:
		return resp.NewInteger(v.Int64("n"))
	case 3:
		return resp.NewBulkString(v.Bytes("s", v.Choice("len", 5)))
	case 4:
		return resp.NewBulkString(nil)
	case 5:
		return resp.NewBulkString(make([]byte, []int{9, 10, 99, 100, 1000}[v.Choice("long", 5)]))
	case 6:
		return resp.NewArray(nil)
	}
	n := v.Choice("n", 3)
	a := make([]resp.RedisData, 0)
	for i := 0; i < n; i++ {
		a = append(a, anyReply(depth-1))
	}
	return resp.NewArray(a)
}

// every shape of reply, with any content.
func H_C03_format() {
	r := anyReply(1)
	exact(r.ToRedisFormat(), r, "frame")
	v.Reach("end")
}

// long arrays.
func H_C03_array() {
	n := []int{9, 10, 11, 99, 100, 101}[v.Choice("n", 6)]
	var a []resp.RedisData
	for i := 0; i < n; i++ {
		a = append(a, resp.NewBulkString([]byte{byte(i)}))
	}
	x := v.Bytes("x", 2)
	a[n-1] = resp.NewBulkString(x)
	r := resp.NewArray(a)
	exact(r.ToRedisFormat(), r, "frame")
	v.Reach("end")
}

// a name that is no command, with any bytes, and arguments with any bytes: one
// error frame, then the reply to the next request.
func H_C03_echo() {
	m := hServer(1, 1)
	c := dial(m)
	x0 := v.Bytes("name", v.Choice("len", 4+v.Tier()))
	ascii := true
	for _, ch := range x0 {
		ascii = v.And(ascii, ch < 0x80)
	}
	v.Assume(ascii)
	var name []byte
	switch v.Choice("where", 3) {
	case 0:
		name = append(x0, "-no-such-command"...)
	case 1:
		name = append([]byte("no-such-command-"), x0...)
	case 2:
		name = append(append([]byte("get\xff\xc3\x28\r\n"), x0...), '\n')
	}
	req := [][]byte{name}
	if v.Choice("arg", 2) == 1 {
		req = append(req, v.Bytes("a", 2))
	}
	s := append(frame(req...), frame(b("ping"))...)
	c.send(s)
	settle(func() bool { return c.replied(8) && c.got()[len(c.got())-3] == 'G' })
	x, rest, ok := decode(c.got())
	v.Assert(ok, "well-formed")
	v.Assert(x.kind == '-', "error-reply")
	v.Assert(bEq(rest, b("+PONG\r\n")), "next-reply-follows")
	c.eof()
	v.Reach("end")
}

// replies whose order of elements or choice of elements is free.
func loose(c [][]byte) bool {
	switch string(c[0]) {
	case "keys", "hgetall", "hkeys", "hvals", "hrandfield", "smembers", "sdiff", "sinter", "sunion", "spop", "srandmember":
		return true
	}
	return false
}

func shape(x *node, r resp.RedisData) bool {
	switch y := r.(type) {
	case *resp.RedisArray:
		return v.Or(x.kind == 'n' && y.GetData() == nil, x.kind == '*' && len(x.el) == len(y.GetData()))
	case *resp.BulkString:
		return x.kind == 'n' && y.GetData() == nil || x.kind == '$'
	}
	return x.is(r)
}

// any two commands pipelined on any keyspace: exactly two frames, in order,
// carrying the replies the commands give.
func H_C03_commands() {
	m := hServer(2, 1)
	ref := hDB(2)
	c := dial(m)
	var want []resp.RedisData
	var reqs [][][]byte
	kind := kinds[v.Choice("kind", 5)]
	one := pickRow()
	reqs = append(reqs, build(kind, "k", one)...)
	reqs = append(reqs, one)
	reqs = append(reqs, fields(tail2[v.Choice("second", len(tail2))]))
	reqs = append(reqs, [][]byte{b("ping")})
	var s []byte
	for _, r := range reqs {
		s = append(s, frame(r...)...)
		if string(r[0]) != "ping" {
			want = append(want, hRun(ref, r...))
		}
	}
	want = append(want, resp.NewSimpleString("PONG"))
	c.send(s)
	settle(func() bool { g := c.got(); return len(g) >= 7 && string(g[len(g)-7:]) == "+PONG\r\n" })
	rest := c.got()
	for i, w := range want {
		x, r, ok := decode(rest)
		v.Assert(ok, "well-formed")
		if loose(reqs[i]) {
			v.Assert(shape(x, w), "reply-shape:"+string(reqs[i][0]))
		} else {
			v.Assert(x.is(w), "reply:"+string(reqs[i][0]))
		}
		rest = r
	}
	v.Assert(len(rest) == 0, "no-extra-bytes")
	c.eof()
	v.Reach("end")
}

var tail2 = []string{"type k", "del k", "lrange k 0 -1", "get k", "ttl k"}

// build: requests that create key k of a kind, with symbolic content.
func build(kind byte, k string, next [][]byte) [][][]byte {
	x := v.Bytes("x", 2)
	switch string(next[0]) {
	case "incrbyfloat", "hincrbyfloat":
		x = b("7")
	}
	switch kind {
	case 's':
		return [][][]byte{{b("set"), b(k), x}}
	case 'l':
		return [][][]byte{{b("rpush"), b(k), b("a"), x}}
	case 'h':
		return [][][]byte{{b("hset"), b(k), b("f"), x}}
	case 't':
		return [][][]byte{{b("sadd"), b(k), b("a")}}
	}
	return nil
}

// any command with any arguments: one frame, then the next reply.
func H_C03_any() {
	m := hServer(1, 1)
	c := dial(m)
	wire = true
	one := anyCmd("", names(), 3+v.Tier())
	if n := string(one[0]); n == "srandmember" || n == "hrandfield" || n == "setrange" {
		for _, a := range one[1:] {
			v.Assume(len(a) < 6)
		}
	}
	reqs := build(kinds[v.Choice("kind", 5)], "k", one)
	reqs = append(reqs, one)
	var s []byte
	for _, r := range reqs {
		s = append(s, frame(r...)...)
	}
	s = append(s, frame(b("ping"))...)
	c.send(s)
	settle(func() bool { g := c.got(); return len(g) >= 7 && string(g[len(g)-7:]) == "+PONG\r\n" })
	rest := c.got()
	for range reqs {
		_, r, ok := decode(rest)
		v.Assert(ok, "well-formed")
		rest = r
	}
	v.Assert(bEq(rest, b("+PONG\r\n")), "next-reply-follows")
	c.eof()
	v.Reach("end")
}

// large values and large arrays, through the server.
func H_C03_large() {
	m := hServer(2, 1)
	c := dial(m)
	x := v.Bytes("x", 3)
	var want resp.RedisData
	var one [][]byte
	switch v.Choice("what", 3) {
	case 0: // a long value
		n := []int{255, 256, 511, 512, 513, 1023, 1024, 1025, 2048, 4093, 4096, 4100, 8192, 16385, 32768, 60000}[v.Choice("n", 16)]
		val := make([]byte, n)
		for i := range val {
			val[i] = byte(i * 7)
		}
		val[0], val[n/2], val[n-1] = x[0], x[1], x[2]
		c.ask(b("set"), b("k"), val)
		want = resp.NewBulkString(val)
		one = [][]byte{b("get"), b("k")}
	case 1: // a long list
		n := []int{13, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000, 1025}[v.Choice("n", 13)]
		var el []resp.RedisData
		push := [][]byte{b("rpush"), b("k")}
		for i := 0; i < n; i++ {
			e := []byte{byte(i), byte(i >> 8)}
			if i == 0 || i == n-1 {
				e = x
			}
			push = append(push, e)
			el = append(el, resp.NewBulkString(e))
		}
		v.Assert(c.ask(push...).n == int64(n), "pushed")
		want = resp.NewArray(el)
		one = [][]byte{b("lrange"), b("k"), b("0"), b("-1")}
	case 2: // many values, present and missing
		n := []int{11, 40, 100, 130, 300}[v.Choice("n", 5)]
		c.ask(b("set"), b("k"), x)
		one = [][]byte{b("mget")}
		var el []resp.RedisData
		for i := 0; i < n; i++ {
			if i%3 == 1 {
				one = append(one, b("none"))
				el = append(el, resp.NewBulkString(nil))
			} else {
				one = append(one, b("k"))
				el = append(el, resp.NewBulkString(x))
			}
		}
		want = resp.NewArray(el)
	}
	v.Assert(c.ask(one...).is(want), "reply")
	v.Assert(bEq(c.ask(b("ping")).s, b("PONG")), "next-reply-follows")
	c.eof()
	v.Reach("end")
}

// a long pipeline: as many replies, in order.
func H_C03_pipeline() {
	m := hServer(2, 1)
	c := dial(m)
	n := []int{5, 20, 70, 140, 300}[v.Choice("n", 5)]
	x := v.Bytes("x", 1)
	var s []byte
	kind := v.Choice("kind", 3)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			s = append(s, frame(b("append"), b("k"), x)...)
		case 1:
			s = append(s, frame(b("rpush"), b("k"), x, x)...)
		case 2:
			s = append(s, frame(b("incrby"), b("k"), b("-37"))...)
		}
	}
	s = append(s, frame(b("ping"))...)
	if v.Choice("pieces", 2) == 0 {
		c.send(s)
	} else {
		for len(s) > 0 {
			k := 37
			if k > len(s) {
				k = len(s)
			}
			c.send(s[:k])
			v.Quiesce()
			s = s[k:]
		}
	}
	settle(func() bool { g := c.got(); return len(g) >= 7 && string(g[len(g)-7:]) == "+PONG\r\n" })
	rest := c.got()
	for i := 0; i < n; i++ {
		want := int64(i + 1)
		if kind == 1 {
			want *= 2
		} else if kind == 2 {
			want *= -37
		}
		y, r, ok := decode(rest)
		v.Assert(ok, "well-formed")
		v.Assert(y.kind == ':' && y.n == want, "reply-in-order")
		rest = r
	}
	v.Assert(bEq(rest, b("+PONG\r\n")), "next-reply-follows")
	c.eof()
	v.Reach("end")
}
