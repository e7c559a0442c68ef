package main

import (
	v "gRedis/zzverif"
)

// Long histories on large contents: mostly concrete, with a few arbitrary bytes.
// They are for what only happens past some size or number of operations.

func churnSize() int {
	v.Steps(400_000_000)
	sizes := []int{70, 140, 300, 1100, 2600}
	return sizes[v.Choice("size", 4+v.Tier())]
}

func nth(p string, i int) []byte { return b(p + hItoa(int64(i))) }

// a long list built, changed in the middle and taken apart again.
func H_C07_churn() {
	n := churnSize()
	db := hDB(2)
	d := newRef("k", "j")
	batch := []int{1, 7, n}[v.Choice("batch", 3)]
	side := [][]byte{b("rpush"), b("lpush")}
	x := elem("x")
	for i := 0; i < n; {
		c := [][]byte{side[i/batch%2], b("k")}
		for k := 0; k < batch && i < n; k++ {
			if i == n/3 {
				c = append(c, x)
			} else {
				c = append(c, nth("e", i%(n/2)))
			}
			i++
		}
		d.step(db, "reply", c...)
	}
	h := hItoa(int64(n / 2))
	switch v.Choice("cmd", 7) {
	case 0:
		d.step(db, "reply", b("lset"), b("k"), b(h), elem("y"))
	case 1:
		d.step(db, "reply", b("linsert"), b("k"), b("after"), nth("e", 5), elem("y"))
	case 2:
		d.step(db, "reply", b("lrem"), b("k"), b("-1"), nth("e", 7))
	case 3:
		d.step(db, "reply", b("lrem"), b("k"), b("0"), x)
	case 4:
		d.stepS(db, "reply", "ltrim", "k", "3", "-4")
	case 5:
		d.stepS(db, "reply", "lpop", "k", h)
	case 6:
		d.stepS(db, "reply", "rpop", "k", h)
		d.step(db, "reply", b("lpos"), b("k"), nth("e", 9), b("count"), b("0"))
	}
	d.verify(db, "after")
	for i := 0; len(d.o["k"].l) > 1; i++ {
		switch i % 3 {
		case 0:
			d.stepS(db, "reply", "lpop", "k")
		case 1:
			d.stepS(db, "reply", "rpop", "k")
		case 2:
			d.stepS(db, "reply", "lmove", "k", "j", "left", "right")
		}
	}
	d.verify(db, "taken-apart")
	d.stepS(db, "reply", "rpop", "k")
	d.verify(db, "drained")
	v.Reach("end")
}

// a hash with many fields, deleted in some order and set again.
func H_C08_churn() {
	n := churnSize()
	db := hDB(2)
	d := newRef("k")
	x := elem("x")
	for i := 0; i < n; i++ {
		w := nth("v", i)
		if i == n/2 {
			w = x
		}
		d.step(db, "reply", b("hset"), b("k"), nth("f", i), w)
	}
	d.verify(db, "filled")
	step := []int{1, 2, 3}[v.Choice("step", 3)]
	for i := 0; i < n; i += step {
		if i != n/2 {
			d.step(db, "reply", b("hdel"), b("k"), nth("f", i))
		}
	}
	d.step(db, "reply", b("hget"), b("k"), nth("f", n/2))
	d.verify(db, "thinned")
	for i := 0; i < n; i += 5 {
		d.step(db, "reply", b("hsetnx"), b("k"), nth("f", i), x)
	}
	d.step(db, "reply", b("hincrby"), b("k"), b("n"), b("5"))
	d.verify(db, "refilled")
	v.Reach("end")
}

// a set with many members.
func H_C09_churn() {
	n := churnSize()
	if n > 150 {
		n = 150 + n/10
	}
	db := hDB(2)
	d := newRef("k", "j", "i")
	x := elem("x")
	for i := 0; i < n; i++ {
		d.step(db, "reply", b("sadd"), b("k"), nth("m", i))
		if i%3 == 0 {
			d.step(db, "reply", b("sadd"), b("j"), nth("m", i), nth("o", i))
		}
	}
	d.step(db, "reply", b("sadd"), b("k"), x)
	op := []string{"sinterstore", "sunionstore", "sdiffstore"}[v.Choice("op", 3)]
	d.stepS(db, "reply", op, "i", "k", "j")
	d.verify(db, "stored")
	for i := 0; i < n; i++ {
		if i%4 == 1 {
			d.step(db, "reply", b("smove"), b("k"), b("j"), nth("m", i))
		} else {
			d.step(db, "reply", b("srem"), b("k"), nth("m", i))
		}
	}
	d.step(db, "reply", b("sismember"), b("k"), x)
	d.verify(db, "thinned")
	v.Reach("end")
}

// a value grown by many appends and a counter stepped many times.
func H_C05_churn() {
	n := churnSize()
	db := hDB(2)
	d := newRef("k")
	d.roomy = true
	x := v.Bytes("x", 2)
	for i := 0; i < n; i++ {
		switch {
		case i == n/2:
			d.step(db, "reply", b("append"), b("k"), x)
		case i%50 == 49:
			d.step(db, "reply", b("setrange"), b("k"), b(hItoa(int64(4*i))), nth("r", i))
		default:
			d.step(db, "reply", b("append"), b("k"), nth("a", i))
		}
	}
	d.verify(db, "grown")
	i := int64([]int{n, 2*n + 1, -n, -1, 5 * n}[v.Choice("i", 5)])
	d.step(db, "reply", b("getrange"), b("k"), b(hItoa(int64(n))), b("-3"))
	d.step(db, "reply", b("getrange"), b("k"), b(hItoa(i)), b(hItoa(i)))
	d.stepS(db, "reply", "strlen", "k")
	v.Reach("end")
}

func H_C06_churn() {
	n := churnSize()
	db := hDB(2)
	d := newRef("k", "h")
	s := []int{0, -7, 100000}[v.Choice("start", 3)]
	d.step(db, "reply", b("set"), b("k"), b(hItoa(int64(s))))
	d.step(db, "reply", b("hset"), b("h"), b("f"), b(hItoa(int64(s))))
	for i := 0; i < n; i++ {
		switch i % 5 {
		case 0:
			d.stepS(db, "reply", "incr", "k")
		case 1:
			d.stepS(db, "reply", "decrby", "k", "7")
		case 2:
			d.stepS(db, "reply", "incrby", "k", hItoa(int64(i)))
		case 3:
			d.stepS(db, "reply", "hincrby", "h", "f", "-3")
		case 4:
			d.stepS(db, "reply", "decr", "k")
		}
	}
	x := v.Int64("x")
	d.step(db, "reply", b("incrby"), b("k"), b(hItoa(x)))
	d.step(db, "reply", b("hincrby"), b("h"), b("f"), b(hItoa(x)))
	d.verify(db, "after")
	v.Reach("end")
}

// many keys of all types, most of them removed, renamed and made again.
func H_C10_churn() {
	n := churnSize()
	if n > 100 {
		n = 100 + n/10
	}
	db := hDB([]int{1, 3, 50}[v.Choice("segments", 3)])
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, "key"+hItoa(int64(i)))
	}
	d := newRef(append(names, "new")...)
	for i, k := range names {
		d.makeAny(db, kinds[1+i%4], k)
		if i%7 == 3 {
			d.stepS(db, "setup", "expire", k, "1000")
		}
	}
	d.verify(db, "made")
	for i, k := range names {
		switch i % 6 {
		case 0, 1:
			d.stepS(db, "reply", "del", k)
		case 2:
			d.stepS(db, "reply", "rename", k, "new")
		case 3:
			d.stepS(db, "reply", "persist", k)
		}
	}
	d.verify(db, "thinned")
	for i, k := range names {
		if i%3 == 0 {
			d.step(db, "reply", b("set"), b(k), nth("v", i))
		}
	}
	tick(d, 2000)
	d.verify(db, "later")
	v.Reach("end")
}

// many keys with different deadlines, the clock anywhere.
func H_C11_churn() {
	v.Steps(400_000_000)
	n := []int{20, 70, 140}[v.Choice("size", 2+v.Tier())]
	db := hDB([]int{1, 8}[v.Choice("segments", 2)])
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, "key"+hItoa(int64(i)))
	}
	d := newRef(names...)
	for i, k := range names {
		d.stepS(db, "reply", "set", k, "v")
		if i%4 != 3 {
			d.stepS(db, "reply", "expire", k, hItoa(int64(1+i*3%n)))
		}
	}
	for i, k := range names {
		switch i % 10 {
		case 5:
			d.stepS(db, "reply", "persist", k)
		case 6:
			d.stepS(db, "reply", "set", k, "w")
		case 8:
			d.stepS(db, "reply", "expire", k, "3")
		}
	}
	for _, dt := range []int64{0, 2, int64(n / 3), int64(n)} {
		tick(d, dt)
		d.verify(db, "later")
	}
	v.Reach("end")
}

// containers of many elements emptied one by one: gone with the last one, and
// made anew.
func H_C13_churn() {
	n := churnSize()
	db := hDB(2)
	d := newRef("k")
	kind := v.Choice("kind", 3)
	x := elem("x")
	for round := 0; round < 2; round++ {
		for i := 0; i < n; i++ {
			e := nth("e", i)
			if i == n-1 {
				e = x
			}
			switch kind {
			case 0:
				d.step(db, "reply", b("rpush"), b("k"), e)
			case 1:
				d.step(db, "reply", b("hset"), b("k"), e, b("v"))
			case 2:
				d.step(db, "reply", b("sadd"), b("k"), e)
			}
		}
		for i := 0; i < n; i++ {
			e := nth("e", i)
			if i == n-1 {
				v.Assert(isInt(hDo(db, "exists", "k"), 1), "there-until-empty")
				e = x
			}
			switch kind {
			case 0:
				d.stepS(db, "reply", "lpop", "k")
			case 1:
				d.step(db, "reply", b("hdel"), b("k"), e)
			case 2:
				d.step(db, "reply", b("srem"), b("k"), e)
			}
		}
		d.verify(db, "gone-when-empty")
	}
	v.Reach("end")
}

// many requests on one connection, which changes databases again and again.
func H_C18_churn() {
	n := churnSize()
	m := hServer(2, 5)
	a, c := dial(m), dial(m)
	x := v.Bytes("x", 1)
	for i := 0; i < n; i++ {
		k := i * 3 % 5
		v.Assert(a.askS("select", hItoa(int64(k))).kind == '+', "select")
		if i < 5 {
			v.Assert(a.ask(b("set"), b("k"), append(b(hItoa(int64(k))), x...)).kind == '+', "set")
		} else {
			r := a.askS("get", "k")
			v.Assert(bEq(r.s, append(b(hItoa(int64(k))), x...)), "own-database")
		}
		if i%40 == 39 {
			r := c.askS("get", "k")
			v.Assert(bEq(r.s, append(b("0"), x...)), "other-connection-stays")
		}
	}
	a.eof()
	c.eof()
	v.Reach("end")
}

// many requests on one connection, one at a time and in bursts.
func H_C02_churn() {
	n := churnSize()
	m := hServer(3, 1)
	c := dial(m)
	x := v.Bytes("x", 2)
	burst := []int{1, 9, 40}[v.Choice("burst", 3)]
	for i := 0; i < n; i += burst {
		var s, want []byte
		for k := i; k < i+burst; k++ {
			w := append(nth("v", k), x...)
			for len(w) < k%90 {
				w = append(w, w...)
			}
			s = append(s, frame(b("set"), nth("k", k%11), w)...)
			s = append(s, frame(b("get"), nth("k", k%11))...)
			want = append(want, "+OK\r\n$"+hItoa(int64(len(w)))+"\r\n"...)
			want = append(append(want, w...), "\r\n"...)
		}
		from := len(c.got())
		if i%4 == 1 && burst > 1 {
			c.send(s[:len(s)/2])
			v.Quiesce()
			c.send(s[len(s)/2:])
		} else {
			c.send(s)
		}
		await(func() bool { return len(c.got()) >= from+len(want) })
		v.Assert(bEq(c.got()[from:], want), "replies")
		if from > 20000 { // a fresh connection, to keep the transcript short
			c.eof()
			c = dial(m)
		}
	}
	c.eof()
	v.Reach("end")
}

// many keys in the default number of segments and others.
func H_C14_churn() {
	n := churnSize()
	db := hDB([]int{1, 10, 100, 1000}[v.Choice("segments", 4)])
	x := elem("x")
	val := func(i int) []byte { return append(nth("v", i), x...) }
	for i := 0; i < n; i++ {
		hRun(db, b("set"), nth("key:", i), val(i))
	}
	for i := 0; i < n; i += 3 {
		v.Assert(isInt(hRun(db, b("del"), nth("key:", i)), 1), "deleted")
	}
	for i := 0; i < n; i++ {
		r := hRun(db, b("get"), nth("key:", i))
		if i%3 == 0 {
			v.Assert(isNil(r), "gone")
		} else {
			v.Assert(isBulk(r, val(i)), "own-value")
		}
	}
	r, ok := arr(hDo(db, "keys", "*"))
	v.Assert(ok && len(r) == n-(n+2)/3, "keys-listed")
	v.Reach("end")
}

// replies with long contents stay as they are.
func H_C22_large() {
	v.Steps(400_000_000)
	n := []int{9, 33, 70, 140, 600, 5000}[v.Choice("size", 6)]
	db := hDB(1)
	long := func(c byte) []byte {
		w := make([]byte, n)
		for i := range w {
			w[i] = c + byte(i%3)
		}
		w[n/2] = v.Bytes("x", 1)[0]
		return w
	}
	many := func(c ...[]byte) [][]byte {
		for i := 0; i < n && i < 600; i++ {
			c = append(c, nth("e", i))
		}
		return c
	}
	var read, write [][]byte
	switch v.Choice("kind", 9) {
	case 0, 1, 2:
		hRun(db, b("set"), b("k"), long('a'))
		read = [][][]byte{bs("get", "k"), bs("getrange", "k", "1", "-2"), bs("mget", "k", "k")}[v.Choice("read", 3)]
		write = [][][]byte{{b("append"), b("k"), long('x')}, bs("setrange", "k", "2", "ZZ"), {b("set"), b("k"), long('x')}, {b("mset"), b("k"), long('x')}}[v.Choice("write", 4)]
	case 3, 4:
		hRun(db, b("hset"), b("k"), b("f"), long('a'), b("g"), b("5"))
		read = [][][]byte{bs("hget", "k", "f"), bs("hgetall", "k"), bs("hvals", "k"), bs("hmget", "k", "g", "f")}[v.Choice("read", 4)]
		write = [][][]byte{{b("hset"), b("k"), b("f"), long('x')}, bs("hdel", "k", "f"), bs("hincrby", "k", "g", "12")}[v.Choice("write", 3)]
	case 5, 6:
		hRun(db, many(b("rpush"), b("k"), long('a'))...)
		read = [][][]byte{bs("lrange", "k", "0", "-1"), bs("lindex", "k", "0"), bs("lpop", "k", "5")}[v.Choice("read", 3)]
		write = [][][]byte{{b("lset"), b("k"), b("0"), long('x')}, bs("lpop", "k", "7"), bs("ltrim", "k", "2", "4"), {b("lpush"), b("k"), long('x')}, bs("lrem", "k", "0", "e3"), bs("rpop", "k")}[v.Choice("write", 6)]
	case 7, 8:
		hRun(db, many(b("sadd"), b("k"))...)
		hRun(db, bs("sadd", "o", "e1", "e5", "q")...)
		read = [][][]byte{bs("smembers", "k"), bs("sunion", "k", "o"), bs("sinter", "k", "o"), bs("sdiff", "k", "o")}[v.Choice("read", 4)]
		write = [][][]byte{bs("srem", "k", "e2", "e1"), bs("sadd", "k", "new"), bs("spop", "k"), bs("sunionstore", "k", "o"), bs("smove", "k", "o", "e3")}[v.Choice("write", 5)]
	}
	reply := hRun(db, dup(read)...)
	first := string(reply.ToRedisFormat())
	for i := 0; i < 3; i++ {
		hRun(db, dup(write)...)
		hRun(db, dup(read)...)
		v.Assert(first == string(reply.ToRedisFormat()), "reply-unchanged:"+string(read[0])+"|"+string(write[0]))
	}
	v.Reach("end")
}

// hundreds of connections one after the other, each ending in its own way.
func H_C26_churn() {
	n := churnSize()
	m := hServer(1, 2)
	before := v.Goroutines()
	ends := []string{"", "*", "*1\r\n$4\r\nping\r\n", "x\r\n", "*1\r\n$4\r\npi", "*2\r\n$6\r\nselect\r\n$1\r\n1\r\n*1\r\n!"}
	how := v.Choice("how", len(ends)+1)
	for i := 0; i < n; i++ {
		c := visit(m)
		e := ends[(how+i)%len(ends)]
		if how < len(ends) {
			e = ends[how]
		}
		c.reset = i%7 == 3
		if e != "" {
			c.send([]byte(e))
		}
		c.eof()
		if i%50 == 0 || i == n-1 {
			gone(c, before)
		}
	}
	alive(m, "serves")
	v.Reach("end")
}

// many messages.
func H_C25_churn() {
	n := churnSize()
	v.RealLog()
	v.SetClock(clock0)
	dir := v.TempDir() + "/log"
	min := v.Choice("level", 5)
	logTo(dir, levels[min])
	var want []int
	for i := 0; i < n; i++ {
		say(i%5, "message", i)
		if i%5 >= min {
			want = append(want, i)
		}
	}
	got := logLines(dir)
	v.Assert(len(got) == len(want), "one-line-per-message")
	for i, x := range want {
		if i%9 == 0 {
			logged(got[i], x%5, []byte("message "+hItoa(int64(x))))
		}
	}
	v.Reach("end")
}
