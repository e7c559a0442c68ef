package main

import (
	v "gRedis/zzverif"
)

// fill gives key k content with symbolic bytes.
func fill(db hdb, kind byte, k string) {
	x, y := v.Bytes("x", 2), v.Bytes("y", 2)
	switch kind {
	case 's':
		hRun(db, b("set"), b(k), append(hCopy(x), y...))
	case 'l':
		hRun(db, b("rpush"), b(k), b("a"), x, y)
	case 'h':
		hRun(db, b("hset"), b(k), b("f"), x, b("g"), y)
	case 't':
		v.Assume(!bEq(x, y))
		hRun(db, b("sadd"), b(k), b("a"), x)
	}
}

// fillFor: content the command can work with.
func fillFor(db hdb, kind byte, k string, rows ...[][]byte) {
	for _, c := range rows {
		switch string(c[0]) {
		case "incr", "incrby", "decr", "decrby", "incrbyfloat", "hincrby", "hincrbyfloat":
			if kind == 's' {
				hDo(db, "set", k, "12")
				return
			}
			if kind == 'h' {
				hDo(db, "hset", k, "f", "12", "g", "13")
				return
			}
		}
	}
	fill(db, kind, k)
}

// a reply, once produced, is not changed by any later command.
func H_C22_reply() {
	db := hDB(1)
	r, w := pickRow(), fields(table[v.Choice("then", len(table))])
	kind := typed[string(r[0])]
	if kind == 0 {
		kind = typed[string(w[0])]
	}
	if kind == 0 {
		kind = 's'
	}
	fillFor(db, kind, "k", r, w)
	if kind == 't' {
		hDo(db, "sadd", "o", "a", "q")
	}
	reply := hRun(db, r...)
	first := string(reply.ToRedisFormat())
	hRun(db, w...)
	v.Assert(first == string(reply.ToRedisFormat()), "reply-unchanged:"+string(r[0])+"|"+string(w[0]))
	hRun(db, w...)
	v.Assert(first == string(reply.ToRedisFormat()), "reply-unchanged:"+string(r[0])+"|"+string(w[0]))
	v.Reach("end")
}

// commands that take a value from one key to another.
var transfers = lines(`
rename k o
lmove k o left right
lmove k o right left
lmove o k left left
smove k o a
sunionstore o k
sinterstore o k k
sdiffstore o k z
sunionstore k k o
mset k 1234 o 1234
set o 12 get`)

// writes that name one key only.
var writes = lines(`
append K tail
setrange K 0 ZZ
setrange K 7 Z
incr K
set K other
lset K 0 ZZ
lpush K new
linsert K before a new
lrem K 0 a
lpop K
ltrim K 1 1
hset K f ZZ n 1
hdel K f
hincrby K f 1
sadd K new
srem K a
spop K
del K
expire K 5
hmset K g ZZ`)

// after a value went from one key to the other, changing one leaves the other.
func H_C22_keys() {
	db := hDB(1)
	c := fields(transfers[v.Choice("transfer", len(transfers))])
	kind := kinds[1+v.Choice("kind", 4)]
	fill(db, kind, "k")
	if v.Choice("other", 2) == 1 {
		fill(db, kind, "o")
	}
	hRun(db, c...)
	// bring the first key back if it is gone
	if v.Choice("again", 2) == 1 {
		fill(db, kind, "k")
	}
	mine, theirs := "k", "o"
	if v.Choice("which", 2) == 1 {
		mine, theirs = "o", "k"
	}
	was := snap(db, theirs)
	n := 1 + v.Tier()
	for i := 0; i < n; i++ {
		w := fields(writes[v.Choice("write", len(writes))])
		w[1] = b(mine)
		hRun(db, w...)
	}
	v.Assert(sameObs(was, snap(db, theirs)), "other-key-unchanged")
	v.Reach("end")
}

// snap: everything of a key, with contents in order.
func snap(db hdb, k string) []string {
	l := observe(db, b(k))
	switch l[0] {
	case "+hash\r\n":
		for _, f := range []string{"f", "g", "n"} {
			l = append(l, string(hDo(db, "hget", k, f).ToRedisFormat()))
		}
	case "+set\r\n":
		for _, f := range []string{"a", "new", "q"} {
			l = append(l, string(hDo(db, "sismember", k, f).ToRedisFormat()))
		}
	}
	return l
}

// several requests on one connection, in one or several reads: what is stored
// is not touched by the bytes of later requests.
func H_C22_requests() {
	m := hServer(1, 1)
	c := dial(m)
	n := 1 + v.Choice("len", 3)
	x, y, z := v.Bytes("x", n), v.Bytes("y", n), v.Bytes("z", n)
	var reqs [][][]byte
	var reads [][][]byte
	var want []byte
	bulk := func(s []byte) {
		want = append(want, ("$" + hItoa(int64(len(s))) + "\r\n")...)
		want = append(append(want, s...), "\r\n"...)
	}
	switch v.Choice("type", 4) {
	case 0:
		reqs = [][][]byte{{b("set"), b("a"), x}, {b("set"), b("b"), y}, {b("append"), b("a"), z}, {b("mset"), b("c"), z, b("d"), x}}
		reads = [][][]byte{{b("get"), b("a")}, {b("get"), b("b")}, {b("get"), b("c")}, {b("get"), b("d")}}
		bulk(append(hCopy(x), z...))
		bulk(y)
		bulk(z)
		bulk(x)
	case 1:
		reqs = [][][]byte{{b("rpush"), b("l"), x, y}, {b("rpush"), b("l"), z}, {b("lset"), b("l"), b("0"), y}, {b("set"), b("q"), x}}
		reads = [][][]byte{{b("lindex"), b("l"), b("0")}, {b("lindex"), b("l"), b("1")}, {b("lindex"), b("l"), b("2")}}
		bulk(y)
		bulk(y)
		bulk(z)
	case 2:
		reqs = [][][]byte{{b("hset"), b("h"), b("f"), x}, {b("hset"), b("h"), b("g"), y}, {b("hset"), b("i"), b("f"), z}, {b("set"), b("q"), x}}
		reads = [][][]byte{{b("hget"), b("h"), b("f")}, {b("hget"), b("h"), b("g")}, {b("hget"), b("i"), b("f")}}
		bulk(x)
		bulk(y)
		bulk(z)
	case 3: // the names of the keys themselves
		v.Assume(v.And(!bEq(x, y), v.And(!bEq(x, z), !bEq(y, z))))
		reqs = [][][]byte{{b("set"), x, b("1")}, {b("set"), y, b("2")}, {b("set"), z, b("3")}, {b("set"), x, b("4")}}
		reads = [][][]byte{{b("get"), x}, {b("get"), y}, {b("get"), z}}
		bulk(b("4"))
		bulk(b("2"))
		bulk(b("3"))
	}
	whole := v.Choice("whole", 2) == 1
	var s []byte
	for _, q := range reqs {
		s = append(s, frame(q...)...)
		if !whole {
			c.send(s)
			v.Quiesce()
			s = nil
		}
	}
	if whole {
		c.send(s)
	}
	settle(func() bool { return c.replied(16) })
	k := len(c.got())
	s = nil
	for _, q := range reads {
		s = append(s, frame(q...)...)
	}
	c.send(s)
	settle(func() bool { return c.replied(k + len(want)) })
	v.Assert(bEq(c.got()[k:], want), "stored-values-intact")
	c.eof()
	v.Reach("end")
}
