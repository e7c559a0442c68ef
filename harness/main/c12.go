package main

import (
	"sort"

	"gRedis/memdb"
	"gRedis/resp"
	v "gRedis/zzverif"
)

// names of all commands, in a fixed order.
func names() []string {
	var l []string
	for n := range memdb.CmdTable {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// the documented commands (README) and the type each needs of its first key.
var typed = map[string]byte{
	"get": 's', "getrange": 's', "setrange": 's', "strlen": 's', "incr": 's', "incrby": 's', "decr": 's', "decrby": 's', "incrbyfloat": 's', "append": 's',
	"lindex": 'l', "linsert": 'l', "llen": 'l', "lmove": 'l', "lpop": 'l', "lpos": 'l', "lpush": 'l', "lpushx": 'l', "lrange": 'l', "lrem": 'l', "lset": 'l', "ltrim": 'l', "rpop": 'l', "rpush": 'l', "rpushx": 'l',
	"hdel": 'h', "hexists": 'h', "hget": 'h', "hgetall": 'h', "hincrby": 'h', "hincrbyfloat": 'h', "hkeys": 'h', "hlen": 'h', "hmget": 'h', "hmset": 'h', "hset": 'h', "hsetnx": 'h', "hvals": 'h', "hstrlen": 'h', "hrandfield": 'h',
	"sadd": 't', "scard": 't', "sdiff": 't', "sinter": 't', "sismember": 't', "smembers": 't', "smove": 't', "spop": 't', "srandmember": 't', "srem": 't', "sunion": 't',
}

// a data command of any kind with any number of arguments.
func anyCmd(tag string, all []string, max int) [][]byte {
	name := all[v.Choice(tag+"cmd", len(all))]
	return anyArgs(tag, name, max)
}

func anyArgs(tag, name string, max int) [][]byte {
	n := v.Choice(tag+"nargs", max+1)
	c := [][]byte{b(name)}
	for i := 0; i < n; i++ {
		if i == 0 {
			c = append(c, b("k"))
			continue
		}
		c = append(c, anyArg(tag, name))
	}
	return c
}

// words a command gives a meaning to.
var words = map[string][]string{
	"set": {"nx", "xx", "get", "ex", "pxat", "keepttl"}, "expire": {"nx", "gt", "xx"}, "linsert": {"before", "after"}, "lmove": {"left", "right"},
	"lpos": {"rank", "count", "maxlen"}, "hrandfield": {"withvalues"},
}

// commands that read an integer somewhere.
var numeric = map[string]bool{
	"set": true, "getrange": true, "setrange": true, "setex": true, "incrby": true, "decrby": true, "expire": true, "lindex": true, "lpop": true,
	"lpos": true, "lrange": true, "lrem": true, "lset": true, "ltrim": true, "rpop": true, "hincrby": true, "hrandfield": true, "spop": true, "srandmember": true,
}

// wire: integers are taken from a few edges instead of being symbolic.
var wire bool

func anyArg(tag, name string) []byte {
	w := words[name]
	i := v.Choice(tag+"arg", 4+len(w))
	switch i {
	case 0:
		return b("o")
	case 1:
		if name == "incrbyfloat" || name == "hincrbyfloat" {
			return b("1.25")
		}
		return v.Bytes(tag+"byte", 1)
	case 2:
		if !numeric[name] {
			return b("-12")
		}
		if wire {
			return b([]string{"0", "-2", "9223372036854775807", "-9223372036854775808"}[v.Choice(tag+"edge", 4)])
		}
		x := v.Int64(tag + "int")
		if name == "setrange" {
			v.Assume(v.Or(x < 8, x > 1<<32))
		}
		if name == "srandmember" || name == "hrandfield" {
			v.Assume(v.Or(x > -4, x < -(1<<40)))
		}
		return b(hItoa(x))
	case 3:
		return b("3.7e400")
	}
	return b(w[i-4])
}

func same(d *rdb, db hdb, r resp.RedisData, label string) {
	d.verify(db, label)
}

// any command with any arguments on a keyspace holding k and o: if it replies
// with an error, everything is as before.
func H_C12_error() {
	db := hDB(2)
	d := newRef("k", "o")
	d.makeAny(db, kinds[v.Choice("kind", 5)], "k")
	if d.o["k"] != nil {
		d.stepS(db, "setup", "expire", "k", "100")
	}
	c := anyCmd("", names(), 3+v.Tier())
	if usesOther(c) {
		d.makeAny(db, kinds[v.Choice("okind", 5)], "o")
	}
	r := hRun(db, c...)
	if isErr(r) {
		d.verify(db, "after-error")
		v.Reach("error")
	}
	v.Reach("end")
}

func usesOther(c [][]byte) bool {
	for _, a := range c[1:] {
		if string(a) == "o" {
			return true
		}
	}
	return false
}

// long argument lists with an error at the end.
func H_C12_late() {
	db := hDB(2)
	d := newRef("k", "o")
	d.makeAny(db, kinds[v.Choice("kind", 5)], "k")
	if d.o["k"] != nil && v.Choice("ttl", 2) == 1 {
		d.stepS(db, "setup", "expire", "k", "100")
	}
	d.makeAny(db, kinds[v.Choice("okind", 5)], "o")
	bad := []byte("bad")
	if v.Choice("symbolic", 2) == 1 {
		bad = symS("bad", 2)
		if len(bad) == 2 {
			v.Assume(v.And(bad[0] < 0x80, bad[1] < 0x80))
		}
	}
	var c [][]byte
	switch v.Choice("cmd", 20) {
	case 0:
		c = [][]byte{b("set"), b("k"), b("new"), b("ex"), b("10"), bad}
	case 1:
		c = [][]byte{b("set"), b("k"), b("new"), b("ex"), bad}
	case 2:
		c = [][]byte{b("set"), b("k"), b("new"), b("nx"), b("get"), bad}
	case 3:
		c = [][]byte{b("mset"), b("k"), b("1"), b("o"), b("2"), bad}
	case 4:
		c = [][]byte{b("hset"), b("k"), b("f"), b("2"), bad}
	case 5:
		c = [][]byte{b("hmset"), b("k"), b("f"), b("2"), b("n"), b("2"), bad}
	case 6:
		c = [][]byte{b("lpos"), b("k"), b("a"), b("count"), b("1"), b("rank"), bad}
	case 7:
		c = [][]byte{b("lmove"), b("k"), b("o"), b("left"), bad}
	case 8:
		c = [][]byte{b("lmove"), b("k"), b("o"), bad, b("left")}
	case 9:
		c = [][]byte{b("linsert"), b("k"), bad, b("a"), b("z")}
	case 10:
		c = [][]byte{b("setex"), b("k"), bad, b("z")}
	case 11:
		c = [][]byte{b("hincrby"), b("k"), b("new"), bad}
	case 12:
		c = [][]byte{b("hincrbyfloat"), b("k"), b("new"), b("bad")}
	case 13:
		c = [][]byte{b("setrange"), b("k"), bad, b("z")}
	case 14:
		c = [][]byte{b("expire"), b("k"), b("5"), bad}
	case 15:
		c = [][]byte{b("expire"), b("k"), bad}
	case 16:
		c = [][]byte{b("smove"), b("k"), b("o"), b("a")}
	case 17:
		c = [][]byte{b("sunionstore"), b("dst"), b("k"), b("o")}
	case 18:
		c = [][]byte{b("sdiffstore"), b("k"), b("k"), b("o")}
	case 19:
		c = [][]byte{b("hincrby"), b("k"), b("g"), b("1")}
	}
	d.all = append(d.all, "dst")
	r := hRun(db, c...)
	if isErr(r) {
		d.verify(db, "after-error")
		v.Reach("error")
	}
	v.Reach("end")
}

// a command needing one type on a live key of another type replies with an error.
func H_C12_wrongtype() {
	db := hDB(2)
	d := newRef("k", "o")
	kind := kinds[1+v.Choice("kind", 4)]
	d.makeAny(db, kind, "k")
	if v.Choice("ttl", 2) == 1 {
		d.stepS(db, "setup", "expire", "k", "100")
	}
	c := pickRow()
	d.makeAny(db, kinds[v.Choice("okind", 5)], "o")
	r := hRun(db, c...)
	want, ok := typed[string(c[0])]
	if ok && len(c) > 1 && string(c[1]) == "k" && want != kind {
		v.Assert(isErr(r), "wrong-type-is-an-error:"+string(c[0]))
	}
	if isErr(r) {
		d.verify(db, "after-error")
		v.Reach("error")
	}
	v.Reach("end")
}

// the same for commands naming the other key as source or destination.
func H_C12_wrongother() {
	db := hDB(2)
	d := newRef("k", "o")
	list := v.Choice("list", 2) == 1
	want := byte('t')
	if list {
		want = 'l'
	}
	if !list && v.Choice("k-missing", 2) == 1 {
		d.all = []string{"k", "o"}
	} else {
		d.makeAny(db, want, "k")
	}
	kind := kinds[1+v.Choice("okind", 4)]
	v.Assume(kind != want)
	d.makeAny(db, kind, "o")
	var c [][]byte
	if list {
		side := []string{"left", "right"}
		c = [][]byte{b("lmove"), b("k"), b("o"), b(side[v.Choice("f", 2)]), b(side[v.Choice("t", 2)])}
	} else {
		rows := []string{"sdiff k o", "sinter k o", "sunion k o", "sdiff o k", "sinter o k", "sunion o k", "sdiffstore d k o", "sinterstore d k o", "sunionstore d k o", "sdiffstore k o k", "sinterstore d o k", "sunionstore k o"}
		c = fields(rows[v.Choice("row", len(rows))])
		if d.o["k"] != nil && v.Choice("smove", 2) == 1 {
			c = fields("smove k o a")
		}
	}
	d.all = append(d.all, "d")
	r := hRun(db, c...)
	v.Assert(isErr(r), "wrong-type-is-an-error:"+string(c[0]))
	d.verify(db, "after-error")
	v.Reach("end")
}
