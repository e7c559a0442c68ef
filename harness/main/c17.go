package main

import (
	"gRedis/resp"
	v "gRedis/zzverif"
)

// listed: the reply of KEYS * names exactly the keys of want, once each.
func listed(r resp.RedisData, want []string) bool {
	e, ok := arr(r)
	if !ok || len(e) != len(want) {
		return false
	}
	for _, w := range want {
		n := 0
		for i := range e {
			if isBulk(e[i], b(w)) {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

// after everything has finished, KEYS lists exactly the live keys.
func listsLive(db hdb, keys ...string) {
	var live []string
	for _, k := range keys {
		if isInt(hDo(db, "exists", k), 1) {
			live = append(live, k)
		}
	}
	v.Assert(listed(hDo(db, "keys", "*"), live), "keys-lists-live-keys")
}

// any two commands of the table at once: no race, no panic.
func H_C17_pairs() {
	db := hDB(1)
	i := v.Choice("a", len(table))
	j := i + v.Choice("b", len(table)-i)
	a, c := fields(table[i]), fields(table[j])
	kind := byte(0)
	switch v.Choice("match", 2) {
	case 0: // k has the type the first command needs
		kind = typed[string(a[0])]
		if kind == 0 {
			kind = typed[string(c[0])]
		}
	}
	switch kind {
	case 's':
		hDo(db, "set", "k", "5")
	case 'l':
		hDo(db, "rpush", "k", "a", "b")
	case 'h':
		hDo(db, "hset", "k", "f", "1")
	case 't':
		hDo(db, "sadd", "k", "a")
	}
	if kind != 0 {
		hDo(db, "expire", "k", "10")
		now := v.Int64("now")
		v.Assume(v.And(now >= clock0+9, now <= clock0+11))
		v.SetClock(now)
	}
	v.Par(0, func() { hRun(db, a...).ToRedisFormat() }, func() { hRun(db, c...).ToRedisFormat() })
	listsLive(db, "k", "o")
	v.Reach("end")
}

// enumeration while other keys of the same and of other segments come and go.
func H_C17_enumerate() {
	db := hDB(1 + v.Choice("seg", 2))
	hDo(db, "set", "x", "1")
	if v.Choice("y", 2) == 1 {
		hDo(db, "rpush", "y", "1")
	}
	rows := lines(`
set w 1
del x
del x y
rename x z
rename y x
mset v 1 w 2
rpush y 2
lpop y
expire x -1
setex x 10 2
sadd s a
hset h f 1
keys *
flush`)
	rows = rows[:len(rows)-1]
	a := fields(rows[v.Choice("a", len(rows))])
	c := fields(rows[v.Choice("b", len(rows))])
	var keys resp.RedisData
	v.Par(0, func() { keys = hDo(db, "keys", "*"); keys.ToRedisFormat() }, func() { hRun(db, a...) }, func() { hRun(db, c...) })
	e, ok := arr(keys)
	v.Assert(ok, "keys-replies-with-an-array")
	for i := range e {
		for j := 0; j < i; j++ {
			x, _ := bulkOf(e[i])
			v.Assert(!isBulk(e[j], x), "listed-once")
		}
	}
	listsLive(db, "v", "w", "x", "y", "z", "s", "h")
	v.Reach("end")
}

// values read by one client while another changes them.
func H_C17_values() {
	db := hDB(2)
	var rows []string
	switch v.Choice("type", 4) {
	case 0:
		hDo(db, "set", "k", "abcdef")
		rows = lines("get k\ngetrange k 1 3\nmget k k\nset k x get\nsetrange k 2 Z\nappend k Z\nstrlen k\nsetrange k 9 Z")
	case 1:
		hDo(db, "rpush", "k", "a", "b", "c")
		rows = lines("lrange k 0 -1\nlindex k 1\nlset k 1 z\nlrem k 0 b\nltrim k 1 1\nlinsert k before b q\nlpos k b\nlmove k k left right\nrpop k 2\nllen k")
	case 2:
		hDo(db, "hset", "k", "f", "1", "g", "2")
		rows = lines("hgetall k\nhkeys k\nhvals k\nhset k f 3 n 1\nhdel k f g\nhincrby k f 2\nhmget k f g\nhrandfield k -2\nhlen k\nhsetnx k n 2")
	case 3:
		hDo(db, "sadd", "k", "a", "b")
		hDo(db, "sadd", "o", "b")
		rows = lines("smembers k\nsunion k o\nsinter k o\nsdiff o k\nsadd k c\nsrem k a b\nspop k\nsrandmember k -2\nsmove k o a\nsunionstore o k o\nsdiffstore k k o\nscard k\nsismember o b")
	}
	a := fields(rows[v.Choice("a", len(rows))])
	c := fields(rows[v.Choice("b", len(rows))])
	e := fields(rows[v.Choice("c", len(rows))])
	v.Par(0, func() { hRun(db, a...).ToRedisFormat() }, func() { hRun(db, c...).ToRedisFormat(); hRun(db, e...).ToRedisFormat() })
	listsLive(db, "k", "o")
	v.Reach("end")
}
