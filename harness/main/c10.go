package main

import (
	v "gRedis/zzverif"
)

// anyKey gives key k any kind, with no TTL, a live TTL or an expired one (after tick).
func anyKey(d *rdb, db hdb, k string) {
	d.makeAny(db, kinds[v.Choice("kind-"+k, 5)], k)
	if d.o[k] != nil {
		switch v.Choice("ttl-"+k, 3) {
		case 1:
			d.stepS(db, "setup", "expire", k, "100")
		case 2:
			d.stepS(db, "setup", "expire", k, "1")
		}
	}
}

func tick(d *rdb, n int64) {
	d.now += n
	v.SetClock(d.now)
}

func H_C10_command() {
	db := hDB(2)
	d := newRef("a", "b")
	anyKey(d, db, "a")
	anyKey(d, db, "b")
	tick(d, 5)
	switch v.Choice("cmd", 12) {
	case 0:
		d.stepS(db, "reply", "del", "a")
	case 1:
		d.stepS(db, "reply", "del", "a", "b", "a", "zz")
	case 2:
		d.stepS(db, "reply", "exists", "a")
	case 3:
		d.stepS(db, "reply", "exists", "b", "a", "b", "zz")
	case 4:
		d.stepS(db, "reply", "type", "a")
	case 5:
		d.stepS(db, "reply", "keys", []string{"*", "a", "[^a]", "?", "??", ""}[v.Choice("pattern", 6)])
	case 6:
		d.stepS(db, "reply", "rename", "a", "b")
	case 7:
		d.stepS(db, "reply", "rename", "a", "a")
	case 8:
		d.stepS(db, "reply", "rename", "zz", "a")
	case 9:
		d.stepS(db, "reply", "mset", "a", "1", "b", "2")
	case 10:
		d.stepS(db, "reply", "rename", "b", "a")
		d.stepS(db, "reply", "rename", "a", "b")
	case 11:
		d.stepS(db, "reply", "del", "a", "b")
		d.stepS(db, "reply", "rpush", "a", "x")
	}
	d.verify(db, "after")
	tick(d, 200)
	d.verify(db, "later")
	v.Reach("end")
}

// the wrong number of arguments.
func H_C10_arity() {
	db := hDB(1)
	d := newRef("a", "b")
	d.makeAny(db, 's', "a")
	name := []string{"del", "exists", "type", "keys", "rename"}[v.Choice("cmd", 5)]
	c := []string{name}
	n := v.Choice("args", 5)
	for i := 0; i < n; i++ {
		c = append(c, []string{"a", "b", "a", "b"}[i])
	}
	d.stepS(db, "reply", c...)
	d.verify(db, "after")
	v.Reach("end")
}

// any history of writes: the keys listed are the live ones.
func H_C10_history() {
	db := hDB(1 + v.Choice("segments", 2)*2)
	d := newRef("a", "b", "c")
	keys := []string{"a", "b", "c"}
	n := 3 + v.Tier()
	for i := 0; i < n; i++ {
		k := keys[v.Choice("key", 2)]
		switch v.Choice("cmd", 10) {
		case 0:
			d.stepS(db, "reply", "set", k, "1")
		case 1:
			d.stepS(db, "reply", "del", k)
		case 2:
			d.stepS(db, "reply", "rename", k, keys[v.Choice("to", 3)])
		case 3:
			d.stepS(db, "reply", "lpush", k, "x")
		case 4:
			d.stepS(db, "reply", "sadd", k, "x")
		case 5:
			d.stepS(db, "reply", "lpop", k)
		case 6:
			d.stepS(db, "reply", "srem", k, "x")
		case 7:
			d.stepS(db, "reply", "expire", k, "5")
		case 8:
			tick(d, 6)
		case 9:
			d.stepS(db, "reply", "hset", k, "f", "v")
		}
	}
	d.verify(db, "after")
	v.Reach("end")
}

// names of any bytes.
func H_C10_names() {
	db := hDB(2)
	v.MapOrder(1)
	a, c := symS("a", 2), symS("c", 1)
	d := newRef(string(a), string(c))
	if bEq(a, c) {
		d.all = d.all[:1]
	}
	d.step(db, "reply", b("set"), a, b("1"))
	d.step(db, "reply", b("rpush"), c, b("x"))
	switch v.Choice("cmd", 3) {
	case 0:
		d.step(db, "reply", b("del"), c)
	case 1:
		d.step(db, "reply", b("rename"), a, c)
	case 2:
		d.step(db, "reply", b("exists"), a, c)
	}
	d.verify(db, "after")
	v.Reach("end")
}

// many keys, spread over any number of segments.
func H_C10_many() {
	db := hDB([]int{1, 2, 5, 16}[v.Choice("segments", 4)])
	names := []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}
	d := newRef(append(names, "x", "y")...)
	for i, k := range names {
		d.makeAny(db, kinds[1+i%4], k)
		switch i % 5 {
		case 1:
			d.stepS(db, "setup", "expire", k, "100")
		case 4:
			d.stepS(db, "setup", "expire", k, "1")
		}
	}
	tick(d, 3)
	x := v.Bytes("name", 1) // one of the keys or not
	v.Assume(v.And(x[0] >= 'a', x[0] <= 'y'))
	v.Assume(v.Or(x[0] < 'm', x[0] > 'w'))
	switch v.Choice("cmd", 6) {
	case 0:
		d.step(db, "reply", b("del"), b("a"), x, b("c"), b("x"), b("e"), b("a"), b("l"), b("h"))
	case 1:
		d.step(db, "reply", b("exists"), b("a"), x, b("c"), b("x"), b("e"), b("a"), b("l"), b("h"), x)
	case 2:
		d.step(db, "reply", b("rename"), x, b("c"))
	case 3:
		d.step(db, "reply", b("rename"), b("h"), x)
	case 4:
		d.step(db, "reply", b("keys"), []byte{'[', 'a', '-', x[0], ']'})
	case 5:
		d.step(db, "reply", b("type"), x)
		d.step(db, "reply", b("ttl"), x)
	}
	d.verify(db, "after")
	tick(d, 200)
	d.verify(db, "later")
	v.Reach("end")
}
