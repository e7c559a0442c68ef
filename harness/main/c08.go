package main

import (
	v "gRedis/zzverif"
)

// symHash makes key a hash of up to max fields with one-byte symbolic names and values.
func symHash(d *rdb, db hdb, k string, max int) {
	n := v.Choice("size-"+k, max+1)
	for i := 0; i < n; i++ {
		d.make(db, 'h', k, elem("f-"+k), elem("v-"+k))
	}
}

func H_C08_command() {
	db := hDB(2)
	d := newRef("h")
	symHash(d, db, "h", 2+v.Tier())
	var c [][]byte
	f, g := elem("f"), elem("g")
	switch v.Choice("cmd", 13) {
	case 0:
		c = [][]byte{b("hset"), b("h"), f, symS("x", 2)}
	case 1:
		c = [][]byte{b("hset"), b("h"), f, elem("x"), g, elem("y")}
	case 2:
		c = [][]byte{b("hmset"), b("h"), f, elem("x"), g, elem("y")}
	case 3:
		c = [][]byte{b("hsetnx"), b("h"), f, elem("x")}
	case 4:
		c = [][]byte{b("hget"), b("h"), f}
	case 5:
		c = [][]byte{b("hmget"), b("h"), f, g, f}
	case 6:
		c = [][]byte{b("hdel"), b("h"), f, g, f}
	case 7:
		c = [][]byte{b("hexists"), b("h"), f}
	case 8:
		c = [][]byte{b("hlen"), b("h")}
	case 9:
		c = [][]byte{b("hstrlen"), b("h"), f}
	case 10:
		c = [][]byte{b("hkeys"), b("h")}
	case 11:
		c = [][]byte{b("hvals"), b("h")}
	case 12:
		c = [][]byte{b("hgetall"), b("h")}
	}
	d.step(db, "reply", c...)
	d.verify(db, "after")
	v.Reach("end")
}

// names and values of any length, including the empty one.
func H_C08_bytes() {
	db := hDB(2)
	d := newRef("h")
	f := symS("f", 2)
	d.step(db, "reply", b("hset"), b("h"), f, symS("x", 2))
	d.step(db, "reply", b("hstrlen"), b("h"), f)
	g := symS("g", 2)
	switch v.Choice("cmd", 4) {
	case 0:
		d.step(db, "reply", b("hset"), b("h"), g, symS("y", 1))
	case 1:
		d.step(db, "reply", b("hget"), b("h"), g)
	case 2:
		d.step(db, "reply", b("hdel"), b("h"), g)
	case 3:
		d.step(db, "reply", b("hsetnx"), b("h"), g, symS("y", 1))
	}
	d.verify(db, "after")
	v.Reach("end")
}

// HRANDFIELD with any count, any choice of the random generator, any map order.
func H_C08_random() {
	db := hDB(1)
	v.MapOrder(2)
	d := newRef("h")
	n := v.Choice("size", 4)
	names := []string{"a", "", "c"}
	for i := 0; i < n; i++ {
		d.make(db, 'h', "h", b(names[i]), elem("v"))
	}
	c := [][]byte{b("hrandfield"), b("h")}
	switch v.Choice("form", 3) {
	case 1:
		c = append(c, symCount())
	case 2:
		c = append(c, symCount(), b("WithValues"))
	}
	d.step(db, "reply", c...)
	v.MapOrder(0)
	d.verify(db, "after")
	v.Reach("end")
}

// symCount: any count; counts below -3 (quick) or -4 are only explored where
// they are too large to be served.
func symCount() []byte {
	n := v.Int64("count")
	v.Assume(v.Or(n >= int64(-3-v.Tier()), n < -(1<<40)))
	return b(hItoa(n))
}

// edits in sequence.
func H_C08_sequence() {
	db := hDB(2)
	d := newRef("h")
	n := 3 + v.Tier()
	for i := 0; i < n; i++ {
		switch v.Choice("cmd", 3) {
		case 0:
			d.step(db, "reply", b("hset"), b("h"), elem("f"), elem("x"))
		case 1:
			d.step(db, "reply", b("hdel"), b("h"), elem("f"))
		case 2:
			d.step(db, "reply", b("hsetnx"), b("h"), elem("f"), elem("x"))
		}
	}
	d.verify(db, "after")
	v.Reach("end")
}

// larger hashes and longer argument lists.
func H_C08_large() {
	db := hDB(2)
	d := newRef("h")
	n := []int{4, 9, 20, 40}[v.Choice("size", 3+v.Tier())]
	name := func(i int) []byte { return b("f" + hItoa(int64(i))) }
	c := [][]byte{b("hset"), b("h")}
	for i := 0; i < n; i++ {
		c = append(c, name(i), b("v"+hItoa(int64(i))))
	}
	at := []int{0, n / 2, n - 1}[v.Choice("at", 3)]
	c[2+2*at+1] = symS("v", 1)
	if v.Choice("one", 2) == 1 {
		d.step(db, "reply", c...)
	} else {
		for i := 2; i < len(c); i += 2 {
			d.step(db, "reply", c[0], c[1], c[i], c[i+1])
		}
	}
	f := name(at)
	f[len(f)-1] = v.Bytes("f", 1)[0] // a field that exists or not
	switch v.Choice("cmd", 9) {
	case 0:
		d.step(db, "reply", b("hdel"), b("h"), name(0), f, name(n-1), name(0), name(2), b("zz"))
	case 1:
		d.step(db, "reply", b("hmget"), b("h"), name(0), f, b("zz"), name(n-1), name(1), name(0), b("z"))
	case 2:
		d.step(db, "reply", b("hset"), b("h"), f, b("x"), b("zz"), b("y"), name(1), elem("q"), b("zz"), b("w"))
	case 3:
		d.step(db, "reply", b("hmset"), b("h"), b("z1"), b("x"), f, b("y"), b("z2"), elem("q"), name(1), b("w"))
	case 4:
		d.step(db, "reply", b("hgetall"), b("h"))
	case 5:
		d.step(db, "reply", b("hkeys"), b("h"))
	case 6:
		d.step(db, "reply", b("hvals"), b("h"))
	case 7:
		d.step(db, "reply", b("hsetnx"), b("h"), f, b("x"))
		d.stepS(db, "reply", "hlen", "h")
	case 8:
		d.step(db, "reply", b("hexists"), b("h"), f)
		d.step(db, "reply", b("hstrlen"), b("h"), f)
		d.step(db, "reply", b("hget"), b("h"), f)
	}
	d.verify(db, "after")
	if v.Choice("drain", 2) == 1 {
		for i := 0; i < n; i++ {
			d.step(db, "reply", b("hdel"), b("h"), name(i))
		}
		d.verify(db, "drained")
	}
	v.Reach("end")
}
