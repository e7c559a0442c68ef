package main

import (
	v "gRedis/zzverif"
)

func symSet(d *rdb, db hdb, k string, max int) {
	n := v.Choice("card-"+k, max+1)
	for i := 0; i < n; i++ {
		d.make(db, 't', k, elem("m-"+k))
	}
}

func H_C09_command() {
	db := hDB(2)
	d := newRef("s", "o")
	symSet(d, db, "s", 2+v.Tier())
	var c [][]byte
	x := symS("x", 1)
	switch v.Choice("cmd", 7) {
	case 0:
		c = [][]byte{b("sadd"), b("s"), x, elem("y"), x}
	case 1:
		c = [][]byte{b("srem"), b("s"), x, elem("y"), x}
	case 2:
		c = [][]byte{b("scard"), b("s")}
	case 3:
		c = [][]byte{b("sismember"), b("s"), x}
	case 4:
		c = [][]byte{b("smembers"), b("s")}
	case 5:
		symSet(d, db, "o", 2)
		c = [][]byte{b("smove"), b("s"), b("o"), x}
	case 6:
		c = [][]byte{b("smove"), b("s"), b("s"), x}
	}
	d.step(db, "reply", c...)
	d.verify(db, "after")
	v.Reach("end")
}

// operand makes key missing, expired, or a set with symbolic members.
func operand(d *rdb, db hdb, k string, max int) {
	if v.Choice("expired-"+k, 2) == 1 {
		d.make(db, 't', k, b("a"), b("z"))
		d.stepS(db, "setup", "expire", k, "1")
		return
	}
	symSet(d, db, k, max)
}

var algebra = []string{"sinter", "sunion", "sdiff"}

// algebra over two operands, plain and storing into a third key, over an operand, or over another type.
func H_C09_algebra() {
	db := hDB(2)
	d := newRef("a", "b", "dst")
	operand(d, db, "a", 2)
	operand(d, db, "b", 1+v.Tier())
	op := algebra[v.Choice("op", 3)]
	second := []string{"b", "a"}[v.Choice("second", 2)]
	switch v.Choice("form", 3) {
	case 0:
		v.SetClock(clock0 + 5)
		d.now = clock0 + 5
		d.stepS(db, "reply", op, "a", second)
	case 1:
		d.makeAny(db, kinds[v.Choice("dst", 5)], "dst")
		if d.o["dst"] != nil && v.Choice("dst-ttl", 2) == 1 {
			d.stepS(db, "setup", "expire", "dst", "100")
		}
		v.SetClock(clock0 + 5)
		d.now = clock0 + 5
		d.stepS(db, "reply", op+"store", "dst", "a", second)
	case 2:
		v.SetClock(clock0 + 5)
		d.now = clock0 + 5
		d.stepS(db, "reply", op+"store", []string{"a", "b"}[v.Choice("into", 2)], "a", second)
	}
	d.verify(db, "after")
	v.Reach("end")
}

// three operands with overlapping members.
func H_C09_three() {
	db := hDB(2)
	d := newRef("a", "b", "c", "dst")
	symSet(d, db, "a", 2)
	symSet(d, db, "b", 1)
	symSet(d, db, "c", 1+v.Tier())
	op := algebra[v.Choice("op", 3)]
	if v.Choice("store", 2) == 1 {
		d.stepS(db, "reply", op+"store", "dst", "a", "b", "c")
	} else {
		d.stepS(db, "reply", op, "a", "b", "c")
	}
	d.verify(db, "after")
	v.Reach("end")
}

// one operand: the set itself.
func H_C09_single() {
	db := hDB(2)
	d := newRef("a", "dst")
	operand(d, db, "a", 2)
	v.SetClock(clock0 + 2)
	d.now = clock0 + 2
	op := algebra[v.Choice("op", 3)]
	switch v.Choice("form", 3) {
	case 0:
		d.stepS(db, "reply", op, "a")
	case 1:
		d.stepS(db, "reply", op+"store", "dst", "a")
	case 2:
		d.stepS(db, "reply", op+"store", "a", "a")
	}
	d.verify(db, "after")
	// the copy is independent of the original
	d.step(db, "reply", b("sadd"), b("a"), elem("x"))
	d.verify(db, "later")
	v.Reach("end")
}

// SPOP and SRANDMEMBER with any count, any random choice, any map order.
func H_C09_random() {
	db := hDB(1)
	v.MapOrder(2)
	d := newRef("s")
	n := v.Choice("card", 4)
	names := []string{"a", "", "c"}
	for i := 0; i < n; i++ {
		d.make(db, 't', "s", b(names[i]))
	}
	c := [][]byte{b([]string{"spop", "srandmember"}[v.Choice("cmd", 2)]), b("s")}
	if v.Choice("form", 2) == 1 {
		c = append(c, symCount())
	}
	d.step(db, "reply", c...)
	v.MapOrder(0)
	d.verify(db, "after")
	v.Reach("end")
}

func H_C09_sequence() {
	db := hDB(2)
	d := newRef("s", "o")
	n := 3 + v.Tier()
	for i := 0; i < n; i++ {
		switch v.Choice("cmd", 4) {
		case 0:
			d.step(db, "reply", b("sadd"), b("s"), elem("x"))
		case 1:
			d.step(db, "reply", b("srem"), b("s"), elem("x"))
		case 2:
			d.step(db, "reply", b("smove"), b("s"), b("o"), elem("x"))
		case 3:
			d.stepS(db, "reply", "sunionstore", "o", "o", "s")
		}
	}
	d.verify(db, "after")
	v.Reach("end")
}

// larger sets and more operands.
func H_C09_large() {
	db := hDB([]int{1, 3}[v.Choice("segments", 2)])
	keys := []string{"a", "b", "c", "d", "e"}
	d := newRef("a", "b", "c", "d", "e", "dst")
	name := func(i int) []byte { return b("m" + hItoa(int64(i))) }
	// a: 0..n, b: even, c: multiples of 3, d: n/2.., e: small
	n := []int{6, 12, 24}[v.Choice("card", 2+v.Tier())]
	for i := 0; i < n; i++ {
		in := []bool{true, i%2 == 0, i%3 == 0, i >= n/2, i < 2}
		for j, k := range keys {
			if in[j] {
				d.make(db, 't', k, name(i))
			}
		}
	}
	d.make(db, 't', keys[v.Choice("extra", 3)], elem("x"))
	x := name(0)
	x[len(x)-1] = v.Bytes("y", 1)[0]
	switch v.Choice("cmd", 10) {
	case 0, 1, 2:
		op := algebra[v.Choice("op", 3)]
		l := [][]string{{"a", "b", "c", "d"}, {"d", "c", "b", "a", "zz"}, {"a", "zz", "b"}, {"b", "c"}, {"c", "b", "c"}, {"zz", "a"}, {"a", "e", "c", "b", "d"}, {"b", "a", "d", "c"}}[v.Choice("operands", 8)]
		if v.Choice("store", 2) == 1 {
			d.stepS(db, "reply", append([]string{op + "store", []string{"dst", "c", "a"}[v.Choice("into", 3)]}, l...)...)
		} else {
			d.stepS(db, "reply", append([]string{op}, l...)...)
		}
	case 3:
		d.step(db, "reply", b("srem"), b("a"), name(0), x, name(n-1), name(0), b("zz"), name(2))
	case 4:
		d.step(db, "reply", b("sadd"), b("a"), b("z1"), x, name(1), b("z2"), b("z1"), elem("z"))
	case 5:
		d.step(db, "reply", b("smove"), b("a"), b("b"), x)
	case 6:
		d.step(db, "reply", b("smembers"), b("a"))
	case 7:
		d.step(db, "reply", b("sismember"), b("a"), x)
	case 8:
		d.step(db, "reply", b("spop"), b("e"), symCount())
	case 9:
		for i := 0; i < n; i++ {
			d.step(db, "reply", b("smove"), b("a"), b("c"), name(i))
		}
	}
	d.verify(db, "after")
	v.Reach("end")
}
