package main

import (
	v "gRedis/zzverif"
)

// commands over one or several keys, in every order, with repetitions.
var multi = lines(`
set k 1
get o
del k o
del k k
mset k 1 o 2
mset k 1 k 2
mget k o
mget o k o
rename k o
rename o k
rename k k
lmove k o left right
lmove o k left left
smove k o a
smove k k a
sdiff k o
sdiff o k
sinter k o k
sunion o k
sdiffstore k o k
sinterstore d o k
sunionstore o k o
sunionstore k k
rpush k 1
sadd o a
hset k f 1
expire k 0
keys *
incr k
spop o
del o k
mset o 2 k 1
exists o k o
smove o k a
lmove k k right left
sinterstore k k o
lpop k`)

func kindsOf(tag string) []string {
	switch v.Choice(tag, 4) {
	case 1:
		return []string{"set", "1"}
	case 2:
		return []string{"rpush", "a", "b"}
	case 3:
		return []string{"sadd", "a", "b"}
	}
	return nil
}

// two commands whatever the keys and the number of lock stripes.
func H_C16_pairs() {
	seg := []int{1, 2, 3}[v.Choice("segments", 2+v.Tier())]
	db := hDB(seg)
	var made []string
	if v.Tier() == 0 { // both keys of one type
		made = kindsOf("kind")
		if made != nil {
			hDo(db, append([]string{made[0], "k"}, made[1:]...)...)
			hDo(db, append([]string{made[0], "o"}, made[1:]...)...)
		}
	} else {
		for _, k := range ko {
			if c := kindsOf("kind-" + k); c != nil {
				hDo(db, append([]string{c[0], k}, c[1:]...)...)
				made = c
			}
		}
	}
	if made != nil && (v.Tier() == 0 || v.Choice("expiring", 2) == 1) {
		hDo(db, "expire", "k", "10")
		now := v.Int64("now")
		v.Assume(v.And(now >= clock0, now <= clock0+20))
		v.SetClock(now)
	}
	i := v.Choice("a", len(multi))
	j := i + v.Choice("b", len(multi)-i)
	a, c := fields(multi[i]), fields(multi[j])
	v.IgnoreRaces() // C17
	v.ParD(0, func() { hRun(db, a...) }, func() { hRun(db, c...) })
	released(db, "k", "o", "d")
	v.Reach("end")
}

// three commands around a ring of keys, with symbolic key names.
func H_C16_ring() {
	seg := []int{3, 1, 2, 5}[v.Choice("segments", 2+2*v.Tier())]
	db := hDB(seg)
	ks := [][]byte{b("a"), b("b"), b("c")}
	ops := []string{"mset", "mget", "rename", "sunionstore", "lmove", "smove", "del", "sunion", "exists"}[:5+4*v.Tier()]
	mk := func(x, y []byte) [][]byte {
		switch op := ops[v.Choice("op", len(ops))]; op {
		case "mset":
			return [][]byte{b(op), x, b("1"), y, b("2")}
		case "lmove":
			return [][]byte{b(op), x, y, b("left"), b("right")}
		case "smove":
			return [][]byte{b(op), x, y, b("m")}
		default:
			return [][]byte{b(op), x, y}
		}
	}
	a, c, e := mk(ks[0], ks[1]), mk(ks[1], ks[2]), mk(ks[2], ks[0])
	hDo(db, "set", "a", "1")
	hDo(db, "set", "b", "1")
	v.IgnoreRaces() // C17
	v.ParD(0, func() { hRun(db, a...) }, func() { hRun(db, c...) }, func() { hRun(db, e...) })
	released(db, "a", "b", "c")
	v.Reach("end")
}

// two commands naming any two keys (one symbolic byte each) in opposite orders.
func H_C16_names() {
	seg := []int{2, 3, 1}[v.Choice("segments", 2+v.Tier())]
	db := hDB(seg)
	x, y := v.Bytes("x", 1), v.Bytes("y", 1)
	ops := []string{"mget", "rename", "sunionstore", "del", "sinter"}[:3+2*v.Tier()]
	a := [][]byte{b(ops[v.Choice("a", len(ops))]), hCopy(x), hCopy(y)}
	c := [][]byte{b(ops[v.Choice("b", len(ops))]), hCopy(y), hCopy(x)}
	hRun(db, b("set"), hCopy(x), b("1"))
	v.IgnoreRaces() // C17
	v.ParD(0, func() { hRun(db, a...) }, func() { hRun(db, c...) })
	hRun(db, b("del"), hCopy(y), hCopy(x))
	v.Assert(isOK(hRun(db, b("set"), hCopy(x), b("1"))), "key-usable-again")
	v.Assert(isOK(hRun(db, b("set"), hCopy(y), b("1"))), "key-usable-again")
	v.Reach("end")
}

// commands of different numbers of keys, in any of several orders.
func H_C16_sizes() {
	db := hDB([]int{16, 3}[v.Choice("segments", 1+v.Tier())])
	names := wideKeys(5 + v.Tier())
	mk := func(tag string, n, from int) []string {
		c := []string{[]string{"mget", "del", "mset"}[v.Choice(tag+"op", 2+v.Tier())]}
		for i := 0; i < n; i++ {
			k := names[(from+i)%len(names)]
			c = append(c, k)
			if c[0] == "mset" {
				c = append(c, "1")
			}
		}
		return c
	}
	n := 3 + v.Choice("n", len(names)-2)
	a := mk("a", n, 0)
	c := mk("b", 2, v.Choice("from", len(names)))
	hDo(db, "set", names[0], "1")
	v.IgnoreRaces() // C17
	v.ParD(0, func() { hDo(db, a...) }, func() { hDo(db, c...) })
	released(db, names...)
	v.Reach("end")
}
