package main

import (
	v "gRedis/zzverif"
)

func elem(name string) []byte { return v.Bytes(name, 1) }

// symList makes key a list of up to max one-byte symbolic elements (any of them may be equal).
func symList(d *rdb, db hdb, k string, max int) {
	n := v.Choice("len-"+k, max+1)
	if n == 0 {
		return
	}
	el := make([][]byte, n)
	for i := range el {
		el[i] = elem("e-" + k)
	}
	d.make(db, 'l', k, el...)
}

func b(s string) []byte { return []byte(s) }

func symI(name string) []byte { return []byte(hItoa(v.Int64(name))) }

// listCmd is one list command with symbolic arguments on key k (other: second key).
func listCmd(k, other string) [][]byte {
	switch v.Choice("cmd", 16) {
	case 0:
		return [][]byte{b("lpush"), b(k), elem("x"), elem("y")}
	case 1:
		return [][]byte{b("rpush"), b(k), elem("x"), elem("y")}
	case 2:
		return [][]byte{b("lpushx"), b(k), elem("x"), elem("y")}
	case 3:
		return [][]byte{b("rpushx"), b(k), elem("x"), elem("y")}
	case 4:
		if v.Choice("counted", 2) == 1 {
			return [][]byte{b("lpop"), b(k), symI("count")}
		}
		return [][]byte{b("lpop"), b(k)}
	case 5:
		if v.Choice("counted", 2) == 1 {
			return [][]byte{b("rpop"), b(k), symI("count")}
		}
		return [][]byte{b("rpop"), b(k)}
	case 6:
		return [][]byte{b("llen"), b(k)}
	case 7:
		return [][]byte{b("lindex"), b(k), symI("index")}
	case 8:
		return [][]byte{b("lset"), b(k), symI("index"), elem("x")}
	case 9:
		w := "before"
		if v.Choice("after", 2) == 1 {
			w = "AFTER"
		}
		return [][]byte{b("linsert"), b(k), b(w), elem("pivot"), elem("x")}
	case 10:
		return [][]byte{b("lrange"), b(k), symI("start"), symI("stop")}
	case 11:
		return [][]byte{b("ltrim"), b(k), symI("start"), symI("stop")}
	case 12:
		return [][]byte{b("lrem"), b(k), symI("count"), elem("x")}
	case 13:
		side := []string{"left", "RIGHT"}
		return [][]byte{b("lmove"), b(k), b(other), b(side[v.Choice("from", 2)]), b(side[v.Choice("to", 2)])}
	case 14:
		c := [][]byte{b("lpos"), b(k), elem("x")}
		if v.Choice("rank?", 2) == 1 {
			c = append(c, b("rank"), symI("rank"))
		}
		if v.Choice("count?", 2) == 1 {
			c = append(c, b("COUNT"), symI("num"))
		}
		if v.Choice("maxlen?", 2) == 1 {
			c = append(c, b("maxlen"), symI("maxlen"))
		}
		return c
	}
	return [][]byte{b("rpush"), b(k), symS("x", 2)}
}

// one list command on any list.
func H_C07_command() {
	db := hDB(2)
	d := newRef("k", "o")
	symList(d, db, "k", 3+v.Tier())
	c := listCmd("k", "o")
	if string(c[0]) == "lmove" {
		symList(d, db, "o", 2)
	}
	d.step(db, "reply", c...)
	d.verify(db, "after")
	v.Reach("end")
}

// LMOVE between a list and itself.
func H_C07_rotate() {
	db := hDB(2)
	d := newRef("k")
	symList(d, db, "k", 3+v.Tier())
	side := []string{"LEFT", "right"}
	for i := 0; i < 2; i++ {
		d.step(db, "reply", b("lmove"), b("k"), b("k"), b(side[v.Choice("from", 2)]), b(side[v.Choice("to", 2)]))
	}
	d.verify(db, "after")
	v.Reach("end")
}

// structural commands in sequence: the links of the list stay consistent.
func H_C07_sequence() {
	db := hDB(1)
	d := newRef("k", "o")
	d.make(db, 'l', "k", elem("e"), elem("e"))
	n := 2 + v.Tier()
	for i := 0; i < n; i++ {
		switch v.Choice("cmd", 8) {
		case 0:
			d.step(db, "reply", b("lpush"), b("k"), elem("x"))
		case 1:
			d.step(db, "reply", b("rpush"), b("k"), elem("x"))
		case 2:
			d.stepS(db, "reply", "lpop", "k")
		case 3:
			d.stepS(db, "reply", "rpop", "k")
		case 4:
			d.step(db, "reply", b("linsert"), b("k"), b("before"), elem("p"), elem("x"))
		case 5:
			d.step(db, "reply", b("lrem"), b("k"), b(hItoa(int64(v.Choice("count", 3)-1))), elem("x"))
		case 6:
			d.step(db, "reply", b("ltrim"), b("k"), b(hItoa(int64(v.Choice("start", 3)-1))), b(hItoa(int64(v.Choice("stop", 3)-2))))
		case 7:
			d.stepS(db, "reply", "lmove", "k", "o", "right", "left")
		}
	}
	d.verify(db, "after")
	v.Reach("end")
}

// indexes and counts that are not integers are rejected.
func H_C07_badnum() {
	db := hDB(1)
	d := newRef("k")
	d.make(db, 'l', "k", b("a"), b("b"))
	x := symS("n", 2)
	switch v.Choice("cmd", 7) {
	case 0:
		d.step(db, "reply", b("lindex"), b("k"), x)
	case 1:
		d.step(db, "reply", b("lset"), b("k"), x, b("z"))
	case 2:
		d.step(db, "reply", b("lrange"), b("k"), x, b("-1"))
	case 3:
		d.step(db, "reply", b("ltrim"), b("k"), b("0"), x)
	case 4:
		d.step(db, "reply", b("lrem"), b("k"), x, b("a"))
	case 5:
		d.step(db, "reply", b("lpop"), b("k"), x)
	case 6:
		d.step(db, "reply", b("rpop"), b("k"), x)
	}
	d.verify(db, "after")
	v.Reach("end")
}

// lists too long for symbolic elements: distinct or repeating elements, any
// index, range, count, rank and limit.
func H_C07_long() {
	db := hDB(2)
	d := newRef("k", "o")
	n := []int{5, 8, 19, 40}[v.Choice("len", 3+v.Tier())]
	mod := n
	cmd := v.Choice("cmd", 12)
	if cmd >= 6 {
		mod = 3 // elements repeat
	}
	el := make([][]byte, n)
	for i := range el {
		el[i] = b("e" + hItoa(int64(i%mod)))
	}
	d.make(db, 'l', "k", el...)
	switch cmd {
	case 0:
		d.step(db, "reply", b("lindex"), b("k"), symI("index"))
	case 1:
		d.step(db, "reply", b("lset"), b("k"), symI("index"), b("new"))
	case 2:
		d.step(db, "reply", b("lrange"), b("k"), symI("start"), symI("stop"))
	case 3:
		d.step(db, "reply", b("ltrim"), b("k"), symI("start"), symI("stop"))
	case 4:
		d.step(db, "reply", b("lpop"), b("k"), symI("count"))
	case 5:
		d.step(db, "reply", b("rpop"), b("k"), symI("count"))
	case 6:
		d.step(db, "reply", b("lrem"), b("k"), symI("count"), b("e1"))
	case 7:
		d.step(db, "reply", b("lrem"), b("k"), symI("count"), b("e0"))
	case 8:
		d.step(db, "reply", b("lpos"), b("k"), b("e1"), b("rank"), symI("rank"), b("count"), symI("num"))
	case 9:
		d.step(db, "reply", b("lpos"), b("k"), b("e2"), b("rank"), symI("rank"), b("maxlen"), symI("maxlen"))
	case 10:
		d.step(db, "reply", b("linsert"), b("k"), b([]string{"before", "after"}[v.Choice("side", 2)]), b("e"+hItoa(int64(v.Choice("pivot", 4)))), b("new"))
	case 11:
		from, to := []string{"left", "right"}[v.Choice("from", 2)], []string{"left", "right"}[v.Choice("to", 2)]
		dst := []string{"k", "o"}[v.Choice("dst", 2)]
		for i := 0; i < n+1; i++ {
			d.stepS(db, "reply", "lmove", "k", dst, from, to)
		}
	}
	d.verify(db, "after")
	v.Reach("end")
}

// many elements pushed by one command or one by one.
func H_C07_many() {
	db := hDB(1)
	d := newRef("k")
	if v.Choice("exists", 2) == 1 {
		d.make(db, 'l', "k", b("first"))
	}
	n := []int{3, 7, 20}[v.Choice("n", 3)]
	c := [][]byte{b([]string{"lpush", "rpush", "lpushx", "rpushx"}[v.Choice("cmd", 4)]), b("k")}
	for i := 0; i < n; i++ {
		c = append(c, b("e"+hItoa(int64(i))))
	}
	c[2+v.Choice("at", 3)] = symS("x", 2)
	if v.Choice("one", 2) == 1 {
		d.step(db, "reply", c...)
	} else {
		for i := 2; i < len(c); i++ {
			d.step(db, "reply", c[0], c[1], c[i])
		}
	}
	d.verify(db, "after")
	v.Reach("end")
}
