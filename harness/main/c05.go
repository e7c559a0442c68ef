package main

import (
	v "gRedis/zzverif"
)

// symS is a symbolic byte string of length 0..max.
func symS(name string, max int) []byte {
	return v.Bytes(name, v.Choice(name+"#", max+1))
}

// preString: key k is missing, a string with symbolic content, or a list; with or without TTL.
func preString(d *rdb, db hdb, k string, max int) {
	switch v.Choice("pre-"+k, 3) {
	case 1:
		d.make(db, 's', k, symS("val-"+k, max))
	case 2:
		d.makeAny(db, 'l', k)
	default:
		return
	}
	if v.Choice("pre-ttl-"+k, 2) == 1 {
		d.stepS(db, "setup", "expire", k, "100")
	}
}

func H_C05_set() {
	db := hDB(2)
	d := newRef("k", "other")
	preString(d, db, "k", 2)
	opts := []string{"nx", "XX", "get", "KeepTTL", "ex", "PX", "exat", "pxat"}
	cmd := [][]byte{[]byte("set"), []byte("k"), symS("new", 2)}
	nopt := v.Choice("nopt", 3+v.Tier())
	for i := 0; i < nopt; i++ {
		o := v.Choice("opt", len(opts))
		cmd = append(cmd, []byte(opts[o]))
		if o >= 4 {
			cmd = append(cmd, []byte(hItoa(v.Int64("arg"))))
		}
	}
	d.step(db, "reply", cmd...)
	d.verify(db, "after")
	v.Reach("end")
}

func H_C05_range() {
	db := hDB(2)
	d := newRef("k")
	preString(d, db, "k", 3+v.Tier())
	if v.Choice("cmd", 2) == 0 {
		d.step(db, "reply", []byte("getrange"), []byte("k"), []byte(hItoa(v.Int64("start"))), []byte(hItoa(v.Int64("end"))))
	} else {
		off := v.Int64("offset")
		v.Assume(v.Or(off <= int64(5+v.Tier()), off > 512*1024*1024))
		d.step(db, "reply", []byte("setrange"), []byte("k"), []byte(hItoa(off)), symS("val", 2+v.Tier()))
	}
	d.verify(db, "after")
	v.Reach("end")
}

func H_C05_plain() {
	db := hDB(2)
	d := newRef("k", "j", "m")
	preString(d, db, "k", 2)
	x := symS("x", 2)
	switch v.Choice("cmd", 9) {
	case 0:
		d.step(db, "reply", []byte("get"), []byte("k"))
	case 1:
		d.step(db, "reply", []byte("setnx"), []byte("k"), x)
	case 2:
		d.step(db, "reply", []byte("setex"), []byte("k"), []byte(hItoa(v.Int64("sec"))), x)
	case 3:
		d.step(db, "reply", []byte("strlen"), []byte("k"))
	case 4:
		d.step(db, "reply", []byte("append"), []byte("k"), x)
	case 5:
		d.make(db, 's', "j", x)
		d.stepS(db, "reply", "mget", "m", "j", "k", "j")
	case 6:
		d.makeAny(db, kinds[v.Choice("jkind", 5)], "j")
		d.step(db, "reply", []byte("mset"), []byte("j"), x, []byte("k"), symS("y", 1))
	case 7:
		d.step(db, "reply", []byte("mset"), []byte("k"), x, []byte("k"), symS("y", 1))
	case 8:
		d.step(db, "reply", []byte("append"), []byte("k"), x)
		d.step(db, "reply", []byte("append"), []byte("k"), symS("y", 1))
	}
	d.verify(db, "after")
	v.Reach("end")
}

// two string writers in a row on the same key: values are what a sequence of
// edits produces.
func H_C05_sequence() {
	db := hDB(2)
	d := newRef("k")
	d.make(db, 's', "k", symS("init", 2))
	n := 2 + v.Tier()
	for i := 0; i < n; i++ {
		x := symS("x", 1+v.Tier())
		switch v.Choice("cmd", 4) {
		case 0:
			d.step(db, "reply", []byte("append"), []byte("k"), x)
		case 1:
			d.step(db, "reply", []byte("setrange"), []byte("k"), []byte(hItoa(int64(v.Choice("off", 4)))), x)
		case 2:
			d.step(db, "reply", []byte("set"), []byte("k"), x, []byte("get"))
		case 3:
			d.step(db, "reply", []byte("getrange"), []byte("k"), []byte("1"), []byte("-1"))
		}
	}
	d.verify(db, "after")
	v.Reach("end")
}

// long is a value of n bytes, one of them symbolic.
func long(name string, n int) []byte {
	x := make([]byte, n)
	for i := range x {
		x[i] = byte('a' + i%23)
	}
	x[[]int{0, n / 2, n - 1}[v.Choice(name+"-at", 3)]] = v.Bytes(name, 1)[0]
	return x
}

// longer values: any index and offset.
func H_C05_long() {
	db := hDB(2)
	d := newRef("k")
	n := []int{9, 33, 70}[v.Choice("len", 2+v.Tier())]
	d.make(db, 's', "k", long("x", n))
	if v.Choice("ttl", 2) == 1 {
		d.stepS(db, "setup", "expire", "k", "100")
	}
	switch v.Choice("cmd", 5) {
	case 0:
		d.step(db, "reply", b("getrange"), b("k"), symI("start"), symI("end"))
	case 1:
		off := v.Int64("offset")
		v.Assume(v.Or(off <= int64(n+2), off > 512*1024*1024))
		d.step(db, "reply", b("setrange"), b("k"), b(hItoa(off)), symS("y", 2))
	case 2:
		off := v.Int64("offset")
		v.Assume(v.And(off >= 0, off <= int64(n+2)))
		d.step(db, "reply", b("setrange"), b("k"), b(hItoa(off)), long("y", 12))
	case 3:
		d.step(db, "reply", b("append"), b("k"), long("y", []int{5, 40, 300}[v.Choice("tail", 3)]))
	case 4:
		d.step(db, "reply", b("set"), b("k"), long("y", []int{5, 40, 300}[v.Choice("new", 3)]), b("get"))
	}
	d.verify(db, "after")
	d.stepS(db, "reply", "strlen", "k")
	v.Reach("end")
}

// many keys in one MSET or MGET, with repetitions.
func H_C05_many() {
	db := hDB([]int{1, 3, 16}[v.Choice("segments", 3)])
	names := []string{"a", "b", "c", "d", "e", "f", "g", "h"}
	d := newRef(names...)
	d.makeAny(db, kinds[v.Choice("kind-c", 5)], "c")
	d.make(db, 's', "f", symS("f", 1))
	if v.Choice("ttl-f", 2) == 1 {
		d.stepS(db, "setup", "expire", "f", "100")
	}
	if v.Choice("cmd", 2) == 0 {
		c := [][]byte{b("mset")}
		n := 2 + v.Choice("n", 8)
		for i := 0; i < n; i++ {
			x := elem("v")
			if i == 1 || i == n-1 {
				x = symS("v", 1)
			}
			c = append(c, b(names[i*3%8]), x)
		}
		d.step(db, "reply", c...)
	} else {
		d.stepS(db, "reply", "mget", "a", "f", "c", "f", "b", "h", "f", "c", "g")
	}
	d.verify(db, "after")
	d.stepS(db, "reply", "mget", "a", "f", "c", "e", "b", "h", "d", "c", "g")
	v.Reach("end")
}

// lengths around the capacities slices grow through.
func H_C05_growth() {
	db := hDB(2)
	d := newRef("k")
	d.make(db, 's', "k", symS("x", 1))
	n := []int{7, 8, 15, 16, 31, 32, 63, 64, 65}[v.Choice("len", 9)]
	for len(d.o["k"].s) < n {
		d.step(db, "reply", b("append"), b("k"), b("abcdefgh")[:1+len(d.o["k"].s)%7])
	}
	switch v.Choice("cmd", 3) {
	case 0:
		d.step(db, "reply", b("setrange"), b("k"), b(hItoa(int64(len(d.o["k"].s)+v.Choice("gap", 4)-1))), symS("y", 2))
	case 1:
		d.step(db, "reply", b("append"), b("k"), symS("y", 2))
	case 2:
		d.step(db, "reply", b("setrange"), b("k"), b("0"), symS("y", 2))
	}
	d.verify(db, "after")
	v.Reach("end")
}
