package main

import (
	v "gRedis/zzverif"
)

// setOptions runs SET with any sequence of up to three (four) options on a key
// in any of five states.
func setOptions(after int64) {
	db := hDB(2)
	d := newRef("k", "other")
	switch v.Choice("pre", 5) {
	case 1:
		d.stepS(db, "setup", "set", "k", "old")
	case 2:
		d.stepS(db, "setup", "setex", "k", "100", "old")
	case 3:
		d.stepS(db, "setup", "rpush", "k", "a", "b")
	case 4:
		d.stepS(db, "setup", "sadd", "k", "a", "b")
		d.stepS(db, "setup", "expire", "k", "100")
	}
	opts := []string{"NX", "xx", "GET", "keepttl", "EX", "px", "EXAT", "pxat"}
	args := []string{"", "", "", "", "50", "60000", hItoa(d.now + 70), hItoa((d.now + 80) * 1000)}
	c := bs("set", "k")
	c = append(c, elem("new"))
	n := v.Choice("nopt", 4+v.Tier())
	for i := 0; i < n; i++ {
		o := v.Choice("opt", len(opts))
		c = append(c, b(opts[o]))
		if args[o] != "" {
			c = append(c, b(args[o]))
		}
	}
	d.step(db, "reply", c...)
	d.verify(db, "after")
	if after > 0 {
		tick(d, after)
		d.verify(db, "later")
	}
	v.Reach("end")
}

func H_C05_options() { setOptions(0) }
func H_C11_options() { setOptions(65) }

// wideKeys are n key names.
func wideKeys(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, "key"+hItoa(int64(i)))
	}
	return l
}

// positions is 0, 1, 2, n/2, n-2 or n-1 (any of 0..n-1).
func positions(tag string, n int) int {
	if v.Tier() == 1 {
		return v.Choice(tag, n)
	}
	var l []int
	for _, i := range []int{0, 1, 2, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n && (len(l) == 0 || i > l[len(l)-1]) {
			l = append(l, i)
		}
	}
	return l[v.Choice(tag, len(l))]
}

// a command that takes many keys, each with its own deadline, some of them past.
func H_C11_wide() {
	n := []int{3, 4, 5, 9, 17}[v.Choice("n", 5)]
	names := wideKeys(n)
	d := newRef(names...)
	db := hDB([]int{1, 2, 16}[v.Choice("segments", 3)])
	kind := []byte{'s', 't'}[v.Choice("kind", 2)]
	past := positions("past", n+1) // this one has a short deadline; n: none
	plain := v.Choice("plain", 2) // every other key has no deadline
	for i, k := range names {
		if kind == 's' {
			d.make(db, 's', k, b("v"+k))
		} else {
			d.make(db, 't', k, b("m"), b("m"+k))
		}
		if i == past {
			d.stepS(db, "setup", "expire", k, "5")
		} else if plain == 0 || i%2 == 0 {
			d.stepS(db, "setup", "expire", k, hItoa(int64(100+i)))
		}
	}
	tick(d, 10)
	c := []string{}
	switch v.Choice("cmd", 7) {
	case 0:
		c = append(c, "mset")
		for _, k := range names {
			c = append(c, k, string(elem("new")))
		}
	case 1:
		c = append(append(c, "del"), names[1:]...)
	case 2:
		c = append(append(c, "exists"), names...)
	case 3:
		c = append(append(c, "mget"), names...)
	case 4:
		c = append(append(c, "sunionstore", names[n-1]), names[:n-1]...)
	case 5:
		c = append(append(c, "sinterstore", names[n-1]), names...)
	case 6:
		c = append(append(c, "sdiffstore", names[0]), names...)
	}
	d.stepS(db, "reply", c...)
	d.verify(db, "after")
	for _, k := range names {
		d.stepS(db, "again", "setnx", k, "x")
	}
	d.verify(db, "end")
	v.Reach("end")
}

// an error in a command with many arguments, anywhere in them.
func H_C12_wide() {
	n := []int{3, 4, 9, 17, 5, 8, 33}[v.Choice("n", 4+3*v.Tier())]
	names := wideKeys(n)
	d := newRef(append([]string{"k"}, names...)...)
	db := hDB([]int{2, 1, 16}[v.Choice("segments", 1+2*v.Tier())])
	d.makeAny(db, kinds[v.Choice("kind", 5)], "k")
	if d.o["k"] != nil && v.Choice("ttl", 2) == 1 {
		d.stepS(db, "setup", "expire", "k", "100")
	}
	c := []string{}
	name := v.Choice("cmd", 16)
	switch {
	case name < 6:
		// set algebra with one operand of another type
		bad := positions("bad", n)
		wrong := []byte{'s', 'l', 'h'}[v.Choice("wrong", 3)]
		for i, k := range names {
			if i == bad {
				d.makeAny(db, wrong, k)
			} else if i%3 != 1 {
				d.makeAny(db, 't', k)
			}
		}
		c = append(c, []string{"sunionstore", "sinterstore", "sdiffstore", "sunion", "sinter", "sdiff"}[name])
		if name < 3 {
			c = append(c, "k")
		}
		c = append(c, names...)
	case name < 9:
		c = append(c, []string{"mset", "hset", "hmset"}[name-6])
		if name > 6 {
			c = append(c, "k")
		}
		for i := range names {
			c = append(c, names[i], string(elem("x")))
		}
		c = c[:len(c)-1]
	case name < 14:
		// a value of another type, and many elements
		if d.o["k"] == nil {
			v.Reach("none")
			return
		}
		w := []string{"lpush", "rpush", "sadd", "srem", "hdel"}[name-9]
		if d.o["k"].typ == typed[w] {
			v.Reach("none")
			return
		}
		c = append(append(c, w, "k"), names...)
	case name == 14:
		c = append(c, "set", "k", "new")
		for range names {
			c = append(c, "get")
		}
		c = append(c, []string{"nope", "ex", ""}[v.Choice("last", 3)])
	case name == 15:
		c = append(c, "lpos", "k", "a")
		for range names {
			c = append(c, "count", "1")
		}
		c = append(c, "rank", []string{"0", "x", ""}[v.Choice("last", 3)])
	}
	r := d.stepS(db, "reply", c...)
	v.Assert(isErr(r), "refused")
	d.verify(db, "after-error")
	v.Reach("end")
}

// set algebra over up to five operands, any of which may be repeated or be the
// destination.
func H_C09_repeat() {
	db := hDB(2)
	d := newRef("a", "b", "c", "d")
	x := elem("x")
	d.make(db, 't', "a", b("1"), b("2"), b("3"))
	d.make(db, 't', "b", b("2"), b("3"), b("4"), x)
	d.make(db, 't', "c", b("3"), b("4"), b("5"))
	op := []string{"sinter", "sunion", "sdiff"}[v.Choice("op", 3)]
	names := []string{"a", "b", "c", "d"}
	var c []string
	if v.Choice("store", 2) == 1 {
		c = append(c, op+"store", names[v.Choice("dest", 4)])
	} else {
		c = append(c, op)
	}
	n := 2 + v.Choice("n", 3+v.Tier())
	for i := 0; i < n; i++ {
		c = append(c, names[v.Choice("key", 3+v.Tier())])
	}
	d.stepS(db, "reply", c...)
	d.verify(db, "after")
	v.Reach("end")
}
