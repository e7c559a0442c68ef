package main

import (
	v "gRedis/zzverif"
)

// after any command, every key can be used again and the keyspace enumerated.
func released(db hdb, keys ...string) {
	for _, k := range keys {
		hDo(db, "del", k)
		v.Assert(isOK(hDo(db, "set", k, "1")), "key-usable-again")
	}
	hDo(db, append([]string{"del"}, keys...)...)
	hDo(db, "keys", "*")
}

// any command, any number of arguments of any content, on any keyspace.
func H_C04_any() {
	db := hDB(1 + v.Choice("seg", 2))
	d := newRef("k", "o")
	kind := kinds[v.Choice("kind", 5)]
	d.makeAny(db, kind, "k")
	if kind != 0 && v.Choice("expired", 2) == 1 {
		d.stepS(db, "setup", "expire", "k", "10")
		v.SetClock(clock0 + 100)
	}
	c := anyCmd("", names(), 3+v.Tier())
	hRun(db, c...)
	released(db, "k", "o")
	v.Reach("end")
}

// no arguments, null arguments, empty arguments.
func H_C04_degenerate() {
	db := hDB(1)
	d := newRef("k")
	d.makeAny(db, kinds[v.Choice("kind", 5)], "k")
	all := names()
	name := all[v.Choice("cmd", len(all))]
	c := [][]byte{b(name)}
	n := v.Choice("n", 5)
	for i := 0; i < n; i++ {
		switch v.Choice("arg", 3) {
		case 0:
			c = append(c, nil)
		case 1:
			c = append(c, []byte{})
		case 2:
			c = append(c, b("k"))
		}
	}
	r := hRun(db, c...)
	r.ToRedisFormat()
	released(db, "k")
	v.Reach("end")
}

// commands with two or three numeric arguments or many options.
func H_C04_options() {
	db := hDB(1)
	d := newRef("k", "o")
	row := fields([]string{
		"getrange k # #", "setrange k # z", "lrange k # #", "ltrim k # #", "lrem k # a", "lset k # z", "lindex k #",
		"lpos k a rank # count # maxlen #", "lpos k a count # rank #", "lpop k #", "rpop k #", "spop k #", "srandmember k #", "hrandfield k # withvalues",
		"set k v ex #", "set k v px #", "set k v exat #", "set k v pxat # nx", "set k v get keepttl", "set k v nx xx", "setex k # v", "expire k # gt", "expire k # lt",
		"incrby k #", "decrby k #", "hincrby k f #",
	}[v.Choice("row", 26)])
	for i := range row {
		if string(row[i]) == "#" {
			x := v.Int64("n")
			switch string(row[0]) {
			case "setrange":
				v.Assume(v.Or(x < 8, x > 1<<32))
			case "srandmember", "hrandfield":
				v.Assume(v.Or(x > -4, x < -(1<<40)))
			}
			row[i] = b(hItoa(x))
		}
	}
	kind := map[byte]byte{'l': 'l', 'r': 'l', 'h': 'h'}[row[0][0]]
	switch string(row[0]) {
	case "spop", "srandmember":
		kind = 't'
	}
	if kind == 0 {
		kind = 's'
	}
	switch v.Choice("state", 3) {
	case 0:
		d.makeAny(db, kind, "k")
	case 1:
		d.makeAny(db, kind, "k")
		d.stepS(db, "setup", "expire", "k", "10")
		v.SetClock(clock0 + 100)
	}
	hRun(db, row...)
	released(db, "k")
	v.Reach("end")
}

// every row of the table of well-formed commands, twice, on every keyspace.
func H_C04_rows() {
	db := hDB(2)
	d := newRef("k", "o")
	d.makeAny(db, kinds[v.Choice("kind", 5)], "k")
	d.makeAny(db, kinds[v.Choice("okind", 5)], "o")
	if v.Choice("expired", 2) == 1 {
		hDo(db, "expire", "k", "10")
		v.SetClock(clock0 + 100)
	}
	c := pickRow()
	hRun(db, c...)
	hRun(db, c...)
	released(db, "k", "o")
	v.Reach("end")
}
