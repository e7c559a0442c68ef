package main

import (
	"strings"

	"gRedis/resp"
	v "gRedis/zzverif"
)

// every data command, with valid arguments, on key k (o is another key).
var table = strings.Split(strings.TrimSpace(`
set k new
set k new nx
set k new XX
set k new get
set k new keepttl
set k new ex 50
set k new px 50000
set k new nx keepttl
get k
getrange k 0 -1
setrange k 1 Z
mget k o
mset k 1 o 2
mset o 1 k 2
setex k 60 new
setnx k new
strlen k
incr k
incrby k 5
decr k
decrby k 5
incrbyfloat k 1.5
append k tail
del k
del o k
exists k
exists k o k
keys *
keys k
expire k 70
expire k 70 nx
expire k 70 xx
expire k 70 gt
expire k 5 lt
persist k
ttl k
rename k o
rename o k
rename k k
type k
lindex k 0
lindex k -1
linsert k before a z
llen k
lmove k o left right
lmove o k right left
lmove k k left right
lpop k
lpop k 2
lpos k a
lpos k a count 0
lpush k x
lpushx k x
lrange k 0 -1
lrem k 0 a
lset k 0 q
ltrim k 0 0
ltrim k 5 1
rpop k
rpop k 9
rpush k x y
rpushx k x
hdel k f
hdel k f g
hexists k f
hget k f
hgetall k
hincrby k f 3
hincrbyfloat k f 3
hkeys k
hlen k
hmget k f g
hmset k f 9
hset k f 9 n 1
hsetnx k f 9
hsetnx k n 9
hvals k
hstrlen k g
hrandfield k
hrandfield k 1
hrandfield k -2
sadd k a z
scard k
sdiff k o
sdiff o k
sdiffstore k o
sdiffstore o k
sdiffstore k k o
sinter k o
sinter o k
sinterstore k o
sinterstore o k o
sunion k o
sunion o k
sunionstore k o
sunionstore o k
sunionstore k k
sismember k a
smembers k
smove k o a
smove o k z
spop k
spop k 2
srandmember k
srandmember k -2
srem k a
srem k a b
`), "\n")

// other gives the second key the type the command can use (or any type).
func other(d *rdb, db hdb) {
	switch v.Choice("other", 4) {
	case 1:
		d.make(db, 's', "o", b("5"))
	case 2:
		d.make(db, 'l', "o", b("p"))
	case 3:
		d.make(db, 't', "o", b("z"), b("a"))
	}
}

func fields(s string) [][]byte {
	var r [][]byte
	for _, w := range strings.Fields(s) {
		r = append(r, []byte(w))
	}
	return r
}

func row(n string) []byte { return []byte(n) }

func pickRow() [][]byte { return fields(table[v.Choice("row", len(table))]) }

// a key with a deadline and a clock before, at or after it: before it every
// command sees the key, after it none does.
func H_C11_deadline() {
	db := hDB(2)
	d := newRef("k", "o")
	d.makeAny(db, kinds[1+v.Choice("kind", 4)], "k")
	d.stepS(db, "setup", "expire", "k", "10")
	c := pickRow()
	switch string(c[0]) {
	case "mget", "rename", "lmove", "sdiff", "sdiffstore", "sinter", "sinterstore", "sunion", "sunionstore", "smove", "exists", "del", "mset":
		other(d, db)
	}
	now := v.Int64("now")
	v.Assume(v.And(now >= clock0, now <= clock0+20))
	d.now = now
	v.SetClock(now)
	d.step(db, "reply", c...)
	d.verify(db, "after")
	// nothing of the old key comes back later
	later := v.Int64("later")
	v.Assume(v.And(later >= now, later <= clock0+100))
	d.now = later
	v.SetClock(later)
	d.verify(db, "later")
	v.Reach("end")
}

// EXPIRE with every option and any number of seconds.
func H_C11_expire() {
	db := hDB(2)
	d := newRef("k")
	d.makeAny(db, kinds[v.Choice("kind", 5)], "k")
	if d.o["k"] != nil && v.Choice("ttl", 2) == 1 {
		d.stepS(db, "setup", "expire", "k", "50")
	}
	c := [][]byte{b("expire"), b("k"), b(hItoa(v.Int64("seconds")))}
	o := v.Choice("option", 6)
	if o > 0 {
		c = append(c, b([]string{"nx", "XX", "gt", "LT", "zz"}[o-1]))
	}
	v.Assume(v.Or(o != 5, d.o["k"] != nil))
	d.step(db, "reply", c...)
	d.verify(db, "after")
	if v.Choice("persist", 2) == 1 {
		d.stepS(db, "reply", "persist", "k")
		d.verify(db, "persisted")
	}
	later := v.Int64("later")
	v.Assume(v.And(later >= clock0, later <= clock0+1000))
	d.now = later
	v.SetClock(later)
	d.verify(db, "later")
	v.Reach("end")
}

// deadlines given to SET and SETEX.
func H_C11_set() {
	db := hDB(2)
	d := newRef("k")
	d.makeAny(db, kinds[v.Choice("kind", 3)], "k")
	if d.o["k"] != nil && v.Choice("ttl", 2) == 1 {
		d.stepS(db, "setup", "expire", "k", "50")
	}
	n := b(hItoa(v.Int64("n")))
	switch v.Choice("cmd", 6) {
	case 0:
		d.step(db, "reply", b("setex"), b("k"), n, b("x"))
	case 1:
		d.step(db, "reply", b("set"), b("k"), b("x"), b("ex"), n)
	case 2:
		d.step(db, "reply", b("set"), b("k"), b("x"), b("PX"), n)
	case 3:
		d.step(db, "reply", b("set"), b("k"), b("x"), b("exat"), n)
	case 4:
		d.step(db, "reply", b("set"), b("k"), b("x"), b("PXAT"), n)
	case 5:
		d.step(db, "reply", b("set"), b("k"), b("x"), b("keepttl"))
	}
	if o := d.o["k"]; o != nil {
		v.Assume(o.slack == 0) // deadlines with a fraction of a second: C05
	}
	d.verify(db, "after")
	later := v.Int64("later")
	v.Assume(v.And(later >= clock0, later <= clock0+1000))
	d.now = later
	v.SetClock(later)
	d.verify(db, "later")
	v.Reach("end")
}

// a lifetime: writes, renames, expiry and rebirth.
func H_C11_history() {
	db := hDB(1)
	d := newRef("k", "o")
	n := 4 + v.Tier()
	for i := 0; i < n; i++ {
		switch v.Choice("cmd", 9) {
		case 0:
			d.stepS(db, "reply", "set", "k", "1")
		case 1:
			d.stepS(db, "reply", "setex", "k", "10", "1")
		case 2:
			d.stepS(db, "reply", "expire", "k", "10")
		case 3:
			d.stepS(db, "reply", "rename", "k", "o")
		case 4:
			d.stepS(db, "reply", "rename", "o", "k")
		case 5:
			tick(d, 11)
		case 6:
			d.stepS(db, "reply", "append", "k", "2")
		case 7:
			d.stepS(db, "reply", "persist", "k")
		case 8:
			d.stepS(db, "reply", "del", "k")
		}
	}
	d.verify(db, "after")
	tick(d, 11)
	d.verify(db, "later")
	v.Reach("end")
}

// the second changes while a command runs: the outcome is that of the command
// in the old second or in the new one.
func H_C11_tick() {
	c := pickRow()
	kind := v.Choice("kind", 4)
	var also [][]byte
	switch v.Choice("other", 4) {
	case 1:
		also = fields("set o 5")
	case 2:
		also = fields("rpush o p")
	case 3:
		also = fields("sadd o z a")
	}
	switch string(c[0]) {
	case "spop", "srandmember", "hrandfield":
		v.Assume(kind != 2 && kind != 3) // random replies
	case "mget", "rename", "lmove", "sdiff", "sdiffstore", "sinter", "sinterstore", "sunion", "sunionstore", "smove":
	default:
		v.Assume(also == nil)
	}
	left := int64(v.Choice("left", 2)) // the key's last second, or the one before
	run := func(at int64, tick int) (resp.RedisData, []string) {
		db := hDB(2)
		create(db, kind, b("k"))
		if also != nil {
			hRun(db, dup(also)...)
		}
		hRun(db, b("expire"), b("k"), b("10"))
		v.SetClock(at)
		v.TickAt(tick)
		r := hRun(db, dup(c)...)
		v.TickAt(0)
		v.SetClock(clock0 + 11 - left)
		return r, all(db, ko)
	}
	t := clock0 + 10 - left
	r0, s0 := run(t, 0)
	r1, s1 := run(t+1, 0)
	r, s := run(t, 1+v.Choice("tick", 6))
	n := string(c[0])
	v.Assert(v.Or(v.And(sameAnswer(n, r, r0), sameObs(s, s0)), v.And(sameAnswer(n, r, r1), sameObs(s, s1))), "tick:"+n)
	v.Reach("end")
}

// any two commands of the table with the clock moving in between.
func H_C11_pairs() {
	db := hDB(2)
	d := newRef("k", "o")
	c := pickRow()
	kind := typed[string(c[0])]
	if kind == 0 {
		kind = 's'
	}
	d.makeAny(db, kind, "k")
	d.stepS(db, "setup", "expire", "k", "10")
	d.step(db, "first", c...)
	now := v.Int64("now")
	v.Assume(v.And(now >= clock0, now <= clock0+100))
	d.now = now
	v.SetClock(now)
	d.step(db, "second", pickRow()...)
	d.verify(db, "after")
	v.Reach("end")
}
