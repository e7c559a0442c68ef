package main

import (
	"strings"

	"gRedis/resp"
	v "gRedis/zzverif"
)

// ---- linearizability of two concurrent commands ----

// setup runs the same preparation on a fresh database.
type prep struct {
	cmds  [][][]byte
	clock int64 // the clock while the commands run
	seg   int
}

func (p *prep) db() hdb {
	db := hDB(p.seg)
	for _, c := range p.cmds {
		r := hRun(db, dup(c)...)
		v.Assume(!isErr(r))
	}
	v.SetClock(p.clock)
	return db
}

func dup(c [][]byte) [][]byte {
	n := make([][]byte, len(c))
	for i := range c {
		n[i] = hCopy(c[i])
	}
	return n
}

// outcome of running a and c one after the other.
func (p *prep) serial(a, c [][]byte, keys []string) (resp.RedisData, resp.RedisData, []string) {
	db := p.db()
	ra := hRun(db, dup(a)...)
	rc := hRun(db, dup(c)...)
	return ra, rc, all(db, keys)
}

func all(db hdb, keys []string) []string {
	var l []string
	for _, k := range keys {
		l = append(l, observe(db, b(k))...)
		l = append(l, "|")
	}
	return l
}

// pair runs a and c concurrently in every interleaving and requires the replies
// and the final state of one of the two orders.
func (p *prep) pair(a, c [][]byte, keys []string) {
	a1, c1, s1 := p.serial(a, c, keys)
	c2, a2, s2 := p.serial(c, a, keys)
	db := p.db()
	var ra, rc resp.RedisData
	xa, xc := dup(a), dup(c)
	v.Par(0, func() { ra = hRun(db, xa...) }, func() { rc = hRun(db, xc...) })
	st := all(db, keys)
	na, nc := string(a[0]), string(c[0])
	first := v.And(sameAnswer(na, ra, a1), v.And(sameAnswer(nc, rc, c1), sameObs(st, s1)))
	second := v.And(sameAnswer(na, ra, a2), v.And(sameAnswer(nc, rc, c2), sameObs(st, s2)))
	v.Assert(v.Or(first, second), "atomic:"+string(a[0])+"|"+string(c[0]))
	v.Reach("end")
}

// sameAnswer: as sameReply, but the elements of an enumeration come in any order.
func sameAnswer(name string, x, y resp.RedisData) bool {
	switch name {
	case "hkeys", "hvals", "smembers", "sdiff", "sinter", "sunion", "keys":
	default:
		return sameReply(x, y)
	}
	a, ok1 := arr(x)
	c, ok2 := arr(y)
	if !ok1 || !ok2 || len(a) != len(c) {
		return sameReply(x, y)
	}
	eq := true
	for i := range a {
		e, ok := bulkOf(a[i])
		if !ok {
			return sameReply(x, y)
		}
		na, nc := int64(0), int64(0)
		for j := range a {
			na += v.Ite(isBulk(a[j], e), 1, 0)
			nc += v.Ite(isBulk(c[j], e), 1, 0)
		}
		eq = v.And(eq, na == nc)
	}
	return eq
}

func lines(s string) []string { return strings.Split(strings.TrimSpace(s), "\n") }

// filled replaces # by a symbolic integer and % by a symbolic byte.
func filled(row string) [][]byte {
	c := fields(row)
	for i := range c {
		switch string(c[i]) {
		case "#":
			n := v.Int64("n")
			v.Assume(v.And(n >= 20, n < 50))
			c[i] = b(hItoa(n))
		case "%":
			c[i] = v.Bytes("x", 1)
		}
	}
	return c
}

// two picks of the same list, unordered.
func pickTwo(l []string) ([][]byte, [][]byte) {
	i := v.Choice("a", len(l))
	j := i + v.Choice("b", len(l)-i)
	return filled(l[i]), filled(l[j])
}

// state: k is missing, live, or has a deadline and the clock is anywhere around it.
func state(create ...string) *prep {
	p := &prep{clock: clock0, seg: 2}
	s := v.Choice("state", 3)
	if s == 0 {
		return p
	}
	for _, c := range create {
		p.cmds = append(p.cmds, filled(c))
	}
	if s == 2 {
		p.cmds = append(p.cmds, fields("expire k 10"))
		p.clock = v.Int64("now")
		v.Assume(v.And(p.clock >= clock0, p.clock <= clock0+20))
	}
	return p
}

var ko = []string{"k", "o"}

// kindFor is the kind of key a command is for.
func kindFor(row string) byte {
	name := row[:strings.IndexByte(row, ' ')]
	if k := typed[name]; k != 0 {
		return k
	}
	if name[0] == 's' && len(name) > 6 {
		return 't'
	}
	return 's'
}

func twoNamed(c [][]byte) bool {
	k, o := false, false
	for _, x := range c[1:] {
		k = k || string(x) == "k"
		o = o || string(x) == "o"
	}
	return k && o
}

// every command of the table against every other, itself and against the basic writers of
// the key's type, around the key's deadline.
func H_C15_table() {
	first := v.Choice("a", len(table))
	a := fields(table[first])
	kind := kindFor(table[first])
	var make string
	var w []string
	switch kind {
	case 's':
		make, w = "set k 5", []string{"set k 8", "incr k", "append k 1", "del k", "setnx k 3", "mset k 4 o 5", "rename k o", "expire k 40", "persist k", "set o 9", "lpush k 1"}
	case 'l':
		make, w = "rpush k a b", []string{"rpush k c", "lpop k", "lset k 0 w", "del k", "set k 1", "lmove k o left right", "rename k o", "linsert k after a q", "lrem k 0 b", "rpush o z", "persist k"}
	case 'h':
		make, w = "hset k f 1", []string{"hset k f 2", "hset k g 5", "hdel k f", "hincrby k f 1", "del k", "hsetnx k g 6", "hmset k f 7 g 8", "set k 1", "persist k"}
	case 't':
		make, w = "sadd k a", []string{"sadd k b", "srem k a", "sadd o a", "smove k o a", "del k", "sunionstore k o", "sdiffstore o k", "set o 1", "set k 1", "persist k", "sadd o b c"}
	}
	w = append(w, "")
	for j, r := range table {
		// pairs needing the same kind of key once; of the others, half
		if k := kindFor(r); k == kind && j >= first || k != kind && (v.Tier() > 0 || (j+first)%2 == 0) {
			w = append(w, r)
		}
	}
	i := v.Choice("b", len(w))
	c := dup(a)
	switch strings.Fields(w[i] + " .")[0] {
	case "spop", "srandmember", "hrandfield":
		v.Assume(false) // random replies: H_C15_pop
	}
	if w[i] != "" {
		c = fields(w[i])
	}
	// KEYS may see part of what a command on several keys does
	v.Assume(!(string(a[0]) == "keys" && twoNamed(c)) && !(string(c[0]) == "keys" && twoNamed(a)))
	p := &prep{clock: v.Int64("now"), seg: 2}
	v.Assume(v.And(p.clock >= clock0, p.clock <= clock0+20))
	switch string(a[0]) {
	case "spop", "srandmember", "hrandfield":
		make = "" // random replies: H_C15_pop
	}
	if make != "" {
		p.cmds = [][][]byte{fields(make), fields("expire k 10")}
	}
	p.pair(a, c, ko)
}

func H_C15_strings() {
	a, c := pickTwo(lines(`
set k %
set k % nx
set k % xx
set k % get
set k 5 keepttl
setnx k %
get k
append k %
incr k
incrby k #
decr k
decrby k #
setrange k 1 %
strlen k
setex k 60 %
mset k % o %
mget k o
getrange k 0 -1`))
	p := state("set k #")
	p.pair(a, c, ko)
}

func H_C15_keys() {
	a, c := pickTwo(lines(`
del k
del k o
exists k o
type k
expire k 50
expire k 60 nx
persist k
ttl k
rename k o
rename o k
set k 1
get k
mset k 1 o 2
mget k o
incr k
setnx k 3
rpush k 1
sadd k 1`))
	p := state("set k 5")
	if v.Choice("other", 2) == 1 {
		p.cmds = append(p.cmds, fields("set o 7"))
	}
	p.pair(a, c, ko)
}

func H_C15_lists() {
	a, c := pickTwo(lines(`
lpush k %
rpush k % 3
lpushx k %
rpushx k %
lpop k
rpop k 2
llen k
lindex k 0
lrange k 0 -1
linsert k before b %
lset k 0 %
lrem k 0 %
ltrim k 1 1
lmove k o left right
lmove o k right left
lmove k k left right
lpos k %
del k
get k
rename k o`))
	p := state("rpush k % b")
	if v.Choice("other", 2) == 1 {
		p.cmds = append(p.cmds, fields("rpush o c"))
	}
	p.pair(a, c, ko)
}

func H_C15_hashes() {
	a, c := pickTwo(lines(`
hset k f %
hset k f % g %
hmset k g %
hsetnx k f %
hdel k f
hdel k f g
hget k f
hmget k f g
hexists k g
hlen k
hstrlen k f
hincrby k f #
hkeys k
del k
get k
expire k 30`))
	p := state("hset k f #")
	p.pair(a, c, []string{"k"})
}

func H_C15_sets() {
	a, c := pickTwo(lines(`
sadd k a
sadd k b c
srem k a
srem k a b
scard k
sismember k a
smove k o a
smove o k b
sdiff k o
sinter k o
sunion k o
sdiffstore k k o
sinterstore o k
sunionstore k o
sunionstore d k o
del k
sadd o a`))
	p := state("sadd k a")
	if v.Choice("other", 2) == 1 {
		p.cmds = append(p.cmds, fields("sadd o b"))
	}
	p.pair(a, c, []string{"k", "o", "d"})
}

func H_C15_floats() {
	a, c := pickTwo(lines(`
incrbyfloat k 1.5
incrbyfloat k 2
incr k
set k 9
append k 1
hincrbyfloat k f 1.5
hincrbyfloat k f 2
hset k f 9
hget k f
get k`))
	if v.Choice("hash", 2) == 1 {
		state("hset k f 3").pair(a, c, []string{"k"})
	} else {
		state("set k 3").pair(a, c, []string{"k"})
	}
}

// one command against a client issuing two commands in a row: the outcome is
// that of inserting the one before, between or after the two.
func (p *prep) amid(a, c1, c2 [][]byte, keys []string) {
	var ra, r1, r2 [3]resp.RedisData
	var st [3][]string
	for i := 0; i < 3; i++ {
		db := p.db()
		if i == 0 {
			ra[i] = hRun(db, dup(a)...)
		}
		r1[i] = hRun(db, dup(c1)...)
		if i == 1 {
			ra[i] = hRun(db, dup(a)...)
		}
		r2[i] = hRun(db, dup(c2)...)
		if i == 2 {
			ra[i] = hRun(db, dup(a)...)
		}
		st[i] = all(db, keys)
	}
	db := p.db()
	var xa, x1, x2 resp.RedisData
	ca, cc1, cc2 := dup(a), dup(c1), dup(c2)
	v.Par(0, func() { xa = hRun(db, ca...) }, func() { x1 = hRun(db, cc1...); x2 = hRun(db, cc2...) })
	s := all(db, keys)
	ok := false
	for i := 0; i < 3; i++ {
		ok = v.Or(ok, v.And(v.And(sameReply(xa, ra[i]), sameReply(x1, r1[i])), v.And(sameReply(x2, r2[i]), sameObs(s, st[i]))))
	}
	v.Assert(ok, "atomic-amid:"+string(a[0])+"|"+string(c1[0])+","+string(c2[0]))
	v.Reach("end")
}

// multi-key commands are all-or-nothing to a client reading or writing the keys
// one after the other.
func H_C15_multikey() {
	var a [][]byte
	var c []string
	p := &prep{clock: clock0, seg: 1 + v.Choice("seg", 2)*6}
	switch v.Choice("type", 3) {
	case 0:
		a = filled([]string{"mset k % o %", "mget k o", "del k o", "del o k", "exists k o", "rename k o", "rename o k"}[v.Choice("a", 7)])
		c = []string{"get k", "get o", "set k %", "set o %", "del k", "del o", "exists k", "setnx o %"}
		p.cmds = [][][]byte{filled("set k %"), filled("set o %")}
	case 1:
		a = filled([]string{"lmove k o left right", "lmove o k right left", "rename k o", "del k o"}[v.Choice("a", 4)])
		c = []string{"lrange k 0 -1", "lrange o 0 -1", "rpush k %", "lpop o", "llen k", "llen o", "lpush o %"}
		p.cmds = [][][]byte{filled("rpush k %")}
		if v.Choice("other", 2) == 1 {
			p.cmds = append(p.cmds, filled("rpush o %"))
		}
	case 2:
		a = fields([]string{"smove k o a", "sdiff k o", "sinter k o", "sunion k o", "sdiffstore k k o", "sinterstore o k o", "sunionstore k k o", "sunionstore d k o"}[v.Choice("a", 8)])
		c = []string{"sismember k a", "sismember o a", "sadd k b", "srem o b", "sadd o a", "srem k a", "scard k", "scard o"}
		p.cmds = [][][]byte{fields("sadd k a b")}
		if v.Choice("other", 2) == 1 {
			p.cmds = append(p.cmds, fields("sadd o b"))
		}
	}
	c1, c2 := filled(c[v.Choice("c1", len(c))]), filled(c[v.Choice("c2", len(c))])
	p.amid(a, c1, c2, []string{"k", "o", "d"})
}

// read-modify-write commands against a client issuing two commands on the key.
func H_C15_rmw() {
	var a, c []string
	filled := filled
	if v.Tier() == 0 {
		n := 0
		filled = func(row string) [][]byte {
			n++
			return fields(strings.NewReplacer("#", []string{"", "33", "47", "21"}[n], "%", []string{"", "q", "r", "s"}[n]).Replace(row))
		}
	}
	p := &prep{clock: clock0, seg: 1}
	switch v.Choice("type", 4) {
	case 0:
		a = []string{"incrby k #", "append k %", "setnx k %", "set k % xx", "set k % nx", "setrange k 0 %", "set k % get", "persist k", "expire k 50 nx"}
		c = []string{"set k #", "del k", "get k", "incr k", "append k %", "setex k 30 %", "setnx k %"}
		p = state("set k #")
	case 1:
		a = []string{"rpush k %", "lpop k", "linsert k after b %", "lset k -1 %", "lrem k 1 %", "ltrim k 0 0", "rpushx k %"}
		c = []string{"lpop k", "rpush k %", "del k", "lrange k 0 -1", "lpush k %", "rpop k", "lset k 0 %"}
		p = state("rpush k % b")
	case 2:
		a = []string{"hset k g %", "hdel k f", "hincrby k f #", "hsetnx k f %", "hmset k f % g %", "hmget k f g"}
		c = []string{"hset k f #", "hdel k f", "del k", "hget k f", "hsetnx k g %", "hincrby k f #"}
		p = state("hset k f #")
	case 3:
		a = []string{"sadd k a", "srem k a", "smove k o a", "scard k"}
		c = []string{"sadd k a", "srem k a", "sadd k b", "del k", "scard k", "sismember k a"}
		p = state("sadd k a")
	}
	x := filled(a[v.Choice("a", len(a))])
	c1, c2 := filled(c[v.Choice("c1", len(c))]), filled(c[v.Choice("c2", len(c))])
	p.amid(x, c1, c2, ko)
}

// two poppers never get the same member, and nothing is lost.
func H_C15_pop() {
	p := &prep{clock: clock0, seg: 1, cmds: [][][]byte{fields("sadd k a b")}}
	db := p.db()
	var ra, rc resp.RedisData
	other := v.Choice("other", 4)
	v.Par(0,
		func() { ra = hRun(db, b("spop"), b("k")) },
		func() {
			switch other {
			case 0:
				rc = hRun(db, b("spop"), b("k"))
			case 1:
				rc = hRun(db, b("spop"), b("k"), b("1"))
			case 2:
				rc = hRun(db, b("srem"), b("k"), b("a"))
			case 3:
				rc = hRun(db, b("sadd"), b("k"), b("c"))
			}
		})
	x, ok := bulkOf(ra)
	v.Assert(ok, "popped")
	left := hDo(db, "scard", "k")
	v.Assert(isInt(hRun(db, b("sismember"), b("k"), x), 0), "popped-member-removed")
	switch other {
	case 0:
		y, ok := bulkOf(rc)
		v.Assert(ok && !bEq(x, y), "popped-twice")
		v.Assert(isInt(left, 0), "both-gone")
	case 1:
		e, ok := arr(rc)
		v.Assert(ok && len(e) == 1 && !isBulk(e[0], x), "popped-twice")
		v.Assert(isInt(left, 0), "both-gone")
	case 2:
		if bEq(x, b("a")) && isInt(rc, 0) {
			v.Assert(isInt(left, 1), "one-gone")
		} else {
			v.Assert(isInt(rc, 1), "removed")
			v.Assert(isInt(left, 0), "both-gone")
		}
	case 3:
		v.Assert(isInt(rc, 1), "added")
		v.Assert(isInt(left, 2), "two-left")
	}
	v.Reach("end")
}

// three clients at once.
func H_C15_three() {
	rows := lines(`
incr k
set k 10
setnx k 20
append k 1
del k
get k
mset k 5 o 6
rename k o`)
	p := state("set k 3")
	var cmd [3][][]byte
	lo := 0
	for i := range cmd { // unordered
		lo += v.Choice("c", len(rows)-lo)
		cmd[i] = fields(rows[lo])
	}
	perms := [6][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	db := p.db()
	var r [3]resp.RedisData
	v.Par(0, func() { r[0] = hRun(db, dup(cmd[0])...) }, func() { r[1] = hRun(db, dup(cmd[1])...) }, func() { r[2] = hRun(db, dup(cmd[2])...) })
	st := all(db, ko)
	ok := false
	for _, o := range perms {
		d := p.db()
		var q [3]resp.RedisData
		for _, i := range o {
			q[i] = hRun(d, dup(cmd[i])...)
		}
		eq := sameObs(st, all(d, ko))
		for i := range q {
			eq = v.And(eq, sameReply(r[i], q[i]))
		}
		ok = v.Or(ok, eq)
	}
	v.Assert(ok, "atomic-three")
	v.Reach("end")
}

// commands naming many keys, against each other and against single-key commands.
func H_C15_wide() {
	keys := []string{"p", "q", "r", "s", "t"}
	p := &prep{clock: clock0, seg: []int{16, 1, 2}[v.Choice("segments", 2+v.Tier())]}
	var a, c [][]byte
	if v.Choice("sets", 2) == 0 {
		if v.Choice("there", 2) == 1 {
			p.cmds = append(p.cmds, fields("mset p 0 q 0 r 0 s 0 t 0"))
		}
		l := lines(`mset p 1 q 2 r 3
mset t 9 r 8 p 7 q 6 s 5
del p q r
del t s r q p
mget p q r
mget t s r q p
exists p q r s t
rename q r
append r x
set t z
incr p`)
		i := v.Choice("a", 6)
		a = filled(l[i])
		c = filled(l[i+v.Choice("b", len(l)-i)])
	} else {
		p.cmds = append(p.cmds, fields("sadd p 1 2 3"), fields("sadd q 2 3 4"), fields("sadd r 3 4 5"), fields("sadd t 9"))
		l := lines(`sunionstore t p q r
sinterstore t p q r s
sdiffstore p p q r
smove p r 1
sunion p q r t
sinter r q p
sdiff t r p q
del r p q
sadd q 1
srem r 3
scard t`)
		i := v.Choice("a", 7)
		a = filled(l[i])
		c = filled(l[i+v.Choice("b", len(l)-i)])
	}
	p.pair(a, c, keys)
}

// a command of three keys against one that writes two of them.
func H_C15_part() {
	keys := []string{"p", "q", "r"}
	p := &prep{clock: clock0, seg: []int{16, 1, 2}[v.Choice("segments", 1+2*v.Tier())]}
	two := [][]string{{"q", "r"}, {"r", "p"}, {"p", "q"}}[v.Choice("two", 3)]
	var a, c [][]byte
	if v.Choice("sets", 2) == 0 {
		if v.Choice("there", 2) == 1 {
			p.cmds = append(p.cmds, fields("mset "+two[0]+" 1 "+two[1]+" 2"))
		} else {
			p.cmds = append(p.cmds, fields("set "+two[0]+" 1"))
		}
		a = filled(lines(`exists p q r
mget p q r
del p q r
mset p 7 q 7 r 7`)[v.Choice("a", 4)])
		c = filled(lines(`mset A 5 B 6
del A B
rename A B
mget A B
exists B A`)[v.Choice("b", 5)])
	} else {
		p.cmds = append(p.cmds, fields("sadd p 1 2"), fields("sadd q 1 2"), fields("sadd r 1 2 3"))
		a = filled(lines(`sinter p q r
sunion p q r
sdiff r p q
sinterstore p q r
sunionstore r p q
sdiffstore q r p`)[v.Choice("a", 6)])
		c = filled(lines(`smove A B 1
del A B
sinter A B
sdiffstore A B A`)[v.Choice("b", 4)])
	}
	for i := range c {
		switch string(c[i]) {
		case "A":
			c[i] = b(two[0])
		case "B":
			c[i] = b(two[1])
		}
	}
	p.pair(a, c, keys)
}

// deadlines already past when they are set: the key is gone at once, for every
// observer.
func H_C15_past() {
	l := lines(`set k 1 exat 1
set k 1 pxat 1500
set k 1 get exat 1
set k 1 xx exat 1
expire k -5
expire k -5 lt
keys *
keys k
get k
exists k
type k
ttl k
append k x
set k 2
set k 2 nx
setnx k 3
incr k
persist k
mget k o
rename k o
rpush k 1
setrange k 1 z`)
	i := v.Choice("a", 8)
	a := filled(l[i])
	c := filled(l[i+v.Choice("b", len(l)-i)])
	v.Assume(string(a[0]) != "keys" || !twoNamed(c))
	p := state("set k 5")
	p.pair(a, c, ko)
}
