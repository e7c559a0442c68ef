package main

import (
	"math"
	"strconv"
	"strings"

	"gRedis/resp"
	v "gRedis/zzverif"
)

// ---- the reference: Redis semantics over plain slices ----

type robj struct {
	typ   byte // s string, l list, h hash, t set
	s     []byte
	l     [][]byte
	f, w  [][]byte // hash: fields and values
	m     [][]byte // set: members
	ttl   bool
	dead  int64 // last second the key is alive
	slack int64 // deadlines given in milliseconds may be rounded up
}

type rdb struct {
	o   map[string]*robj
	now int64
	all []string // the keys a harness may touch

	roomy bool // offsets may be large
}

func newRef(keys ...string) *rdb {
	return &rdb{o: map[string]*robj{}, now: clock0, all: keys}
}

// rep is an expected reply.
type rep struct {
	k byte // e error, i int, b bulk, n nil, + simple, a array, u unordered bulks, p unordered pairs, m multiset of bulks
	n int64
	b []byte
	a []rep
	l [][]byte
}

func rErr() rep             { return rep{k: 'e'} }
func rInt(n int64) rep      { return rep{k: 'i', n: n} }
func rBulk(b []byte) rep    { return rep{k: 'b', b: b} }
func rNil() rep             { return rep{k: 'n'} }
func rStr(s string) rep     { return rep{k: '+', b: []byte(s)} }
func rOK() rep              { return rStr("OK") }
func rArr(a []rep) rep      { return rep{k: 'a', a: a} }
func rBulks(l [][]byte) rep { return rep{k: 'l', l: l} }
func rSet(l [][]byte) rep   { return rep{k: 'u', l: l} }
func rMulti(l [][]byte) rep { return rep{k: 'm', l: l} }

func match(r resp.RedisData, w rep) bool {
	switch w.k {
	case 'e':
		return isErr(r)
	case 'i':
		return isInt(r, w.n)
	case 'b':
		return isBulk(r, w.b)
	case 'n':
		return isNil(r)
	case '+':
		s, ok := r.(*resp.SimpleString)
		return ok && s.GetData() == string(w.b)
	case 'a':
		e, ok := arr(r)
		if !ok || len(e) != len(w.a) {
			return false
		}
		eq := true
		for i := range e {
			eq = v.And(eq, match(e[i], w.a[i]))
		}
		return eq
	case 'l':
		return isBulks(r, w.l)
	case 'u', 'm', 'p':
		e, ok := arr(r)
		if !ok || len(e) != len(w.l) {
			return false
		}
		bs := make([][]byte, len(e))
		for i := range e {
			b, ok := bulkOf(e[i])
			if !ok {
				return false
			}
			bs[i] = b
		}
		switch w.k {
		case 'u':
			return sameSet(bs, w.l)
		case 'm':
			return sameMulti(bs, w.l)
		}
		return samePairs(bs, w.l)
	}
	return false
}

// sameSet: got is a permutation of want, whose elements are distinct.
func sameSet(got, want [][]byte) bool {
	if len(got) != len(want) {
		return false
	}
	all := true
	for _, x := range want {
		any := false
		for _, y := range got {
			any = v.Or(any, bEq(x, y))
		}
		all = v.And(all, any)
	}
	return all
}

func sameMulti(got, want [][]byte) bool {
	all := true
	for _, x := range want {
		var a, b int64
		for _, y := range got {
			a += v.Ite(bEq(x, y), 1, 0)
		}
		for _, y := range want {
			b += v.Ite(bEq(x, y), 1, 0)
		}
		all = v.And(all, a == b)
	}
	return all
}

func samePairs(got, want [][]byte) bool {
	if len(got)%2 != 0 {
		return false
	}
	all := true
	for i := 0; i < len(want); i += 2 {
		any := false
		for j := 0; j < len(got); j += 2 {
			any = v.Or(any, v.And(bEq(want[i], got[j]), bEq(want[i+1], got[j+1])))
		}
		all = v.And(all, any)
	}
	return all
}

func idx(l [][]byte, x []byte) int {
	for i := range l {
		if bEq(l[i], x) {
			return i
		}
	}
	return -1
}

func without(l [][]byte, i int) [][]byte {
	r := make([][]byte, 0, len(l))
	r = append(r, l[:i]...)
	return append(r, l[i+1:]...)
}

func (d *rdb) purge() {
	for _, k := range d.all {
		if o := d.o[k]; o != nil && o.ttl && d.now > o.dead {
			delete(d.o, k)
		}
	}
}

// get returns the live object of key; ok is false when it has another type.
func (d *rdb) get(k string, typ byte) (*robj, bool) {
	o := d.o[k]
	if o == nil {
		return nil, true
	}
	return o, o.typ == typ
}

func (d *rdb) put(k string, o *robj) { d.o[k] = o }

func (d *rdb) drop(k string) {
	o := d.o[k]
	if o == nil {
		return
	}
	if (o.typ == 'l' && len(o.l) == 0) || (o.typ == 'h' && len(o.f) == 0) || (o.typ == 't' && len(o.m) == 0) {
		delete(d.o, k)
	}
}

func num(b []byte) (int64, bool) {
	n, err := strconv.ParseInt(string(b), 10, 64)
	return n, err == nil
}

func word(b []byte) string { return strings.ToLower(string(b)) }

func (d *rdb) deadline(o *robj, k string, at int64) {
	if d.now > at {
		delete(d.o, k)
		return
	}
	o.ttl, o.dead, o.slack = true, at, 0
}

// do applies a command (args[0] lower case) and returns the documented reply.
// Random commands are handled by step.
func (d *rdb) do(c ...[]byte) rep {
	d.purge()
	n := len(c)
	name := string(c[0])
	switch name {
	case "ping":
		if n > 2 {
			return rErr()
		}
		if n == 1 {
			return rStr("PONG")
		}
		return rBulk(c[1])
	case "del", "exists":
		if n < 2 {
			return rErr()
		}
		cnt := int64(0)
		for _, k := range c[1:] {
			if d.o[string(k)] != nil {
				cnt++
				if name == "del" {
					delete(d.o, string(k))
				}
			}
		}
		return rInt(cnt)
	case "keys":
		if n != 2 {
			return rErr()
		}
		l := [][]byte{}
		for _, k := range d.all {
			if d.o[k] != nil && glob(c[1], []byte(k)) {
				l = append(l, []byte(k))
			}
		}
		return rSet(l)
	case "expire":
		return d.expire(c)
	case "persist":
		if n != 2 {
			return rErr()
		}
		o := d.o[string(c[1])]
		if o == nil || !o.ttl {
			return rInt(0)
		}
		o.ttl = false
		return rInt(1)
	case "ttl":
		if n != 2 {
			return rErr()
		}
		o := d.o[string(c[1])]
		if o == nil {
			return rInt(-2)
		}
		if !o.ttl {
			return rInt(-1)
		}
		return rInt(o.dead - d.now)
	case "rename":
		if n != 3 {
			return rErr()
		}
		o := d.o[string(c[1])]
		if o == nil {
			return rErr()
		}
		delete(d.o, string(c[1]))
		d.o[string(c[2])] = o
		return rOK()
	case "type":
		if n != 2 {
			return rErr()
		}
		return rStr(d.typeOf(string(c[1])))
	}
	switch name[0] {
	case 'l', 'r':
		return d.list(name, c)
	case 'h':
		return d.hash(name, c)
	}
	switch name {
	case "sadd", "srem", "scard", "sismember", "smembers", "smove", "sinter", "sunion", "sdiff", "sinterstore", "sunionstore", "sdiffstore":
		return d.set(name, c)
	}
	return d.str(name, c)
}

func (d *rdb) typeOf(k string) string {
	o := d.o[k]
	if o == nil {
		return "none"
	}
	switch o.typ {
	case 's':
		return "string"
	case 'l':
		return "list"
	case 'h':
		return "hash"
	}
	return "set"
}

func (d *rdb) expire(c [][]byte) rep {
	if len(c) < 3 || len(c) > 4 {
		return rErr()
	}
	s, ok := num(c[2])
	if !ok || s > math.MaxInt64-d.now {
		return rErr()
	}
	at := d.now + s
	opt := ""
	if len(c) == 4 {
		opt = word(c[3])
		if opt != "nx" && opt != "xx" && opt != "gt" && opt != "lt" {
			return rErr()
		}
	}
	k := string(c[1])
	o := d.o[k]
	if o == nil {
		return rInt(0)
	}
	do := true
	switch opt {
	case "nx":
		do = !o.ttl
	case "xx":
		do = o.ttl
	case "gt":
		do = o.ttl && at > o.dead
	case "lt":
		do = !o.ttl || at < o.dead
	}
	if !do {
		return rInt(0)
	}
	d.deadline(o, k, at)
	return rInt(1)
}

// ---- strings ----

func (d *rdb) str(name string, c [][]byte) rep {
	n := len(c)
	switch name {
	case "set":
		return d.setCmd(c)
	case "get":
		if n != 2 {
			return rErr()
		}
		o, ok := d.get(string(c[1]), 's')
		if !ok {
			return rErr()
		}
		if o == nil {
			return rNil()
		}
		return rBulk(o.s)
	case "mget":
		if n < 2 {
			return rErr()
		}
		l := make([][]byte, n-1)
		for i := 1; i < n; i++ {
			o, ok := d.get(string(c[i]), 's')
			if o != nil && ok {
				l[i-1] = o.s
			}
		}
		return rBulks(l)
	case "mset":
		if n < 3 || n%2 == 0 {
			return rErr()
		}
		for i := 1; i < n; i += 2 {
			d.put(string(c[i]), &robj{typ: 's', s: hCopy(c[i+1])})
		}
		return rOK()
	case "setnx":
		if n != 3 {
			return rErr()
		}
		if d.o[string(c[1])] != nil {
			return rInt(0)
		}
		d.put(string(c[1]), &robj{typ: 's', s: hCopy(c[2])})
		return rInt(1)
	case "setex":
		if n != 4 {
			return rErr()
		}
		s, ok := num(c[2])
		if !ok || s <= 0 || s > math.MaxInt64-d.now {
			return rErr()
		}
		o := &robj{typ: 's', s: hCopy(c[3])}
		d.put(string(c[1]), o)
		d.deadline(o, string(c[1]), d.now+s)
		return rOK()
	case "strlen":
		if n != 2 {
			return rErr()
		}
		o, ok := d.get(string(c[1]), 's')
		if !ok {
			return rErr()
		}
		if o == nil {
			return rInt(0)
		}
		return rInt(int64(len(o.s)))
	case "append":
		if n != 3 {
			return rErr()
		}
		o, ok := d.get(string(c[1]), 's')
		if !ok {
			return rErr()
		}
		if o == nil {
			d.put(string(c[1]), &robj{typ: 's', s: hCopy(c[2])})
			return rInt(int64(len(c[2])))
		}
		o.s = append(hCopy(o.s), c[2]...)
		return rInt(int64(len(o.s)))
	case "getrange":
		if n != 4 {
			return rErr()
		}
		a, ok1 := num(c[2])
		b, ok2 := num(c[3])
		if !ok1 || !ok2 {
			return rErr()
		}
		o, ok := d.get(string(c[1]), 's')
		if !ok {
			return rErr()
		}
		if o == nil {
			return rBulk([]byte{})
		}
		lo, hi := clamp(a, b, len(o.s))
		return rBulk(o.s[lo:hi])
	case "setrange":
		if n != 4 {
			return rErr()
		}
		a, ok := num(c[2])
		if !ok || a < 0 || a > 512*1024*1024-int64(len(c[3])) {
			return rErr()
		}
		v.Assume(d.roomy || a <= 64)
		off := v.Concrete(int(a))
		o, ok := d.get(string(c[1]), 's')
		if !ok {
			return rErr()
		}
		if len(c[3]) == 0 {
			if o == nil {
				return rInt(0)
			}
			return rInt(int64(len(o.s)))
		}
		if o == nil {
			o = &robj{typ: 's'}
			d.put(string(c[1]), o)
		}
		sz := off + len(c[3])
		if sz < len(o.s) {
			sz = len(o.s)
		}
		s := make([]byte, sz)
		copy(s, o.s)
		copy(s[off:], c[3])
		o.s = s
		return rInt(int64(sz))
	case "incr", "decr":
		if n != 2 {
			return rErr()
		}
		if name == "incr" {
			return d.incr(c[1], 1, false)
		}
		return d.incr(c[1], 1, true)
	case "incrby", "decrby":
		if n != 3 {
			return rErr()
		}
		x, ok := num(c[2])
		if !ok {
			return rErr()
		}
		return d.incr(c[1], x, name == "decrby")
	case "incrbyfloat":
		if n != 3 {
			return rErr()
		}
		x, err := strconv.ParseFloat(string(c[2]), 64)
		if err != nil || !finite(x) {
			return rErr()
		}
		o, ok := d.get(string(c[1]), 's')
		if !ok {
			return rErr()
		}
		old := 0.0
		if o != nil {
			old, err = strconv.ParseFloat(string(o.s), 64)
			if err != nil || !finite(old) || !finite(old+x) {
				return rErr()
			}
		} else {
			o = &robj{typ: 's'}
			d.put(string(c[1]), o)
		}
		o.s = []byte(strconv.FormatFloat(old+x, 'f', -1, 64))
		return rBulk(o.s)
	}
	panic("reference: unknown command " + name)
}

func finite(f float64) bool { return f-f == 0 }

// addI returns a+x or a-x and whether it fits.
func addI(a, x int64, sub bool) (int64, bool) {
	r := a + x
	if sub {
		r = a - x
		return r, v.Or(v.And(x >= 0, r <= a), v.And(x < 0, r > a))
	}
	return r, v.Or(v.And(x >= 0, r >= a), v.And(x < 0, r < a))
}

func (d *rdb) incr(key []byte, x int64, sub bool) rep {
	k := string(key)
	o, ok := d.get(k, 's')
	if !ok {
		return rErr()
	}
	old := int64(0)
	if o != nil {
		old, ok = num(o.s)
		if !ok {
			return rErr()
		}
	}
	r, fits := addI(old, x, sub)
	if !fits {
		return rErr()
	}
	if o == nil {
		o = &robj{typ: 's'}
		d.put(k, o)
	}
	o.s = []byte(strconv.FormatInt(r, 10))
	return rInt(r)
}

// clamp turns a Redis index range into a slice range.
func clamp(a, b int64, n int) (int, int) {
	m := int64(n)
	if a < 0 {
		a += m
		if a < 0 {
			a = 0
		}
	}
	if b < 0 {
		b += m
	}
	if b >= m {
		b = m - 1
	}
	if a > b || a >= m || b < 0 {
		return 0, 0
	}
	return v.Concrete(int(a)), v.Concrete(int(b)) + 1
}

func (d *rdb) setCmd(c [][]byte) rep {
	if len(c) < 3 {
		return rErr()
	}
	var nx, xx, get, keep bool
	var kind string
	var val int64
	for i := 3; i < len(c); i++ {
		w := word(c[i])
		switch w {
		case "nx":
			nx = true
		case "xx":
			xx = true
		case "get":
			get = true
		case "keepttl":
			if keep || kind != "" {
				return rErr()
			}
			keep = true
		case "ex", "px", "exat", "pxat":
			if keep || kind != "" || i+1 >= len(c) {
				return rErr()
			}
			kind = w
			i++
			x, ok := num(c[i])
			if !ok || x <= 0 {
				return rErr()
			}
			if w == "ex" && x > math.MaxInt64-d.now {
				return rErr()
			}
			val = x
		default:
			return rErr()
		}
	}
	if nx && xx {
		return rErr()
	}
	k := string(c[1])
	o := d.o[k]
	if get && o != nil && o.typ != 's' {
		return rErr()
	}
	res := rOK()
	if get {
		res = rNil()
		if o != nil {
			res = rBulk(o.s)
		}
	}
	if (nx && o != nil) || (xx && o == nil) {
		if !get {
			res = rNil()
		}
		return res
	}
	p := &robj{typ: 's', s: hCopy(c[2])}
	if keep && o != nil {
		p.ttl, p.dead, p.slack = o.ttl, o.dead, o.slack
	}
	d.put(k, p)
	switch kind {
	case "ex":
		d.deadline(p, k, d.now+val)
	case "px":
		d.deadline(p, k, d.now+val/1000)
		p.slack = v.Ite(val%1000 != 0, 1, 0)
	case "exat":
		d.deadline(p, k, val)
	case "pxat":
		d.deadline(p, k, val/1000)
		p.slack = v.Ite(val%1000 != 0, 1, 0)
	}
	return res
}

// ---- lists ----

func (d *rdb) list(name string, c [][]byte) rep {
	n := len(c)
	ar := map[string][2]int{"lindex": {3, 3}, "linsert": {5, 5}, "llen": {2, 2}, "lmove": {5, 5}, "lpop": {2, 3}, "rpop": {2, 3}, "lpos": {3, 1 << 30}, "lpush": {3, 1 << 30}, "rpush": {3, 1 << 30}, "lpushx": {3, 1 << 30}, "rpushx": {3, 1 << 30}, "lrange": {4, 4}, "lrem": {4, 4}, "lset": {4, 4}, "ltrim": {4, 4}}[name]
	if n < ar[0] || n > ar[1] {
		return rErr()
	}
	k := string(c[1])
	o, tok := d.get(k, 'l')
	switch name {
	case "lpush", "rpush", "lpushx", "rpushx":
		if !tok {
			return rErr()
		}
		if o == nil {
			if name == "lpushx" || name == "rpushx" {
				return rInt(0)
			}
			o = &robj{typ: 'l'}
			d.put(k, o)
		}
		for _, x := range c[2:] {
			if name[0] == 'l' {
				o.l = append([][]byte{x}, o.l...)
			} else {
				o.l = append(append([][]byte{}, o.l...), x)
			}
		}
		return rInt(int64(len(o.l)))
	case "llen":
		if !tok {
			return rErr()
		}
		if o == nil {
			return rInt(0)
		}
		return rInt(int64(len(o.l)))
	case "lpop", "rpop":
		cnt := int64(1)
		if n == 3 {
			x, ok := num(c[2])
			if !ok || x < 0 {
				return rErr()
			}
			cnt = x
		}
		if !tok {
			return rErr()
		}
		if o == nil {
			return rNil()
		}
		if cnt > int64(len(o.l)) {
			cnt = int64(len(o.l))
		}
		m := v.Concrete(int(cnt))
		var got [][]byte
		for i := 0; i < m; i++ {
			if name == "lpop" {
				got = append(got, o.l[0])
				o.l = o.l[1:]
			} else {
				got = append(got, o.l[len(o.l)-1])
				o.l = o.l[:len(o.l)-1]
			}
		}
		d.drop(k)
		if n == 2 {
			return rBulk(got[0])
		}
		return rBulks(got)
	case "lindex":
		x, ok := num(c[2])
		if !ok || !tok {
			return rErr()
		}
		if o == nil {
			return rNil()
		}
		i, ok := at(x, len(o.l))
		if !ok {
			return rNil()
		}
		return rBulk(o.l[i])
	case "lset":
		x, ok := num(c[2])
		if !ok || !tok || o == nil {
			return rErr()
		}
		i, ok := at(x, len(o.l))
		if !ok {
			return rErr()
		}
		l := append([][]byte{}, o.l...)
		l[i] = c[3]
		o.l = l
		return rOK()
	case "linsert":
		w := word(c[2])
		if w != "before" && w != "after" {
			return rErr()
		}
		if !tok {
			return rErr()
		}
		if o == nil {
			return rInt(0)
		}
		i := idx(o.l, c[3])
		if i < 0 {
			return rInt(-1)
		}
		if w == "after" {
			i++
		}
		l := append([][]byte{}, o.l[:i]...)
		l = append(l, c[4])
		o.l = append(l, o.l[i:]...)
		return rInt(int64(len(o.l)))
	case "lrange", "ltrim":
		a, ok1 := num(c[2])
		b, ok2 := num(c[3])
		if !ok1 || !ok2 || !tok {
			return rErr()
		}
		if o == nil {
			if name == "ltrim" {
				return rOK()
			}
			return rBulks(nil)
		}
		lo, hi := clamp(a, b, len(o.l))
		if name == "lrange" {
			return rBulks(o.l[lo:hi])
		}
		o.l = append([][]byte{}, o.l[lo:hi]...)
		d.drop(k)
		return rOK()
	case "lrem":
		x, ok := num(c[2])
		if !ok || !tok {
			return rErr()
		}
		if o == nil {
			return rInt(0)
		}
		gone := int64(0)
		var keep [][]byte
		if x >= 0 {
			for _, e := range o.l {
				if (x == 0 || gone < x) && bEq(e, c[3]) {
					gone++
				} else {
					keep = append(keep, e)
				}
			}
		} else {
			for i := len(o.l) - 1; i >= 0; i-- {
				if -gone > x && bEq(o.l[i], c[3]) {
					gone++
				} else {
					keep = append([][]byte{o.l[i]}, keep...)
				}
			}
		}
		o.l = keep
		d.drop(k)
		return rInt(gone)
	case "lmove":
		a, b := word(c[3]), word(c[4])
		if (a != "left" && a != "right") || (b != "left" && b != "right") {
			return rErr()
		}
		if !tok {
			return rErr()
		}
		if o == nil {
			return rNil()
		}
		dk := string(c[2])
		t, tok := d.get(dk, 'l')
		if !tok {
			return rErr()
		}
		if t == nil {
			t = &robj{typ: 'l'}
			d.put(dk, t)
		}
		var x []byte
		if a == "left" {
			x = o.l[0]
			o.l = append([][]byte{}, o.l[1:]...)
		} else {
			x = o.l[len(o.l)-1]
			o.l = append([][]byte{}, o.l[:len(o.l)-1]...)
		}
		if b == "left" {
			t.l = append([][]byte{x}, t.l...)
		} else {
			t.l = append(append([][]byte{}, t.l...), x)
		}
		d.drop(k)
		return rBulk(x)
	case "lpos":
		return d.lpos(c, o, tok)
	}
	panic("reference: unknown command " + name)
}

func at(x int64, n int) (int, bool) {
	if x < 0 {
		x += int64(n)
	}
	if x < 0 || x >= int64(n) {
		return 0, false
	}
	return v.Concrete(int(x)), true
}

func (d *rdb) lpos(c [][]byte, o *robj, tok bool) rep {
	if len(c)%2 == 0 {
		return rErr()
	}
	rank, cnt, maxlen := int64(1), int64(-1), int64(0)
	for i := 3; i < len(c); i += 2 {
		x, ok := num(c[i+1])
		if !ok {
			return rErr()
		}
		switch word(c[i]) {
		case "rank":
			if x == 0 {
				return rErr()
			}
			rank = x
		case "count":
			if x < 0 {
				return rErr()
			}
			cnt = x
		case "maxlen":
			if x < 0 {
				return rErr()
			}
			maxlen = x
		default:
			return rErr()
		}
	}
	if !tok {
		return rErr()
	}
	var l [][]byte
	if o != nil {
		l = o.l
	}
	var found []rep
	skip := rank - 1
	if rank < 0 {
		skip = -(rank + 1)
	}
	for i := range l {
		if maxlen != 0 && int64(i) >= maxlen {
			break
		}
		p := i
		if rank < 0 {
			p = len(l) - 1 - i
		}
		if !bEq(l[p], c[2]) {
			continue
		}
		if skip > 0 {
			skip--
			continue
		}
		found = append(found, rInt(int64(p)))
		if cnt != 0 && (cnt < 0 || int64(len(found)) >= cnt) {
			break
		}
	}
	if cnt < 0 {
		if len(found) == 0 {
			return rNil()
		}
		return found[0]
	}
	return rArr(found)
}

// ---- hashes ----

func (d *rdb) hash(name string, c [][]byte) rep {
	n := len(c)
	ar := map[string][2]int{"hdel": {3, 1 << 30}, "hexists": {3, 3}, "hget": {3, 3}, "hgetall": {2, 2}, "hincrby": {4, 4}, "hincrbyfloat": {4, 4}, "hkeys": {2, 2}, "hlen": {2, 2}, "hmget": {3, 1 << 30}, "hmset": {4, 1 << 30}, "hset": {4, 1 << 30}, "hsetnx": {4, 4}, "hvals": {2, 2}, "hstrlen": {3, 3}}[name]
	if n < ar[0] || n > ar[1] {
		return rErr()
	}
	if (name == "hset" || name == "hmset") && n%2 != 0 {
		return rErr()
	}
	k := string(c[1])
	o, tok := d.get(k, 'h')
	if !tok {
		return rErr()
	}
	e := o
	if e == nil {
		e = &robj{typ: 'h'}
	}
	set := func(f, w []byte) int64 {
		if i := idx(e.f, f); i >= 0 {
			nw := append([][]byte{}, e.w...)
			nw[i] = w
			e.w = nw
			return 0
		}
		e.f = append(e.f, f)
		e.w = append(e.w, w)
		d.put(k, e)
		return 1
	}
	switch name {
	case "hset", "hmset":
		cnt := int64(0)
		for i := 2; i < n; i += 2 {
			cnt += set(c[i], c[i+1])
		}
		if name == "hmset" {
			return rOK()
		}
		return rInt(cnt)
	case "hsetnx":
		if idx(e.f, c[2]) >= 0 {
			return rInt(0)
		}
		set(c[2], c[3])
		return rInt(1)
	case "hget":
		if i := idx(e.f, c[2]); i >= 0 {
			return rBulk(e.w[i])
		}
		return rNil()
	case "hmget":
		l := make([][]byte, n-2)
		for j := 2; j < n; j++ {
			if i := idx(e.f, c[j]); i >= 0 {
				l[j-2] = e.w[i]
			}
		}
		return rBulks(l)
	case "hdel":
		cnt := int64(0)
		for _, f := range c[2:] {
			if i := idx(e.f, f); i >= 0 {
				e.f = without(e.f, i)
				e.w = without(e.w, i)
				cnt++
			}
		}
		d.drop(k)
		return rInt(cnt)
	case "hexists":
		if idx(e.f, c[2]) >= 0 {
			return rInt(1)
		}
		return rInt(0)
	case "hlen":
		return rInt(int64(len(e.f)))
	case "hstrlen":
		if i := idx(e.f, c[2]); i >= 0 {
			return rInt(int64(len(e.w[i])))
		}
		return rInt(0)
	case "hkeys":
		return rSet(e.f)
	case "hvals":
		return rMulti(e.w)
	case "hgetall":
		l := [][]byte{}
		for i := range e.f {
			l = append(l, e.f[i], e.w[i])
		}
		return rep{k: 'p', l: l}
	case "hincrby":
		x, ok := num(c[3])
		if !ok {
			return rErr()
		}
		old := int64(0)
		if i := idx(e.f, c[2]); i >= 0 {
			old, ok = num(e.w[i])
			if !ok {
				return rErr()
			}
		}
		r, fits := addI(old, x, false)
		if !fits {
			return rErr()
		}
		set(c[2], []byte(strconv.FormatInt(r, 10)))
		return rInt(r)
	case "hincrbyfloat":
		x, err := strconv.ParseFloat(string(c[3]), 64)
		if err != nil || !finite(x) {
			return rErr()
		}
		old := 0.0
		if i := idx(e.f, c[2]); i >= 0 {
			old, err = strconv.ParseFloat(string(e.w[i]), 64)
			if err != nil || !finite(old) || !finite(old+x) {
				return rErr()
			}
		}
		w := []byte(strconv.FormatFloat(old+x, 'f', -1, 64))
		set(c[2], w)
		return rBulk(w)
	}
	panic("reference: unknown command " + name)
}

// ---- sets ----

func (d *rdb) set(name string, c [][]byte) rep {
	n := len(c)
	ar := map[string][2]int{"sadd": {3, 1 << 30}, "srem": {3, 1 << 30}, "scard": {2, 2}, "sismember": {3, 3}, "smembers": {2, 2}, "smove": {4, 4}, "sinter": {2, 1 << 30}, "sunion": {2, 1 << 30}, "sdiff": {2, 1 << 30}, "sinterstore": {3, 1 << 30}, "sunionstore": {3, 1 << 30}, "sdiffstore": {3, 1 << 30}}[name]
	if n < ar[0] || n > ar[1] {
		return rErr()
	}
	k := string(c[1])
	switch name {
	case "sinter", "sunion", "sdiff":
		l, ok := d.algebra(name, c[1:])
		if !ok {
			return rErr()
		}
		return rSet(l)
	case "sinterstore", "sunionstore", "sdiffstore":
		l, ok := d.algebra(name[:len(name)-5], c[2:])
		if !ok {
			return rErr()
		}
		d.put(k, &robj{typ: 't', m: l})
		d.drop(k)
		return rInt(int64(len(l)))
	}
	o, tok := d.get(k, 't')
	if !tok {
		return rErr()
	}
	e := o
	if e == nil {
		e = &robj{typ: 't'}
	}
	switch name {
	case "sadd":
		cnt := int64(0)
		d.put(k, e)
		for _, x := range c[2:] {
			if idx(e.m, x) < 0 {
				e.m = append(append([][]byte{}, e.m...), x)
				cnt++
			}
		}
		return rInt(cnt)
	case "srem":
		cnt := int64(0)
		for _, x := range c[2:] {
			if i := idx(e.m, x); i >= 0 {
				e.m = without(e.m, i)
				cnt++
			}
		}
		d.drop(k)
		return rInt(cnt)
	case "scard":
		return rInt(int64(len(e.m)))
	case "sismember":
		if idx(e.m, c[2]) >= 0 {
			return rInt(1)
		}
		return rInt(0)
	case "smembers":
		return rSet(e.m)
	case "smove":
		if o == nil {
			return rInt(0)
		}
		t, tok := d.get(string(c[2]), 't')
		if !tok {
			return rErr()
		}
		i := idx(e.m, c[3])
		if i < 0 {
			return rInt(0)
		}
		if string(c[2]) == k {
			return rInt(1)
		}
		e.m = without(e.m, i)
		if t == nil {
			t = &robj{typ: 't'}
			d.put(string(c[2]), t)
		}
		if idx(t.m, c[3]) < 0 {
			t.m = append(append([][]byte{}, t.m...), c[3])
		}
		d.drop(k)
		return rInt(1)
	}
	panic("reference: unknown command " + name)
}

func (d *rdb) algebra(op string, keys [][]byte) ([][]byte, bool) {
	ops := make([][][]byte, len(keys))
	for i, k := range keys {
		o, ok := d.get(string(k), 't')
		if !ok {
			return nil, false
		}
		if o != nil {
			ops[i] = o.m
		}
	}
	res := append([][]byte{}, ops[0]...)
	for _, m := range ops[1:] {
		var nr [][]byte
		switch op {
		case "sunion":
			nr = res
			for _, x := range m {
				if idx(nr, x) < 0 {
					nr = append(nr, x)
				}
			}
		case "sinter":
			for _, x := range res {
				if idx(m, x) >= 0 {
					nr = append(nr, x)
				}
			}
		case "sdiff":
			for _, x := range res {
				if idx(m, x) < 0 {
					nr = append(nr, x)
				}
			}
		}
		res = nr
	}
	return res, true
}

// ---- running a command on both sides ----

// step runs args on the real database, checks the reply against the reference
// and advances the reference.
func (d *rdb) step(db hdb, label string, args ...[]byte) resp.RedisData {
	cmd := make([][]byte, len(args))
	for i := range args {
		cmd[i] = v.Sent(args[i])
	}
	r := hRun(db, cmd...)
	d.judge(label, r, args)
	return r
}

func (d *rdb) judge(label string, r resp.RedisData, args [][]byte) {
	name := string(args[0])
	switch name {
	case "spop", "srandmember", "hrandfield":
		v.Assert(d.random(name, args, r), label+":"+name)
		return
	}
	want := d.do(args...)
	if label == "setup" {
		// not what is being decided here: only states that were set up as
		// intended are of interest
		v.Assume(match(r, want))
		return
	}
	v.Assert(match(r, want), label+":"+name)
}

func (d *rdb) stepS(db hdb, label string, args ...string) resp.RedisData {
	b := make([][]byte, len(args))
	for i := range args {
		b[i] = []byte(args[i])
	}
	return d.step(db, label, b...)
}

// random judges SPOP, SRANDMEMBER and HRANDFIELD.
func (d *rdb) random(name string, c [][]byte, r resp.RedisData) bool {
	d.purge()
	n := len(c)
	max := 3
	typ := byte('t')
	if name == "hrandfield" {
		max = 4
		typ = 'h'
	}
	if n < 2 || n > max {
		return isErr(r)
	}
	cnt := int64(1)
	if n > 2 {
		x, ok := num(c[2])
		if !ok {
			return isErr(r)
		}
		cnt = x
	}
	vals := false
	if n == 4 {
		if word(c[3]) != "withvalues" {
			return isErr(r)
		}
		vals = true
	}
	if name == "spop" && cnt < 0 {
		return isErr(r)
	}
	k := string(c[1])
	o, tok := d.get(k, typ)
	if !tok {
		return isErr(r)
	}
	if cnt < -1000 {
		// too large to be served
		return isErr(r) || (o == nil && isNil(r))
	}
	if o == nil {
		if n == 2 {
			return isNil(r)
		}
		e, ok := arr(r)
		return isNil(r) || (ok && len(e) == 0)
	}
	pool := o.m
	if typ == 'h' {
		pool = o.f
	}
	var got [][]byte
	if n == 2 {
		b, ok := bulkOf(r)
		if !ok {
			return false
		}
		got = [][]byte{b}
	} else {
		e, ok := arr(r)
		if !ok {
			return false
		}
		for i := range e {
			b, ok := bulkOf(e[i])
			if !ok {
				return false
			}
			got = append(got, b)
		}
		want := cnt
		if cnt < 0 {
			want = -cnt
		} else if cnt > int64(len(pool)) {
			want = int64(len(pool))
		}
		if vals {
			want *= 2
		}
		if int64(len(got)) != want {
			return false
		}
	}
	var el, ev [][]byte
	for i := 0; i < len(got); i++ {
		el = append(el, got[i])
		if vals {
			i++
			ev = append(ev, got[i])
		}
	}
	// every element exists (with its value) and, for counts >= 0, is distinct
	ok := true
	for i := range el {
		any := false
		for j := range pool {
			hit := bEq(el[i], pool[j])
			if vals {
				hit = v.And(hit, bEq(ev[i], o.w[j]))
			}
			any = v.Or(any, hit)
		}
		ok = v.And(ok, any)
		if cnt >= 0 {
			for j := 0; j < i; j++ {
				ok = v.And(ok, v.Not(bEq(el[i], el[j])))
			}
		}
	}
	if name == "spop" {
		for i := range el {
			if j := idx(o.m, el[i]); j >= 0 {
				o.m = without(o.m, j)
			}
		}
		d.drop(k)
	}
	return ok
}

// verify compares the whole observable keyspace with the reference.
func (d *rdb) verify(db hdb, label string) {
	d.purge()
	var live [][]byte
	for _, k := range d.all {
		o := d.o[k]
		v.Assert(match(hDo(db, "type", k), rStr(d.typeOf(k))), label+"-type")
		t := hDo(db, "ttl", k)
		if o == nil {
			v.Assert(isInt(t, -2), label+"-ttl")
			v.Assert(isInt(hDo(db, "exists", k), 0), label+"-exists")
			continue
		}
		live = append(live, []byte(k))
		v.Assert(isInt(hDo(db, "exists", k), 1), label+"-exists")
		if !o.ttl {
			v.Assert(isInt(t, -1), label+"-ttl")
		} else {
			i, ok := t.(*resp.Integer)
			v.Assert(ok, label+"-ttl")
			v.Assert(v.And(i.GetData() >= o.dead-d.now, i.GetData() <= o.dead+o.slack-d.now), label+"-ttl")
		}
		switch o.typ {
		case 's':
			v.Assert(isBulk(hDo(db, "get", k), o.s), label+"-value")
		case 'l':
			v.Assert(isInt(hDo(db, "llen", k), int64(len(o.l))), label+"-llen")
			v.Assert(isBulks(hDo(db, "lrange", k, "0", "-1"), o.l), label+"-lrange")
			for i := range o.l {
				r := hDo(db, "lindex", k, strconv.Itoa(-1-i))
				v.Assert(isBulk(r, o.l[len(o.l)-1-i]), label+"-backwards")
			}
		case 'h':
			v.Assert(isInt(hDo(db, "hlen", k), int64(len(o.f))), label+"-hlen")
			l := [][]byte{}
			for i := range o.f {
				l = append(l, o.f[i], o.w[i])
			}
			v.Assert(match(hDo(db, "hgetall", k), rep{k: 'p', l: l}), label+"-hgetall")
		case 't':
			v.Assert(isInt(hDo(db, "scard", k), int64(len(o.m))), label+"-scard")
			v.Assert(match(hDo(db, "smembers", k), rSet(o.m)), label+"-smembers")
		}
	}
	v.Assert(match(hDo(db, "keys", "*"), rSet(live)), label+"-keys")
}

// ---- pre-states ----

func bs(ss ...string) [][]byte {
	r := make([][]byte, len(ss))
	for i := range ss {
		r[i] = []byte(ss[i])
	}
	return r
}

// make creates key with an object of the given kind holding these elements.
func (d *rdb) make(db hdb, kind byte, k string, el ...[]byte) {
	var c [][]byte
	switch kind {
	case 's':
		c = [][]byte{[]byte("set"), []byte(k), el[0]}
	case 'l':
		c = append(bs("rpush", k), el...)
	case 'h':
		c = append(bs("hset", k), el...)
	case 't':
		c = append(bs("sadd", k), el...)
	default:
		return
	}
	d.step(db, "setup", c...)
}

// kinds for a choice of pre-state: missing, string, list, hash, set.
var kinds = []byte{'-', 's', 'l', 'h', 't'}

// makeAny creates key with a fixed small object of the chosen kind.
func (d *rdb) makeAny(db hdb, kind byte, k string) {
	switch kind {
	case 's':
		d.make(db, 's', k, []byte("12"))
	case 'l':
		d.make(db, 'l', k, bs("a", "b", "a")...)
	case 'h':
		d.make(db, 'h', k, bs("f", "1", "g", "x")...)
	case 't':
		d.make(db, 't', k, bs("a", "b", "")...)
	}
}
