package main

import (
	"strings"

	"gRedis/resp"
	"gRedis/server"
	v "gRedis/zzverif"
)

// the commands the documentation lists, and PING.
var documented = strings.Fields(`del exists keys expire persist ttl rename type
set get getrange setrange mget mset setex setnx strlen incr incrby decr decrby incrbyfloat append
hdel hexists hget hgetall hincrby hincrbyfloat hkeys hlen hmget hmset hset hsetnx hvals hstrlen hrandfield
lindex linsert llen lmove lpop lpos lpush lpushx lrange lrem lset ltrim rpop rpush rpushx
sadd scard sdiff sdiffstore sinter sinterstore sismember smembers smove spop srandmember srem sunion sunionstore
select ping`)

// ex runs a request through the dispatcher.
func ex(m *server.Manager, c ...[]byte) resp.RedisData {
	r := m.ExecCommand(dup(c))
	v.Assert(r != nil, "reply-not-nil")
	return r
}

// via runs a request through the dispatcher and judges it against the model.
func (d *rdb) via(m *server.Manager, label, row string) {
	c := fields(row)
	d.judge(label, ex(m, c...), c)
}

// see: everything observable of the keys, judged against the model.
func (d *rdb) see(m *server.Manager, label string) {
	for _, k := range d.all {
		d.via(m, label, "type "+k)
		d.via(m, label, "ttl "+k)
		if o := d.o[k]; o != nil {
			switch o.typ {
			case 's':
				d.via(m, label, "get "+k)
			case 'l':
				d.via(m, label, "lrange "+k+" 0 -1")
			case 'h':
				d.via(m, label, "hgetall "+k)
			case 't':
				d.via(m, label, "smembers "+k)
			}
		}
	}
	d.via(m, label, "keys *")
}

func put(d *rdb, m *server.Manager, kind byte, k string) {
	switch kind {
	case 's':
		d.via(m, "setup", "set "+k+" 5")
	case 'l':
		d.via(m, "setup", "rpush "+k+" a b")
	case 'h':
		d.via(m, "setup", "hset "+k+" f 1 g x")
	case 't':
		d.via(m, "setup", "sadd "+k+" a b")
	}
}

// letters: the name with every letter in any case.
func letters(name string) []byte {
	x := v.Bytes("case", len(name))
	ok := true
	for i := range x {
		ok = v.And(ok, v.Or(x[i] == name[i], x[i] == name[i]-32))
	}
	v.Assume(ok)
	return x
}

// every documented command, its name in any letter case, on every kind of key:
// the reply and the effect are those of that command.
func H_C21_commands() {
	m := hServer(2, 2)
	d := newRef("k", "o")
	row := table[v.Choice("row", len(table))]
	c := fields(row)
	kind := kinds[v.Choice("kind", 5)]
	put(d, m, kind, "k")
	if v.Choice("other", 2) == 1 {
		want := typed[string(c[0])]
		if want == 0 {
			want = 't'
		}
		put(d, m, want, "o")
	}
	req := dup(c)
	req[0] = letters(string(c[0]))
	d.judge("reply", ex(m, req...), c)
	d.see(m, "effect")
	v.Reach("end")
}

// PING and SELECT.
func H_C21_special() {
	m := hServer(1, 3)
	switch v.Choice("cmd", 3) {
	case 0:
		r := ex(m, letters("ping"))
		s, ok := r.(*resp.SimpleString)
		v.Assert(ok && s.GetData() == "PONG", "ping")
	case 1:
		x := v.Bytes("x", 3)
		v.Assert(isBulk(ex(m, letters("ping"), x), x), "ping-echo")
	case 2:
		ex(m, b("set"), b("k"), b("0"))
		v.Assert(isOK(ex(m, letters("select"), b("2"))), "select")
		v.Assert(isNil(ex(m, b("get"), b("k"))), "select-effect")
	}
	v.Reach("end")
}

// every documented command is there: without arguments it says so (or answers),
// it is never unknown.
func H_C21_available() {
	m := hServer(1, 1)
	name := documented[v.Choice("name", len(documented))]
	r := ex(m, letters(name))
	if e, ok := r.(*resp.SimpleError); ok {
		v.Assert(!strings.Contains(e.GetData(), "unknown command"), "available:"+name)
	}
	v.Reach("end")
}

// notCommand: the name is answered with an error and changes nothing, whatever
// the arguments.
func notCommand(name []byte) {
	m := hServer(1, 2)
	d := newRef("k", "o", "x")
	args := v.Choice("args", 6)
	put(d, m, kinds[1+(args+v.Choice("kind", 1+v.Tier()))%4], "k")
	for _, c := range name {
		v.Assume(c < 0x80)
	}
	is := false
	for _, n := range documented {
		is = v.Or(is, foldEq(n, string(name)))
	}
	v.Assume(!is)
	r := ex(m, append([][]byte{name}, fields([]string{"", "k", "k v", "k x", "x k v", "1"}[args])...)...)
	v.Assert(isErr(r), "unknown-is-an-error")
	d.see(m, "no-effect")
	v.Reach("end")
}

// any few bytes.
func H_C21_unknown() {
	notCommand(v.Bytes("name", v.Choice("len", 4+2*v.Tier())))
}

// a command's name with a byte added at either end, or in the middle.
func H_C21_added() {
	n := documented[v.Choice("cmd", len(documented))]
	i := []int{0, len(n), len(n) / 2, 1}[v.Choice("at", 4)]
	notCommand(b(n[:i] + string(v.Bytes("extra", 1)) + n[i:]))
}

// a command's name with a letter left out or changed.
func H_C21_altered() {
	n := documented[v.Choice("cmd", len(documented))]
	i := v.Choice("at", len(n))
	if v.Choice("cut", 2) == 1 {
		notCommand(b(n[:i] + n[i+1:]))
	} else {
		notCommand(b(n[:i] + string(v.Bytes("letter", 1)) + n[i+1:]))
	}
}

// names with bytes outside ASCII, in particular letters whose lower or upper
// case is an ASCII letter, are not command names.
func H_C21_foreign() {
	m := hServer(1, 2)
	d := newRef("k", "o", "x")
	put(d, m, 's', "k")
	n := documented[v.Choice("cmd", len(documented))]
	var name []byte
	switch v.Choice("shape", 3) {
	case 0:
		i := strings.IndexByte(n, 'k')
		v.Assume(i >= 0)
		name = b(n[:i] + "\u212a" + n[i+1:])
	case 1:
		i := strings.IndexByte(n, 's')
		v.Assume(i >= 0)
		name = b(n[:i] + "\u017f" + n[i+1:])
	case 2:
		i := v.Choice("at", 2) * len(n)
		x := v.Bytes("x", 1)
		v.Assume(x[0] >= 0x80)
		name = append(b(n[:i]), append(x, n[i:]...)...)
	}
	r := ex(m, append([][]byte{name}, fields([]string{"", "k", "k v", "*"}[v.Choice("args", 4)])...)...)
	v.Assert(isErr(r), "unknown-is-an-error")
	d.see(m, "no-effect")
	v.Reach("end")
}
