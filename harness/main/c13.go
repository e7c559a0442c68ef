package main

import (
	"gRedis/resp"
	v "gRedis/zzverif"
)

func intOf(r resp.RedisData) int64 {
	i, ok := r.(*resp.Integer)
	if !ok {
		return -100
	}
	return i.GetData()
}

// noEmpty: every key is either absent everywhere or a non-empty object.
func noEmpty(db hdb, label string, keys ...string) {
	live := map[string]bool{}
	for _, k := range keys {
		t := hDo(db, "type", k)
		s, ok := t.(*resp.SimpleString)
		v.Assert(ok, label+"-type")
		ex := intOf(hDo(db, "exists", k))
		switch s.GetData() {
		case "none":
			v.Assert(ex == 0, label+"-none-exists")
			v.Assert(isInt(hDo(db, "ttl", k), -2), label+"-none-ttl")
			continue
		case "list":
			v.Assert(intOf(hDo(db, "llen", k)) > 0, label+"-empty-list")
		case "hash":
			v.Assert(intOf(hDo(db, "hlen", k)) > 0, label+"-empty-hash")
		case "set":
			v.Assert(intOf(hDo(db, "scard", k)) > 0, label+"-empty-set")
		}
		v.Assert(ex == 1, label+"-exists")
		live[k] = true
	}
	l, ok := arr(hDo(db, "keys", "*"))
	v.Assert(ok, label+"-keys")
	v.Assert(len(l) == len(live), label+"-keys")
	for _, e := range l {
		n, ok := bulkOf(e)
		v.Assert(ok, label+"-keys")
		v.Assert(live[string(n)], label+"-keys")
	}
}

// rebirth: an absent key can be created by any type and starts without TTL.
func rebirth(db hdb, k string) {
	if intOf(hDo(db, "exists", k)) != 0 {
		return
	}
	v.Reach("gone")
	switch v.Choice("rebirth", 4) {
	case 0:
		v.Assert(isInt(hDo(db, "append", k, "x"), 1), "rebirth-string")
		v.Assert(isBulk(hDo(db, "get", k), b("x")), "rebirth-string")
	case 1:
		v.Assert(isInt(hDo(db, "rpush", k, "x"), 1), "rebirth-list")
		v.Assert(isBulks(hDo(db, "lrange", k, "0", "-1"), bs("x")), "rebirth-list")
	case 2:
		v.Assert(isInt(hDo(db, "hset", k, "f", "x"), 1), "rebirth-hash")
		v.Assert(isBulks(hDo(db, "hgetall", k), bs("f", "x")), "rebirth-hash")
	case 3:
		v.Assert(isInt(hDo(db, "sadd", k, "x"), 1), "rebirth-set")
		v.Assert(isBulks(hDo(db, "smembers", k), bs("x")), "rebirth-set")
	}
	v.Assert(isInt(hDo(db, "ttl", k), -1), "rebirth-ttl")
}

// small: a container of one or two symbolic elements, with TTL.
func small(db hdb, k string) {
	n := 1 + v.Choice("size-"+k, 2)
	kind := v.Choice("kind-"+k, 3)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			hRun(db, b("rpush"), b(k), elem("e"))
		case 1:
			hRun(db, b("hset"), b(k), elem("f"), b("1"))
		case 2:
			hRun(db, b("sadd"), b(k), elem("m"))
		}
	}
	if v.Choice("ttl-"+k, 2) == 1 {
		hDo(db, "expire", k, "100")
	}
}

// one removing command with symbolic arguments on a small container.
func H_C13_remove() {
	db := hDB(2)
	small(db, "k")
	x, y := elem("x"), elem("y")
	switch v.Choice("cmd", 18) {
	case 0:
		hRun(db, b("lpop"), b("k"), symI("count"))
	case 1:
		hRun(db, b("rpop"), b("k"), symI("count"))
	case 2:
		hRun(db, b("lrem"), b("k"), symI("count"), x)
	case 3:
		hRun(db, b("ltrim"), b("k"), symI("start"), symI("stop"))
	case 4:
		hRun(db, b("lmove"), b("k"), b("o"), b("left"), b("right"))
	case 5:
		hRun(db, b("hdel"), b("k"), x, y)
	case 6:
		hRun(db, b("srem"), b("k"), x, y)
	case 7:
		n := v.Int64("count")
		hRun(db, b("spop"), b("k"), b(hItoa(n)))
	case 8:
		hRun(db, b("smove"), b("k"), b("o"), x)
	case 9:
		hRun(db, b("sdiffstore"), b("k"), b("k"), b("k"))
	case 10:
		hRun(db, b("sinterstore"), b("k"), b("k"), b("none"))
	case 11:
		hRun(db, b("sunionstore"), b("k"), b("none"), b("none2"))
	case 12:
		hRun(db, b("sdiffstore"), b("o"), b("none"), b("k"))
	case 13:
		hRun(db, b("sinterstore"), b("k"), b("none"), b("none2"))
	case 14:
		hRun(db, b("lpop"), b("k"))
		hRun(db, b("rpop"), b("k"))
	case 15:
		hRun(db, b("spop"), b("k"))
		hRun(db, b("spop"), b("k"))
	case 16:
		hRun(db, b("lmove"), b("k"), b("o"), b("right"), b("left"))
		hRun(db, b("lmove"), b("k"), b("o"), b("left"), b("left"))
	case 17:
		hRun(db, b("rename"), b("k"), b("o"))
	}
	noEmpty(db, "after", "k", "o")
	rebirth(db, "k")
	v.Reach("end")
}

// commands that may fail to create anything.
func H_C13_create() {
	db := hDB(2)
	if v.Choice("o", 2) == 1 {
		small(db, "o")
	}
	x := symS("x", 1)
	switch v.Choice("cmd", 18) {
	case 0:
		hRun(db, b("lpushx"), b("k"), x)
	case 1:
		hRun(db, b("rpushx"), b("k"), x)
	case 2:
		hRun(db, b("hincrby"), b("k"), b("f"), x)
	case 3:
		hRun(db, b("hincrbyfloat"), b("k"), b("f"), b("zz"))
	case 4:
		hRun(db, b("hset"), b("k"), b("f"))
	case 5:
		hRun(db, b("hset"), b("k"), b("f"), x, b("g"))
	case 6:
		hRun(db, b("hmset"), b("k"), b("f"), x, b("g"))
	case 7:
		hRun(db, b("sadd"), b("k"))
	case 8:
		hRun(db, b("lpush"), b("k"))
	case 9:
		hRun(db, b("rpush"), b("k"))
	case 10:
		hRun(db, b("lmove"), b("o"), b("k"), b("left"), x)
	case 11:
		hRun(db, b("lmove"), b("k"), b("o"), b("left"), b("left"))
	case 12:
		hRun(db, b("smove"), b("o"), b("k"), x)
	case 13:
		hRun(db, b([]string{"sinterstore", "sunionstore", "sdiffstore"}[v.Choice("op", 3)]), b("k"), b("none"), b("o"))
	case 14:
		hRun(db, b("linsert"), b("k"), b("before"), x, x)
	case 15:
		hRun(db, b("lset"), b("k"), b("0"), x)
	case 16:
		hRun(db, b("smove"), b("k"), b("o"), x)
	case 17:
		hRun(db, b("hdel"), b("k"), x)
		hRun(db, b("srem"), b("k"), x)
		hRun(db, b("lrem"), b("k"), b("0"), x)
		hRun(db, b("ltrim"), b("k"), b("0"), b("1"))
	}
	noEmpty(db, "after", "k", "o")
	rebirth(db, "k")
	v.Reach("end")
}

// any two commands of the table in a row, on two keys.
func H_C13_pair() {
	db := hDB(1)
	small(db, "k")
	if v.Choice("o", 2) == 1 {
		small(db, "o")
	}
	hRun(db, pickRow()...)
	noEmpty(db, "first", "k", "o")
	if v.Tier() > 0 {
		hRun(db, pickRow()...)
		noEmpty(db, "second", "k", "o")
	}
	rebirth(db, "k")
	v.Reach("end")
}

// emptied by a run of single removals.
func H_C13_drain() {
	db := hDB(2)
	kind := v.Choice("kind", 3)
	hDo(db, [][]string{{"rpush", "k", "a", "b"}, {"hset", "k", "a", "1", "b", "2"}, {"sadd", "k", "a", "b"}}[kind]...)
	hDo(db, "expire", "k", "100")
	cmds := [][][]string{
		{{"lpop", "k"}, {"rpop", "k"}, {"lrem", "k", "1", "a"}, {"ltrim", "k", "1", "-1"}, {"lmove", "k", "o", "left", "left"}, {"lpop", "k", "1"}, {"rpush", "k", "c"}},
		{{"hdel", "k", "a"}, {"hdel", "k", "b"}, {"hset", "k", "a", "3"}},
		{{"srem", "k", "a"}, {"spop", "k"}, {"smove", "k", "o", "b"}, {"spop", "k", "1"}, {"sadd", "k", "c"}, {"sdiffstore", "k", "k", "o"}},
	}[kind]
	n := 3 + v.Tier()
	for i := 0; i < n; i++ {
		hDo(db, cmds[v.Choice("cmd", len(cmds))]...)
		noEmpty(db, "step", "k", "o")
	}
	rebirth(db, "k")
	v.Reach("end")
}

// larger containers emptied by one command or by several.
func H_C13_large() {
	n := []int{3, 4, 5, 9, 17}[v.Choice("n", 5)]
	db := hDB(2)
	kind := v.Choice("kind", 3)
	add := [][]byte{b([]string{"rpush", "hset", "sadd"}[kind]), b("k")}
	var all [][]byte
	for i := 0; i < n; i++ {
		x := b("e" + hItoa(int64(i)))
		all = append(all, x)
		add = append(add, x)
		if kind == 1 {
			add = append(add, b("1"))
		}
	}
	hRun(db, add...)
	if v.Choice("ttl", 2) == 1 {
		hDo(db, "expire", "k", "100")
	}
	with := func(c ...string) [][]byte { return append(bs(c...), all...) }
	at := func(d int) string { return hItoa(int64(n + d)) }
	d := v.Choice("delta", 3) - 1
	cutTo := n
	if d < 0 {
		cutTo--
	}
	switch kind {
	case 0:
		switch v.Choice("cmd", 7) {
		case 0:
			hDo(db, "lpop", "k", at(d))
		case 1:
			hDo(db, "rpop", "k", at(d))
		case 2:
			hDo(db, "ltrim", "k", at(d), "-1")
		case 3:
			hDo(db, "ltrim", "k", "0", "-"+at(1+d))
		case 4:
			for _, x := range all[:cutTo] {
				hRun(db, b("lrem"), b("k"), b([]string{"0", "1", "-1"}[d+1]), x)
			}
		case 5:
			for i := 0; i < cutTo; i++ {
				hDo(db, "lmove", "k", "o", "right", "left")
			}
		case 6:
			for i := 0; i < cutTo; i++ {
				hDo(db, []string{"lpop", "rpop"}[i%2], "k")
			}
		}
	case 1:
		if d < 0 {
			hRun(db, with("hdel", "k")[:n+1]...)
		} else if d == 0 {
			hRun(db, with("hdel", "k")...)
		} else {
			for _, x := range all {
				hRun(db, b("hdel"), b("k"), x)
			}
		}
	case 2:
		switch v.Choice("cmd", 6) {
		case 0:
			hDo(db, "spop", "k", at(d))
		case 1:
			if d < 0 {
				hRun(db, with("srem", "k")[:n+1]...)
			} else {
				hRun(db, append(with("srem", "k"), b("none"))...)
			}
		case 2:
			for _, x := range all[:cutTo] {
				hRun(db, b("smove"), b("k"), b("o"), x)
			}
		case 3:
			for i := 0; i < cutTo; i++ {
				hDo(db, "spop", "k")
			}
		case 4:
			hRun(db, with("sadd", "o")...)
			hDo(db, "sdiffstore", "k", "k", "o")
		case 5:
			hDo(db, "sadd", "o", "other")
			hDo(db, "sinterstore", "k", "o", "k")
		}
	}
	if d >= 0 && kind != 2 {
		v.Assert(isInt(hDo(db, "exists", "k"), 0), "emptied")
	}
	noEmpty(db, "after", "k", "o")
	rebirth(db, "k")
	v.Reach("end")
}
