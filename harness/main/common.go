package main

import (
	"strconv"

	"gRedis/config"
	"gRedis/memdb"
	"gRedis/resp"
	v "gRedis/zzverif"
)

// ---- adapter between the harnesses and the code under test ----

type hdb = *memdb.MemDb

// clock0 is the clock every harness starts with (seconds).
const clock0 = 1_000_000

func hDB(seg int) hdb {
	config.Conf = &config.Config{Host: "127.0.0.1", Port: 6379, LogDir: "./", LogLevel: "error", SegNum: seg, DbNum: 2}
	v.SetClock(clock0)
	return memdb.NewMemDb()
}

// hRun executes one command (args[0] is the lower-case name).
func hRun(db hdb, args ...[]byte) resp.RedisData {
	r := memdb.CmdTable[string(args[0])].Executor(db, args)
	v.Assert(r != nil, "reply-not-nil")
	return r
}

// hDo executes a command given as strings; every argument is a fresh slice.
func hDo(db hdb, args ...string) resp.RedisData {
	cmd := make([][]byte, len(args))
	for i := range args {
		cmd[i] = []byte(args[i])
	}
	return hRun(db, cmd...)
}

func hItoa(n int64) string { return strconv.FormatInt(n, 10) }

// hCopy returns a private copy of b.
func hCopy(b []byte) []byte { return []byte(string(b)) }

// ---- reply observation ----

func isErr(r resp.RedisData) bool { _, ok := r.(*resp.SimpleError); return ok }

// isNil: null bulk string or null array.
func isNil(r resp.RedisData) bool {
	switch x := r.(type) {
	case *resp.BulkString:
		return x.GetData() == nil
	case *resp.RedisArray:
		return x.GetData() == nil
	}
	return false
}

func isOK(r resp.RedisData) bool {
	s, ok := r.(*resp.SimpleString)
	return ok && s.GetData() == "OK"
}

func isInt(r resp.RedisData, n int64) bool {
	i, ok := r.(*resp.Integer)
	if !ok {
		return false
	}
	return i.GetData() == n
}

func isBulk(r resp.RedisData, b []byte) bool {
	s, ok := r.(*resp.BulkString)
	if !ok || s.GetData() == nil {
		return false
	}
	return bEq(s.GetData(), b)
}

// bEq compares without forking on the contents.
func bEq(a, b []byte) bool { return string(a) == string(b) }

func sEq(a, b string) bool { return bEq([]byte(a), []byte(b)) }

// arr returns the elements of an array reply (null array counts as empty).
func arr(r resp.RedisData) ([]resp.RedisData, bool) {
	a, ok := r.(*resp.RedisArray)
	if !ok {
		return nil, false
	}
	return a.GetData(), true
}

// bulkOf returns the payload of a bulk reply.
func bulkOf(r resp.RedisData) ([]byte, bool) {
	s, ok := r.(*resp.BulkString)
	if !ok || s.GetData() == nil {
		return nil, false
	}
	return s.GetData(), true
}

// isBulks: an array reply of exactly these bulk strings (nil = null element).
func isBulks(r resp.RedisData, want [][]byte) bool {
	e, ok := arr(r)
	if !ok || len(e) != len(want) {
		return false
	}
	eq := true
	for i := range e {
		if want[i] == nil {
			if !isNil(e[i]) {
				return false
			}
			continue
		}
		eq = v.And(eq, isBulk(e[i], want[i]))
	}
	return eq
}

// sameReply: two replies are observably the same (null and empty array are not
// distinguished).
func sameReply(a, b resp.RedisData) bool {
	if isErr(a) || isErr(b) {
		return isErr(a) && isErr(b)
	}
	if x, ok := a.(*resp.Integer); ok {
		return isInt(b, x.GetData())
	}
	if x, ok := a.(*resp.SimpleString); ok {
		y, ok := b.(*resp.SimpleString)
		return ok && x.GetData() == y.GetData()
	}
	if x, ok := a.(*resp.RedisArray); ok {
		y, ok := b.(*resp.RedisArray)
		if !ok || len(x.GetData()) != len(y.GetData()) {
			return false
		}
		eq := true
		for i := range x.GetData() {
			eq = v.And(eq, sameReply(x.GetData()[i], y.GetData()[i]))
		}
		return eq
	}
	if isNil(a) || isNil(b) {
		return isNil(a) && isNil(b)
	}
	x, ok := bulkOf(a)
	if !ok {
		return false
	}
	return isBulk(b, x)
}
