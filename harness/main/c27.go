package main

import (
	"errors"
	"flag"
	"io"
	"net"
	"os"

	"gRedis/config"
	v "gRedis/zzverif"
)

// prog is the program, run with a command line; code is its exit status.
type prog struct {
	sut
	code int
}

func hProgram(bindFails bool, args ...string) *prog {
	v.SetClock(clock0)
	v.AllowExit()
	os.Args = append([]string{"gredis"}, args...)
	flag.CommandLine = flag.NewFlagSet("gredis", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	config.Conf = nil
	s := &prog{}
	s.l = &flisten{ev: make(chan any, 64), done: make(chan struct{})}
	v.Listener = func(network, addr string) (net.Listener, error) {
		s.l.opened++
		s.l.network, s.l.addr = network, addr
		if bindFails {
			return nil, errors.New("bind: address already in use")
		}
		return s.l, nil
	}
	go func() {
		defer func() {
			r := recover()
			code := 0
			if e, is := r.(v.Exited); is {
				code = e.Code
			} else if r != nil {
				_, rt := r.(interface{ RuntimeError() })
				_, er := r.(error)
				if rt || !er {
					panic(r)
				}
				code = 2 // the command line is refused
			}
			s.mu.Lock()
			s.ended, s.code = true, code
			s.mu.Unlock()
		}()
		main()
	}()
	settle(func() bool { return s.over() || s.l.opened > 0 })
	return s
}

// refused: the program has ended with a non-zero status and never served.
func (s *prog) refused(label string) {
	settle(s.over)
	v.Assert(s.over(), label+"-ends")
	v.Assert(s.code != 0, label+"-status")
}

// bye: the program ends with status zero on a signal.
func (s *prog) bye() {
	s.stop(hSignal())
	v.Assert(s.code == 0, "status-zero")
}

// settings given on the command line, in the file or not at all reach the
// running server.
func H_C27_run() {
	v.RealLog()
	dir := v.TempDir() + "/log"
	host, port, dbs := "127.0.0.1", 6379, 16
	args := []string{"-logdir", dir, "-loglevel", "debug"}
	if v.Choice("host", 2) == 1 {
		host = []string{"::1", "0.0.0.0"}[v.Choice("which", 2)]
		args = append(args, "-host", host)
	}
	seg := v.Choice("segments", 4)
	if seg > 0 {
		args = append(args, "-segnum", hItoa(int64(seg)))
	}
	m, n := v.Int("port", 1, 65535), 1+v.Choice("dbs", 3)
	switch v.Choice("where", 3) {
	case 0:
		port, dbs = m, n
		args = append(args, "-port", hItoa(int64(m)), "-dbnum", hItoa(int64(n)))
	case 1:
		port, dbs = m, n
		args = append(args, "-config", v.File("redis.conf", b("port "+hItoa(int64(m))+"\ndbnum "+hItoa(int64(n))+"\n")))
	}
	s := hProgram(false, args...)
	v.Assert(!s.over(), "runs")
	v.Assert(s.l.opened == 1, "listens-once")
	h, p, err := net.SplitHostPort(s.l.addr)
	v.Assert(err == nil && h == host, "address-host")
	v.Assert(p == hItoa(int64(port)), "address-port")
	c := s.connect()
	s.served(c, "serves")
	v.Assert(c.askS("select", hItoa(int64(dbs-1))).kind == '+', "databases-as-configured")
	v.Assert(c.askS("select", hItoa(int64(dbs))).kind == '-', "no-more-databases")
	val := v.Bytes("val", v.Choice("len", 3))
	v.Assert(c.ask(b("set"), b("k"), val).kind == '+', "set")
	d := s.connect()
	d.askS("select", hItoa(int64(dbs-1)))
	x := d.askS("get", "k")
	v.Assert(x.kind == '$' && bEq(x.s, val), "get")
	s.bye()
	v.Assert(len(logLines(dir)) > 0, "log-written")
	v.Reach("end")
}

// every documented command can be used in the running program.
func H_C27_commands() {
	s := hProgram(false, "-logdir", v.TempDir(), "-segnum", "2", "-dbnum", "2")
	name := documented[v.Choice("cmd", len(documented))]
	c := s.connect()
	x := c.askS(name)
	known := x.kind != '-' || !has(x.s, b("unknown command"))
	v.Assert(known, "known")
	s.served(c, "serves")
	s.bye()
	v.Reach("end")
}

// the program used for a while by two clients.
func H_C27_session() {
	s := hProgram(false, "-logdir", v.TempDir(), "-segnum", "2", "-dbnum", "2")
	a, c := s.connect(), s.connect()
	x := v.Bytes("x", 2)
	v.Assume(x[0] != x[1])
	y := x[:1]
	num := func(n *node, i int64, label string) { v.Assert(n.kind == ':' && n.n == i, label) }
	left := int64(0)
	switch v.Choice("kind", 5) {
	case 0:
		left = 1
		a.ask(b("append"), b("k"), x)
		num(c.ask(b("append"), b("k"), y), 3, "append")
		v.Assert(bEq(a.askS("get", "k").s, append(dup([][]byte{x})[0], y...)), "get")
	case 1:
		num(a.ask(b("rpush"), b("k"), x, y), 2, "rpush")
		v.Assert(bEq(c.askS("lpop", "k").s, x), "lpop")
		v.Assert(bEq(a.askS("rpop", "k").s, y), "rpop")
	case 2:
		num(a.ask(b("hset"), b("k"), x, y), 1, "hset")
		v.Assert(bEq(c.ask(b("hget"), b("k"), x).s, y), "hget")
		num(c.ask(b("hdel"), b("k"), x), 1, "hdel")
	case 3:
		num(a.ask(b("sadd"), b("k"), x, y, x), 2, "sadd")
		num(c.ask(b("sismember"), b("k"), y), 1, "sismember")
		num(c.ask(b("srem"), b("k"), x, y), 2, "srem")
	case 4:
		num(a.askS("incr", "k"), 1, "incr")
		num(c.askS("decrby", "k", "3"), -2, "decrby")
		num(c.askS("del", "k"), 1, "del")
	}
	if v.Choice("leave", 2) == 1 {
		a.finish()
	}
	num(c.askS("exists", "k"), left, "exists")
	s.bye()
	v.Reach("end")
}

// what cannot be started ends with a status other than zero, without serving.
func H_C27_refused() {
	dir := v.TempDir()
	switch v.Choice("why", 6) {
	case 0:
		s := hProgram(true, "-logdir", dir, "-port", hItoa(int64(v.Int("port", 0, 65535))))
		s.refused("bind-failure")
	case 1:
		bad := [][]string{{"-dbnum", "0"}, {"-segnum", "-1"}, {"-host", "nowhere"}, {"-port", "x"}, {"-nosuch"}, {"-port"}}
		s := hProgram(false, append(append([]string{}, bad[v.Choice("bad", len(bad))]...), "-logdir", dir)...)
		v.Assert(s.l.opened == 0, "does-not-listen")
		s.refused("bad-option")
	case 2:
		s := hProgram(false, "-logdir", dir, "-config", dir+"/no/such")
		v.Assert(s.l.opened == 0, "does-not-listen")
		s.refused("no-file")
	case 3:
		lines := []string{"port", "port x", "segnum 0", "dbnum -3", "host 1.2.3", "dbnum"}
		s := hProgram(false, "-logdir", dir, "-config", v.File("redis.conf", b(lines[v.Choice("line", len(lines))])))
		v.Assert(s.l.opened == 0, "does-not-listen")
		s.refused("bad-file")
	case 4:
		v.File("afile", b("x"))
		s := hProgram(false, "-logdir", dir+"/afile")
		v.Assert(s.l.opened == 0, "does-not-listen")
		s.refused("no-log")
	case 5:
		n := v.Int64("n")
		v.Assume(n <= 0)
		s := hProgram(false, "-logdir", dir, []string{"-segnum", "-dbnum"}[v.Choice("which", 2)], hItoa(n))
		v.Assert(s.l.opened == 0, "does-not-listen")
		s.refused("not-positive")
	}
	v.Reach("end")
}
