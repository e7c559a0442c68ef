package main

import (
	"os"

	"gRedis/logger"
	v "gRedis/zzverif"
)

var levels = []string{"debug", "info", "warning", "panic", "error"}

// say logs one message at the level.
func say(level int, msg ...any) {
	switch level {
	case 0:
		logger.Debug(msg...)
	case 1:
		logger.Info(msg...)
	case 2:
		logger.Warning(msg...)
	case 3:
		logger.Panic(msg...)
	case 4:
		logger.Error(msg...)
	}
}

// logLines: the lines of the log file in dir.
func logLines(dir string) [][]byte {
	data, err := os.ReadFile(dir + "/redis.log")
	v.Assert(err == nil, "log-file-there")
	v.Assert(len(data) == 0 || data[len(data)-1] == '\n', "whole-lines")
	var out [][]byte
	from := 0
	for i, c := range data {
		if c == '\n' {
			out = append(out, data[from:i])
			from = i + 1
		}
	}
	return out
}

// has: line contains w.
func has(line, w []byte) bool {
	r := false
	for i := 0; i+len(w) <= len(line); i++ {
		r = v.Or(r, bEq(line[i:i+len(w)], w))
	}
	return r
}

// logged: line is the record of msg at the level.
func logged(line []byte, level int, msg []byte) {
	v.Assert(has(line, []byte(levels[level])), "level-named")
	v.Assert(has(line, msg), "message-complete")
	for i, l := range levels {
		v.Assert(i == level || !has(line, []byte(l)), "only-its-level-named")
	}
}

func logTo(dir, level string) {
	c := defaults()
	c.LogDir, c.LogLevel = dir, level
	v.Assert(logger.Init(c) == nil, "logger-starts")
}

// upper: the word with its first letters in upper case.
func upper(w string, n int) string {
	o := []byte(w)
	for i := 0; i < len(o) && i < n; i++ {
		o[i] -= 32
	}
	return string(o)
}

// from the settings to the file: exactly the messages at or above the level.
func H_C25_levels() {
	v.RealLog()
	v.SetClock(clock0)
	dir := v.TempDir() + "/log"
	l := v.Choice("level", 7)
	name := "info"
	if l < 5 {
		name = levels[l]
	}
	name = upper(name, []int{0, 1, 9}[v.Choice("case", 3)])
	args := []string{"-logdir", dir}
	switch {
	case l == 5: // not given
		l = 1
	case l == 6: // no such level
		args = append(args, "-loglevel", "loud")
		l = 1
	case v.Choice("file", 2) == 0:
		args = append(args, "-loglevel", name)
	default:
		args = append(args, "-config", v.File("redis.conf", []byte("loglevel "+name+"\n")))
	}
	c, ok := start(args...)
	v.Assert(ok, "settings-accepted")
	v.Assert(logger.Init(c) == nil, "logger-starts")
	var want []int
	n := 3 + v.Tier()
	for i := 0; i < n; i++ {
		k := v.Choice("at", 5)
		say(k, "message", i)
		if k >= l {
			want = append(want, k*10+i)
		}
	}
	got := logLines(dir)
	v.Assert(len(got) == len(want), "one-line-per-message")
	for i, x := range want {
		logged(got[i], x/10, []byte("message "+hItoa(int64(x%10))))
	}
	v.Reach("end")
}

// any message.
func H_C25_message() {
	v.RealLog()
	v.SetClock(clock0)
	logTo(v.TempDir(), "debug")
	level := v.Choice("at", 5)
	var msg []byte
	switch v.Choice("what", 4) {
	case 0:
		msg = v.Bytes("msg", v.Choice("len", 4+v.Tier()))
		for _, c := range msg {
			v.Assume(c != '\n')
		}
		say(level, string(msg))
	case 1:
		n := v.Int("n", -1000, 1000)
		msg = b(hItoa(int64(n)))
		say(level, n)
	case 2:
		msg = b("%d%s%")
		say(level, "%d%s%")
	case 3:
		for i := 0; i < 100; i++ {
			msg = append(msg, "0123456789"...)
		}
		say(level, string(msg))
	}
	got := logLines(v.TempDir())
	v.Assert(len(got) == 1, "one-line-per-message")
	v.Assert(has(got[0], msg), "message-complete")
	v.Assert(has(got[0], b(levels[level])), "level-named")
	v.Reach("end")
}

// a restart keeps what was logged before.
func H_C25_restart() {
	v.RealLog()
	v.SetClock(clock0)
	dir := v.TempDir() + "/log"
	var want []int
	n := 0
	runs := 2 + v.Tier()
	for r := 0; r < runs; r++ {
		logTo(dir, "info")
		for i := v.Choice("messages", 3); i > 0; i-- {
			k := v.Choice("at", 2)*3 + 1
			say(k, "message", n)
			want = append(want, k*10+n)
			n++
		}
	}
	got := logLines(dir)
	v.Assert(len(got) == len(want), "one-line-per-message")
	for i, x := range want {
		logged(got[i], x/10, []byte("message "+hItoa(int64(x%10))))
	}
	v.Reach("end")
}

// log directories.
func H_C25_directory() {
	v.RealLog()
	v.SetClock(clock0)
	base := v.TempDir()
	v.File("afile", b("x"))
	dirs := []string{base, base + "/", base + "/new", base + "/new/", base + "/new/er", base + "/afile", base + "/./a b", base + "/afile/x"}
	k := v.Choice("dir", len(dirs))
	c := defaults()
	c.LogDir = dirs[k]
	err := logger.Init(c)
	if k < 4 || k == 6 {
		v.Assert(err == nil, "logger-starts")
	}
	if k == 5 || k == 7 {
		v.Assert(err != nil, "no-directory-is-an-error")
	}
	if err == nil {
		say(4, "hello")
		got := logLines(dirs[k])
		v.Assert(len(got) == 1, "one-line-per-message")
		logged(got[0], 4, b("hello"))
	}
	v.Reach("end")
}

// messages of several clients at once are neither mixed nor lost.
func H_C25_concurrent() {
	v.RealLog()
	v.SetClock(clock0)
	min := v.Choice("level", 3)
	logTo(v.TempDir(), levels[min])
	a, c := v.Choice("a", 5), v.Choice("c", 5)
	two := v.Choice("two", 2)
	v.Par(3+v.Tier(),
		func() {
			say(a, "first", 1)
			if two == 1 {
				say(c, "third", 3)
			}
		},
		func() { say(c, "second", 2) })
	got := logLines(v.TempDir())
	n := 0
	check := func(level int, msg string) {
		if level < min {
			return
		}
		n++
		seen := 0
		for _, l := range got {
			if has(l, b(msg)) {
				seen++
				logged(l, level, b(msg))
			}
		}
		v.Assert(seen == 1, "logged-once")
	}
	check(a, "first 1")
	check(c, "second 2")
	if two == 1 {
		check(c, "third 3")
	}
	v.Assert(len(got) == n, "one-line-per-message")
	v.Reach("end")
}
