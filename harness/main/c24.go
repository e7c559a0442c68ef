package main

import (
	"flag"
	"io"
	"os"
	"strings"

	"gRedis/config"
	v "gRedis/zzverif"
)

// start reads a command line; ok is false if it was refused (with an error, or
// with the usage text and the end of the process).
func start(args ...string) (c *config.Config, ok bool) {
	v.AllowExit()
	os.Args = append([]string{"gredis"}, args...)
	flag.CommandLine = flag.NewFlagSet("gredis", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	config.Conf = nil
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, is := r.(v.Exited); !is {
			_, rt := r.(interface{ RuntimeError() })
			_, er := r.(error)
			if rt || !er {
				panic(r)
			}
		}
		c, ok = nil, false
	}()
	c, err := config.Init()
	if err != nil {
		return nil, false
	}
	v.Assert(c != nil && config.Conf == c, "settings-in-force")
	return c, true
}

func defaults() *config.Config {
	return &config.Config{Host: "127.0.0.1", Port: 6379, LogDir: "./", LogLevel: "info", SegNum: 100, DbNum: 16}
}

// opt writes one option in any of its forms.
func opt(name, value string) []string {
	switch v.Choice("form", 4) {
	case 0:
		return []string{"-" + name, value}
	case 1:
		return []string{"--" + name, value}
	case 2:
		return []string{"-" + name + "=" + value}
	}
	return []string{"--" + name + "=" + value}
}

var flagNames = []string{"host", "port", "logdir", "loglevel", "segnum", "dbnum"}

var flagHosts = []string{"10.0.0.1", "::1", "0.0.0.0", "fe80::1", "256.1.1.1", "localhost", "1.2.3", "", "-"}

// set changes one setting in the expectation.
func setConf(c *config.Config, i int, n int64) {
	switch i {
	case 1:
		c.Port = int(n)
	case 4:
		c.SegNum = int(n)
	case 5:
		c.DbNum = int(n)
	}
}

// nothing said: the documented defaults.
func H_C24_defaults() {
	c, ok := start()
	v.Assert(ok, "accepted")
	v.Assert(sameConf(c, defaults()), "defaults")
	v.Reach("end")
}

// one option with any value.
func H_C24_option() {
	i := v.Choice("name", len(flagNames))
	want := defaults()
	val := ""
	bad, loose := false, false
	switch i {
	case 0:
		h := v.Choice("host", len(flagHosts))
		val = flagHosts[h]
		want.Host = val
		bad = h >= 4
	case 2:
		val = string(plainWord("value", 1+v.Choice("len", 2+v.Tier())))
		want.LogDir = val
	case 3:
		val = string(plainWord("value", 1+v.Choice("len", 2+v.Tier())))
		want.LogLevel = val
	default:
		w := plainWord("value", 1+v.Choice("len", 2+v.Tier()))
		val = string(w)
		n, ok := number(w)
		bad = v.Or(v.Not(ok), v.And(i > 1, n <= 0))
		// other notations of integers (leading zeros, base prefixes, underscores) are left open
		d := w
		if len(d) > 1 && (d[0] == '-' || d[0] == '+') {
			d = d[1:]
		}
		if len(d) > 1 && (d[0] == '0' || len(d) > 2 && d[1] == '_') {
			loose = true
		}
		setConf(want, i, n)
	}
	c, ok := start(opt(flagNames[i], val)...)
	switch {
	case loose:
		if ok {
			v.Assert(v.And(c.SegNum > 0, c.DbNum > 0), "usable")
		}
	case !ok:
		v.Assert(bad, "valid-option-accepted")
	default:
		v.Assert(v.Not(bad), "malformed-value-rejected")
		v.Assert(sameConf(c, want), "settings-applied")
	}
	v.Reach("end")
}

// any integer.
func H_C24_number() {
	i := []int{1, 4, 5}[v.Choice("name", 3)]
	n := v.Int64("n")
	want := defaults()
	setConf(want, i, n)
	bad := v.And(i > 1, n <= 0)
	text := hItoa(n)
	if v.Choice("beyond", 4) == 0 {
		text = []string{"9223372036854775808", "-9223372036854775809", "92233720368547758070"}[v.Choice("big", 3)]
		bad = true
	}
	c, ok := start(opt(flagNames[i], text)...)
	if !ok {
		v.Assert(bad, "valid-option-accepted")
	} else {
		v.Assert(v.Not(bad), "malformed-value-rejected")
		v.Assert(sameConf(c, want), "settings-applied")
	}
	v.Reach("end")
}

// several options in any order, the last of each counting.
func H_C24_several() {
	want := defaults()
	var args []string
	n := 2 + v.Choice("n", 2)
	for k := 0; k < n; k++ {
		i := v.Choice("name", len(flagNames))
		val := ""
		switch i {
		case 0:
			val = flagHosts[v.Choice("host", 2)]
			want.Host = val
		case 2:
			val = "d" + string(plainWord("dir", 1))
			want.LogDir = val
		case 3:
			val = []string{"debug", "error"}[v.Choice("level", 2)]
			want.LogLevel = val
		default:
			m := int64(v.Int("value", 1, 99999))
			val = hItoa(m)
			setConf(want, i, m)
		}
		args = append(args, opt(flagNames[i], val)...)
	}
	c, ok := start(args...)
	v.Assert(ok, "valid-option-accepted")
	v.Assert(sameConf(c, want), "settings-applied")
	v.Reach("end")
}

// options together with a configuration file, which has the last word.
func H_C24_file() {
	want := defaults()
	var f []byte
	bad := false
	m := v.Int("m", 1, 999)
	switch v.Choice("line", 7) {
	case 0:
		f = append(f, "host 1.2.3.4\n"...)
		want.Host = "1.2.3.4"
	case 1:
		f = append(f, ("port " + hItoa(int64(m)))...)
		want.Port = m
	case 2:
		f = append(f, "logdir x\nLogLevel error"...)
		want.LogDir, want.LogLevel = "x", "error"
	case 3:
		f = append(f, ("dbnum " + hItoa(int64(m)) + "\nsegnum 3\n")...)
		want.DbNum, want.SegNum = m, 3
	case 4:
	case 5:
		f = append(f, "segnum 0"...)
		bad = true
	case 6:
		f = append(f, "port"...)
		bad = true
	}
	open := false // refusing and accepting are both fine
	args := opt("config", v.File("redis.conf", f))
	var other []string
	in := func(w string) bool { return strings.Contains(string(f), w) }
	o := v.Int("o", 1, 99999)
	switch v.Choice("other", 8) {
	case 5:
		other = opt("host", "nowhere")
		if !in("host") {
			bad = true
		}
		open = in("host")
	case 6:
		other = opt([]string{"segnum", "dbnum"}[v.Choice("which", 2)], "0")
		open = true
		if !in("num") {
			bad, open = true, false
		}
	case 7:
		other = opt("port", "x")
		bad = true
	case 0:
		other = opt("host", "::1")
		if !in("host") {
			want.Host = "::1"
		}
	case 1:
		other = opt("port", hItoa(int64(o)))
		if !in("port") {
			want.Port = o
		}
	case 2:
		other = opt("dbnum", hItoa(int64(o)))
		if !in("dbnum") {
			want.DbNum = o
		}
	case 3:
		other = opt("segnum", hItoa(int64(o)))
		if !in("segnum") {
			want.SegNum = o
		}
	}
	if v.Choice("first", 2) == 0 {
		args = append(args, other...)
	} else {
		args = append(other, args...)
	}
	c, ok := start(args...)
	if !ok {
		v.Assert(bad || open, "valid-start-accepted")
	} else {
		v.Assert(v.Not(bad), "malformed-start-rejected")
		v.Assert(open || sameConf(c, want), "settings-applied")
		v.Assert(c.SegNum > 0 && c.DbNum > 0, "usable")
	}
	v.Reach("end")
}

// what is no option is refused.
func H_C24_wrong() {
	var args []string
	switch v.Choice("what", 5) {
	case 0: // a name of a few letters, none of which is an option
		w := v.Bytes("name", 1+v.Choice("len", 2+v.Tier()))
		lower := true
		for _, c := range w {
			lower = v.And(lower, v.And(c >= 'a', c <= 'z'))
		}
		v.Assume(lower)
		args = []string{"-" + string(w), "1"}
	case 1: // an option without its value
		args = []string{"-" + flagNames[v.Choice("name", len(flagNames))]}
	case 2:
		args = []string{"-config", v.TempDir() + "/no/such/file"}
	case 3:
		args = []string{"-port", "80", "-nosuch"}
	case 4: // a name extended or cut short
		w := flagNames[v.Choice("name", len(flagNames))]
		if v.Choice("cut", 2) == 0 {
			w = w[:len(w)-1]
		} else {
			w += string(plainWord("more", 1))
			v.Assume(w[len(w)-1] != '=')
		}
		args = []string{"-" + w, "1"}
	}
	_, ok := start(args...)
	v.Assert(!ok, "refused")
	v.Reach("end")
}

// a server can be made from every accepted command line.
func H_C24_usable() {
	seg, dbs := int64(v.Int("seg", -3, 4)), int64(v.Int("dbs", -3, 4))
	c, ok := start("-segnum", hItoa(seg), "-dbnum", hItoa(dbs), "-logdir", v.TempDir())
	if ok {
		m := hServer(c.SegNum, c.DbNum)
		alive(m, "serves")
	} else {
		v.Assert(seg <= 0 || dbs <= 0, "valid-start-accepted")
	}
	v.Reach("end")
}
