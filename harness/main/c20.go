package main

import (
	"strings"

	"gRedis/config"
	v "gRedis/zzverif"
)

// the settings before the file is read.
func before() *config.Config {
	return &config.Config{Host: "9.9.9.9", Port: 77, LogDir: "dir", LogLevel: "warning", SegNum: 5, DbNum: 6}
}

func load(data []byte) (*config.Config, error) {
	c := before()
	c.ConfigFile = v.File("redis.conf", data)
	err := c.ParseConfFile()
	return c, err
}

func sameConf(a, c *config.Config) bool {
	return v.And(v.And(sEq(a.Host, c.Host), a.Port == c.Port), v.And(v.And(sEq(a.LogDir, c.LogDir), foldEq(a.LogLevel, c.LogLevel)), v.And(a.SegNum == c.SegNum, a.DbNum == c.DbNum)))
}

// foldEq: equal up to ASCII case.
func foldEq(a, c string) bool {
	if len(a) != len(c) {
		return false
	}
	eq := true
	for i := 0; i < len(a); i++ {
		eq = v.And(eq, lower(a[i]) == lower(c[i]))
	}
	return eq
}

func lower(c byte) byte {
	return byte(v.Ite(v.And(c >= 'A', c <= 'Z'), int64(c)+32, int64(c)))
}

func space(c byte) bool { return v.Or(c == ' ', v.And(c >= 9, c <= 13)) }

// anyCase: the word in any letter case.
func anyCase(w string) []byte {
	n := len(w)
	if v.Tier() == 0 && n > 4 {
		n = 4 // the rest alternates
	}
	x := v.Bytes("case", n)
	ok := true
	for i := range x {
		ok = v.And(ok, lower(x[i]) == lower(w[i]))
	}
	v.Assume(ok)
	for i := n; i < len(w); i++ {
		c := w[i]
		if i%2 == 0 {
			c -= 32
		}
		x = append(x, c)
	}
	return x
}

// gap: whitespace other than a line break.
func gap() []byte {
	g := v.Bytes("gap", 1+v.Choice("gaplen", 1+v.Tier()))
	ok := true
	for _, c := range g {
		ok = v.And(ok, v.And(space(c), c != '\n'))
	}
	v.Assume(ok)
	return g
}

// plainWord: n bytes that are neither whitespace nor outside ASCII.
func plainWord(tag string, n int) []byte {
	x := v.Bytes(tag, n)
	ok := true
	for _, c := range x {
		ok = v.And(ok, v.And(v.Not(space(c)), c < 0x80))
	}
	v.Assume(ok)
	return x
}

func ending() string {
	return []string{"\n", "", "\r\n", " ", " \t\n", "\t", "\n\n", "\n "}[v.Choice("end", 4+4*v.Tier())]
}

// any few bytes: loading ends, without a panic, and sets nothing.
func H_C20_bytes() {
	n := v.Choice("n", 5+v.Tier())
	x := v.Bytes("file", n)
	ok := true
	for _, c := range x {
		ok = v.And(ok, c < 0x80)
	}
	v.Assume(ok)
	c, err := load(x)
	if err == nil {
		v.Assert(sameConf(c, before()), "nothing-set")
	}
	v.Reach("end")
}

// one setting: name in any case, any whitespace, any value.
func H_C20_setting() {
	names := []string{"host", "port", "logdir", "loglevel", "segnum", "dbnum"}
	i := v.Choice("name", len(names))
	f := []byte(strings.Repeat(" ", v.Choice("indent", 2)))
	f = append(f, anyCase(names[i])...)
	f = append(f, gap()...)
	want := before()
	bad := false
	switch i {
	case 0:
		hosts := []string{"10.0.0.1", "::1", "0.0.0.0", "256.1.1.1", "localhost", "1.2.3", "1.2.3.4.5", "-", "fe80::1"}
		h := v.Choice("host", len(hosts))
		f = append(f, hosts[h]...)
		want.Host = hosts[h]
		bad = h >= 3 && h <= 7
	case 2:
		w := plainWord("value", 1+v.Choice("len", 2+v.Tier()))
		f = append(f, w...)
		want.LogDir = string(w)
	case 3:
		w := plainWord("value", 1+v.Choice("len", 2+v.Tier()))
		f = append(f, w...)
		want.LogLevel = string(w)
	default:
		w := plainWord("value", 1+v.Choice("len", 2+v.Tier()))
		f = append(f, w...)
		n, ok := number(w)
		bad = v.Or(v.Not(ok), v.And(i > 1, n <= 0))
		switch i {
		case 1:
			want.Port = int(n)
		case 4:
			want.SegNum = int(n)
		case 5:
			want.DbNum = int(n)
		}
	}
	f = append(f, ending()...)
	c, err := load(f)
	if err != nil {
		v.Assert(bad, "valid-file-accepted")
	} else {
		v.Assert(v.Not(bad), "malformed-value-rejected")
		v.Assert(sameConf(c, want), "settings-applied")
	}
	v.Reach("end")
}

// number: an optional sign and decimal digits.
func number(w []byte) (int64, bool) {
	neg := false
	if len(w) > 0 && (w[0] == '-' || w[0] == '+') {
		neg = w[0] == '-'
		w = w[1:]
	}
	if len(w) == 0 {
		return 0, false
	}
	var n int64
	ok := true
	for _, c := range w {
		ok = v.And(ok, v.And(c >= '0', c <= '9'))
		n = n*10 + int64(c) - '0'
	}
	if neg {
		n = -n
	}
	return n, ok
}

// large and extreme numbers.
func H_C20_number() {
	name := []string{"port", "segnum", "dbnum"}[v.Choice("name", 3)]
	// first two and last digit any, zeros between
	d, z := digits("d", 3), []int{0, 2, 7, 15}[v.Choice("zeros", 4)]
	text := string(d[:2]) + strings.Repeat("0", z) + string(d[2:])
	n := int64(d[0]-'0')*10 + int64(d[1]-'0')
	for i := 0; i < z; i++ {
		n *= 10
	}
	n = n*10 + int64(d[2]-'0')
	if v.Choice("minus", 2) == 1 {
		text = "-" + text
		n = -n
	}
	want := before()
	bad := false
	switch name {
	case "port":
		want.Port = int(n)
	case "segnum":
		want.SegNum = int(n)
		bad = n <= 0
	case "dbnum":
		want.DbNum = int(n)
		bad = n <= 0
	}
	switch v.Choice("edge", 4) {
	case 1:
		text = "92233720368547758070"
		bad = true
	case 2:
		text = "9223372036854775808"
		bad = true
	case 3:
		text = "-9223372036854775809"
		bad = true
	}
	c, err := load([]byte(name + " " + text + "\n"))
	if err != nil {
		v.Assert(bad, "valid-file-accepted")
	} else {
		v.Assert(v.Not(bad), "malformed-value-rejected")
		v.Assert(sameConf(c, want), "settings-applied")
	}
	v.Reach("end")
}

// files of several lines.
func H_C20_file() {
	want := before()
	var f []byte
	bad := false
	n := 1 + v.Choice("lines", 3+v.Tier())
	for i := 0; i < n; i++ {
		switch v.Choice("line", 12) {
		case 0:
			f = append(f, "host 1.2.3.4"...)
			want.Host = "1.2.3.4"
		case 1:
			d := digits("port", 2)
			f = append(append(f, "Port\t"...), d...)
			want.Port = int(d[0]-'0')*10 + int(d[1]-'0')
		case 2:
			w := plainWord("dir", 2)
			f = append(append(f, "logdir  "...), w...)
			want.LogDir = string(w)
		case 3:
			w := plainWord("level", 1)
			f = append(append(f, " LOGLEVEL "...), w...)
			want.LogLevel = string(w)
		case 4:
			d := digits("seg", 1)
			f = append(append(f, "segnum "...), d...)
			want.SegNum = int(d[0] - '0')
			bad = v.Or(bad, d[0] == '0')
		case 5:
			f = append(f, "dbnum 3"...)
			want.DbNum = 3
		case 6:
		case 7:
			f = append(f, " \t"...)
		case 8:
			f = append(f, "unknown thing"...)
		case 9:
			f = append(f, "port"...)
			bad = true
		case 10:
			f = append(f, "dbnum zero"...)
			bad = true
		case 11:
			f = append(f, "host nowhere"...)
			bad = true
		}
		if i < n-1 || v.Choice("newline", 2) == 1 {
			f = append(f, '\n')
		}
	}
	c, err := load(f)
	if err != nil {
		v.Assert(bad, "valid-file-accepted")
	} else {
		v.Assert(v.Not(bad), "malformed-file-rejected")
		v.Assert(sameConf(c, want), "settings-applied")
	}
	v.Reach("end")
}

// a file that is not there.
func H_C20_missing() {
	c := before()
	c.ConfigFile = v.TempDir() + "/no/such/file"
	v.Assert(c.ParseConfFile() != nil, "missing-file-is-an-error")
	v.Reach("end")
}

// long lines, across the read buffer.
func H_C20_long() {
	pad := []int{100, 4080, 4090, 4096, 5000}[v.Choice("pad", 5)]
	w := plainWord("dir", 2)
	f := append([]byte("logdir"+strings.Repeat(" ", pad)), w...)
	f = append(f, "\nport 1234"...)
	want := before()
	want.LogDir = string(w)
	want.Port = 1234
	c, err := load(f)
	v.Assert(err == nil, "valid-file-accepted")
	v.Assert(sameConf(c, want), "settings-applied")
	v.Reach("end")
}

// many lines: comments and settings repeated, the last one counting.
func H_C20_many() {
	v.Steps(400_000_000)
	n := []int{5, 17, 40, 150, 600}[v.Choice("lines", 5)]
	at := v.Choice("at", 3)
	want := before()
	var f []byte
	for i := 0; i < n; i++ {
		switch {
		case i == at*(n-1)/2:
			d := digits("port", 3)
			f = append(append(f, "port "...), d...)
			want.Port = int(d[0]-'0')*100 + int(d[1]-'0')*10 + int(d[2]-'0')
		case i%4 == 1:
			f = append(f, "dbnum "+hItoa(int64(i))...)
			want.DbNum = i
		case i%4 == 3:
			w := plainWord("dir", 1)
			f = append(append(f, "logdir "...), w...)
			want.LogDir = string(w)
		case i%4 == 2:
			f = append(f, " \t "...)
		}
		if i < n-1 || v.Choice("newline", 2) == 1 {
			f = append(f, '\n')
		}
	}
	c, err := load(f)
	v.Assert(err == nil, "valid-file-accepted")
	v.Assert(sameConf(c, want), "settings-applied")
	v.Reach("end")
}
