package main

import (
	"math"
	"strconv"

	v "gRedis/zzverif"
)

// numStr is a value for a counter: any int64 in decimal, any short byte string,
// or a fixed text near the limits.
func numStr(name string, max int) []byte {
	switch v.Choice(name+"-form", 3) {
	case 0:
		return []byte(hItoa(v.Int64(name)))
	case 1:
		return symS(name, max)
	}
	t := []string{"9223372036854775808", "-9223372036854775809", "9223372036854775807", "-9223372036854775808", "1.5", " 1", "1 ", "+1", "0x1", "1e3", "99999999999999999999999", "-", "007"}
	return []byte(t[v.Choice(name+"-text", len(t))])
}

func H_C06_counter() {
	db := hDB(2)
	d := newRef("k")
	switch v.Choice("pre", 3) {
	case 1:
		d.make(db, 's', "k", numStr("old", 2+v.Tier()))
		if v.Choice("ttl", 2) == 1 {
			d.stepS(db, "setup", "expire", "k", "100")
		}
	case 2:
		d.makeAny(db, kinds[2+v.Choice("kind", 3)], "k")
	}
	switch v.Choice("cmd", 4) {
	case 0:
		d.stepS(db, "reply", "incr", "k")
	case 1:
		d.stepS(db, "reply", "decr", "k")
	case 2:
		d.step(db, "reply", []byte("incrby"), []byte("k"), numStr("by", 2))
	case 3:
		d.step(db, "reply", []byte("decrby"), []byte("k"), numStr("by", 2))
	}
	d.verify(db, "after")
	v.Reach("end")
}

// a run of increments of both signs ends at the exact sum.
func H_C06_steps() {
	db := hDB(1)
	d := newRef("k")
	n := 2 + v.Tier()
	for i := 0; i < n; i++ {
		if v.Choice("op", 2) == 0 {
			d.step(db, "reply", []byte("incrby"), []byte("k"), []byte(hItoa(v.Int64("by"))))
		} else {
			d.step(db, "reply", []byte("decrby"), []byte("k"), []byte(hItoa(v.Int64("by"))))
		}
	}
	d.verify(db, "after")
	v.Reach("end")
}

func H_C06_hash() {
	db := hDB(2)
	d := newRef("h")
	switch v.Choice("pre", 4) {
	case 1:
		d.make(db, 'h', "h", []byte("f"), numStr("old", 2+v.Tier()), []byte("g"), []byte("7"))
	case 2:
		d.make(db, 'h', "h", []byte("g"), []byte("7"))
	case 3:
		d.makeAny(db, 'l', "h")
	}
	d.step(db, "reply", []byte("hincrby"), []byte("h"), []byte("f"), numStr("by", 2))
	if v.Choice("again", 2) == 1 {
		d.step(db, "reply", []byte("hincrby"), []byte("h"), []byte("f"), []byte(hItoa(v.Int64("by2"))))
	}
	d.verify(db, "after")
	v.Reach("end")
}

// floatStr: any double in its shortest decimal form, or a fixed text.
func floatStr(name string) []byte {
	if v.Choice(name+"-form", 2) == 0 {
		f := v.Float(name)
		v.Assume(v.And(finite(f), math.Float64bits(f) != 1<<63)) // -0 may be kept or become 0
		return []byte(strconv.FormatFloat(f, 'f', -1, 64))
	}
	t := []string{"nan", "inf", "-Inf", "+infinity", "1e400", "1e308", "-1e308", "1.5e3", "abc", "", "1,5", "0x10", " 1", "3.0"}
	return []byte(t[v.Choice(name+"-text", len(t))])
}

func H_C06_float() {
	db := hDB(2)
	d := newRef("k")
	h := v.Choice("cmd", 2) == 1
	switch v.Choice("pre", 3) {
	case 1:
		old := floatStr("old")
		if h {
			d.make(db, 'h', "k", []byte("f"), old)
		} else {
			d.make(db, 's', "k", old)
		}
	case 2:
		if h {
			d.make(db, 'h', "k", []byte("g"), []byte("1"))
		} else {
			d.makeAny(db, 'l', "k")
		}
	}
	if h {
		d.step(db, "reply", []byte("hincrbyfloat"), []byte("k"), []byte("f"), floatStr("by"))
	} else {
		d.step(db, "reply", []byte("incrbyfloat"), []byte("k"), floatStr("by"))
	}
	d.verify(db, "after")
	v.Reach("end")
}
