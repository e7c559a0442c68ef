package main

import (
	v "gRedis/zzverif"
)

// glob is the reference: the rules of the property, applied recursively.
// A bracket expression that is never closed matches nothing; '-' between two
// bytes denotes a range.
func glob(p, s []byte) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if glob(p[1:], s[i:]) {
				return true
			}
		}
		return false
	case '?':
		return len(s) > 0 && glob(p[1:], s[1:])
	case '[':
		j := 1
		not := false
		if j < len(p) && p[j] == '^' {
			not = true
			j++
		}
		first := j
		match := false
		for {
			if j >= len(p) {
				return false // unterminated
			}
			if p[j] == ']' {
				break
			}
			if p[j] == '-' && j > first && j+1 < len(p) && p[j+1] != ']' {
				if len(s) > 0 {
					match = v.Or(match, v.And(s[0] >= p[j-1], s[0] <= p[j+1]))
				}
				j += 2
				continue
			}
			if len(s) > 0 {
				match = v.Or(match, p[j] == s[0])
			}
			j++
		}
		if len(s) == 0 {
			return false
		}
		if match == not {
			return false
		}
		return glob(p[j+1:], s[1:])
	}
	return len(s) > 0 && p[0] == s[0] && glob(p[1:], s[1:])
}

// plain: every bracket expression of p is a non-empty list of bytes and
// ascending ranges whose ends are not '-'. Other bracket expressions are
// degenerate: for them only termination is required.
func plain(p []byte) bool {
	for i := 0; i < len(p); i++ {
		if p[i] != '[' {
			continue
		}
		i++
		if i < len(p) && p[i] == '^' {
			i++
		}
		first := i
		for {
			if i >= len(p) {
				return false
			}
			if p[i] == ']' {
				break
			}
			if p[i] == '-' {
				return false
			}
			if i+2 < len(p) && p[i+1] == '-' {
				if v.Or(p[i+2] == ']', v.Or(p[i+2] == '-', p[i+2] < p[i])) {
					return false
				}
				i += 3
				if i < len(p) && p[i] == '-' {
					return false
				}
				continue
			}
			i++
		}
		if i == first {
			return false
		}
	}
	return true
}

func c19(pmax, kmax int) {
	np := v.Choice("plen", pmax+1)
	nk := v.Choice("klen", kmax+1)
	pat := v.Bytes("pattern", np)
	key := v.Bytes("key", nk)
	db := hDB(1)
	hRun(db, []byte("set"), hCopy(key), []byte("v"))
	r := hRun(db, []byte("keys"), hCopy(pat))
	e, ok := arr(r)
	v.Assert(ok, "keys-reply-is-array")
	v.Assert(len(e) <= 1, "keys-lists-once")
	got := len(e) == 1
	if got {
		v.Assert(isBulk(e[0], key), "keys-lists-the-key")
	}
	if !plain(pat) {
		v.Reach("degenerate")
		return
	}
	v.Assert(got == glob(pat, key), "glob-semantics")
	v.Reach("compared")
}

func H_C19_glob() {
	if v.Tier() == 0 {
		c19(5, 4)
	} else {
		c19(6, 5)
	}
}

// longer patterns and keys, with a few arbitrary bytes.
func H_C19_long() {
	fill := func(n int) []byte {
		k := make([]byte, n)
		for i := range k {
			k[i] = "ab"[i&1]
		}
		return k
	}
	n := []int{6, 17, 33, 70}[v.Choice("klen", 4)]
	key := fill(n)
	if v.Choice("last", 2) == 0 {
		key[n-1] = v.Bytes("x", 1)[0]
	} else {
		key[[]int{0, n / 2}[v.Choice("at", 2)]] = 'c'
	}
	c := string(v.Bytes("c", 1))
	h := n / 2
	var pat string
	switch v.Choice("pattern", 14) {
	case 0:
		pat = "*" + c
	case 1:
		pat = c + "*"
	case 2:
		pat = "*" + c + "*"
	case 3:
		pat = string(fill(h)) + "*"
	case 4:
		pat = string(fill(h)) + "*" + c
	case 5:
		pat = "*" + string(key[n-4:])
	case 6:
		for i := 0; i < n; i++ {
			pat += "?"
		}
		if v.Choice("more", 2) == 1 {
			pat += "?"
		}
	case 7:
		for i := 0; i < n-1; i++ {
			pat += "?"
		}
		pat += c
	case 8:
		pat = string(fill(n-1)) + "[^x" + c + "]"
	case 9:
		pat = string(fill(n-1)) + "[b-y]"
	case 10:
		pat = string(fill(n-1)) + c
	case 11:
		pat = string(key)
	case 12:
		v.Assume(n < 18)
		pat = "a*b?*[ab]*" + c
	case 13:
		pat = "[abc]*[" + c + "-z]"
	}
	db := hDB(2)
	hRun(db, []byte("set"), hCopy(key), []byte("v"))
	e, ok := arr(hRun(db, []byte("keys"), []byte(pat)))
	v.Assert(ok, "keys-reply-is-array")
	if !plain([]byte(pat)) {
		return
	}
	v.Assert((len(e) == 1) == glob([]byte(pat), key), "glob-semantics")
	v.Reach("end")
}

// several keys: exactly those that match are listed, each once.
func H_C19_several() {
	db := hDB([]int{1, 3}[v.Choice("segments", 2)])
	x := append(b("a"), v.Bytes("x", 1)...)
	keys := [][]byte{b("a"), b("ab"), b("b"), b("ba"), b("aab"), b("*"), b("[a]"), x}
	v.Assume(x[1] != 'b')
	c := string(v.Bytes("c", 1))
	pats := []string{"*", "?", "??", "a*", "*b", "[ab]", "[^a]*", "*a*", c, c + "*", "[" + c + "]?", "*" + c, "[a-" + c + "]*", ""}
	pat := []byte(pats[v.Choice("pattern", len(pats))])
	for i, k := range keys {
		switch i % 3 {
		case 0:
			hRun(db, []byte("set"), hCopy(k), []byte("v"))
		case 1:
			hRun(db, []byte("rpush"), hCopy(k), []byte("v"))
		case 2:
			hRun(db, []byte("hset"), hCopy(k), []byte("f"), []byte("v"))
		}
	}
	if !plain(pat) {
		return
	}
	e, ok := arr(hRun(db, []byte("keys"), hCopy(pat)))
	v.Assert(ok, "keys-reply-is-array")
	n := 0
	for _, k := range keys {
		if !glob(pat, k) {
			continue
		}
		n++
		there := false
		for _, g := range e {
			there = v.Or(there, isBulk(g, k))
		}
		v.Assert(there, "matching-key-listed")
	}
	v.Assert(len(e) == n, "only-matching-keys-listed")
	v.Reach("end")
}
