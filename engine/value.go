package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value any

type Str struct {
	b   []*Term
	opq *Opaque
}

// Opaque is a string known only as the rendering of a symbolic number; its
// bytes are materialised (by case split on the number of digits) on demand.
type Opaque struct {
	kind byte // 'd' decimal of signed 64-bit, 'f' FormatFloat(x,'f',-1,64)
	t    *Term
	mat  []*Term
	done bool
}

type Arr struct {
	e   []value
	opq *Opaque // lazily materialised byte array
}

type Slice struct {
	arr      *Arr
	off      int
	len, cap int
	lazy     bool
}

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type Closure struct {
	fn  *ssa.Function
	env []value
}

type builtinFn struct{ name string }

type nativeFn struct {
	name string
	f    func(th *Thread, args []value) value
}

type mapEntry struct {
	k    value
	v    value
	dead bool
}

type Map struct {
	kt   types.Type
	ents []*mapEntry
	n    int
	loc  value // identity for race detection
	idx  map[string]*mapEntry
}

type mapIter struct {
	m    *Map
	rem  []*mapEntry
	init bool
}

type strIter struct {
	s   Str
	pos int
}

type Chan struct {
	cap    int
	buf    []value
	closed bool
	vc     []VC
	closeC VC
	// unbuffered hand-over
	handed    bool
	slot      value
	slotVC    VC
	recvVC    VC
	slotTaken *bool
	recvWait  int
}

type sliceData struct{ s Slice }

type bad struct{}

func (p *Path) strC(s string) Str {
	b := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = p.tf.C(8, uint64(s[i]))
	}
	return Str{b: b}
}

func (s Str) concrete() (string, bool) {
	if s.opq != nil {
		return "", false
	}
	var sb strings.Builder
	for _, t := range s.b {
		if !t.isConst() {
			return "", false
		}
		sb.WriteByte(byte(t.k))
	}
	return sb.String(), true
}

// bytes returns the byte terms of a string, materialising if needed.
func (p *Path) bytes(s Str) []*Term {
	if s.opq != nil {
		return p.materialize(s.opq)
	}
	return s.b
}

func (p *Path) materialize(o *Opaque) []*Term {
	if o.done {
		return o.mat
	}
	if o.kind == 'f' {
		if o.t.isConst() {
			s := fmtFloat(o.t.k)
			o.mat = p.strC(s).b
			o.done = true
			return o.mat
		}
		p.unsupported("bytes of a symbolic float rendering")
	}
	tf := p.tf
	if o.t.isConst() {
		o.mat = p.strC(fmt.Sprint(int64(o.t.k))).b
		o.done = true
		return o.mat
	}
	neg := p.branch(tf.Slt(o.t, tf.C(64, 0)))
	mag := o.t
	if neg {
		mag = tf.Neg(o.t)
	}
	// number of digits
	n := 1
	lim := uint64(10)
	for n < 19 {
		if p.branch(tf.Ult(mag, tf.C(64, lim))) {
			break
		}
		n++
		lim *= 10
	}
	var out []*Term
	if neg {
		out = append(out, tf.C(8, '-'))
	}
	// digits as fresh bytes tied to the magnitude
	sum := tf.C(64, 0)
	cond := tf.True
	for i := 0; i < n; i++ {
		d := p.fresh("dig", 8)
		cond = tf.BAnd(cond, tf.BAnd(tf.Ule(tf.C(8, '0'), d), tf.Ule(d, tf.C(8, '9'))))
		sum = tf.Add(tf.Mul(sum, tf.C(64, 10)), tf.Zext(tf.Sub(d, tf.C(8, '0')), 64))
		out = append(out, d)
	}
	if n > 1 {
		cond = tf.BAnd(cond, tf.Ult(tf.C(8, '0'), out[len(out)-n]))
	}
	p.assume(tf.BAnd(cond, tf.Eq(sum, mag)))
	o.mat = out
	o.done = true
	if p.mats == nil {
		p.mats = map[*Term]*Opaque{}
	}
	p.mats[out[len(out)-1]] = o
	return out
}

// reopen recognises the bytes of a number that was materialised before, so that
// parsing or comparing them works on the number again.
func (p *Path) reopen(s Str) Str {
	if s.opq != nil || len(s.b) == 0 || p.mats == nil {
		return s
	}
	o := p.mats[s.b[len(s.b)-1]]
	if o == nil || len(o.mat) != len(s.b) {
		return s
	}
	for i, t := range o.mat {
		if s.b[i] != t {
			return s
		}
	}
	return Str{opq: o}
}

// force materialises a lazy slice.
func (p *Path) force(s Slice) Slice {
	if !s.lazy {
		return s
	}
	a := s.arr
	if a.opq != nil {
		bs := p.materialize(a.opq)
		a.e = make([]value, len(bs))
		for i, b := range bs {
			a.e[i] = b
		}
		a.opq = nil
	}
	return Slice{arr: a, off: 0, len: len(a.e), cap: len(a.e)}
}

func (p *Path) strToBytes(s Str) Slice {
	if s.opq != nil && !s.opq.done {
		return Slice{arr: &Arr{opq: s.opq}, lazy: true}
	}
	bs := p.bytes(s)
	n := len(bs)
	c := roundupsize(n)
	if n == 0 {
		c = 0
	}
	e := make([]value, c)
	for i, b := range bs {
		e[i] = b
	}
	z := p.tf.C(8, 0)
	for i := n; i < c; i++ {
		e[i] = z
	}
	return Slice{arr: &Arr{e: e}, len: n, cap: c}
}

func (th *Thread) bytesToStr(s Slice) Str {
	p := th.p
	if s.lazy && s.arr.opq != nil {
		return Str{opq: s.arr.opq}
	}
	s = p.force(s)
	b := make([]*Term, s.len)
	for i := 0; i < s.len; i++ {
		loc := &s.arr.e[s.off+i]
		th.access(loc, false)
		b[i] = (*loc).(*Term)
	}
	return Str{b: b}
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096}

func roundupsize(n int) int {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) &^ 8191
}

func sizeOf(t types.Type) int {
	s := types.StdSizes{WordSize: 8, MaxAlign: 8}
	return int(s.Sizeof(t))
}

func growCap(oldCap, need, elem int) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if need > doublecap {
		newcap = need
	} else {
		if oldCap < 256 {
			newcap = doublecap
		} else {
			for newcap < need {
				newcap += (newcap + 3*256) >> 2
			}
		}
	}
	if elem == 0 {
		return need
	}
	return roundupsize(newcap*elem) / elem
}

func (p *Path) zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsString != 0:
			return Str{}
		case t.Info()&types.IsBoolean != 0:
			return p.tf.False
		case t.Info()&types.IsComplex != 0:
			return nil
		case t.Kind() == types.UnsafePointer:
			return (*value)(nil)
		default:
			return p.tf.C(width(t), 0)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = p.zero(t.Elem())
		}
		return a
	case *types.Named, *types.Alias:
		return p.zero(t.Underlying())
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return Slice{}
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = p.zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return p.zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = p.zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		p.unsupported("zero of type param")
	}
	p.unsupported("zero %T", t)
	return nil
}

func width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(abortSignal{"unsupported: width of " + t.String()})
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Float32:
		return 64 // modelled as float64
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	case array:
		n := make(array, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	}
	return v
}

// strEq builds the term s == t.
func (p *Path) strEq(a, b Str) *Term {
	a, b = p.reopen(a), p.reopen(b)
	if a.opq != nil && b.opq != nil {
		if a.opq == b.opq {
			return p.tf.True
		}
		if a.opq.kind == b.opq.kind {
			return p.tf.Eq(a.opq.t, b.opq.t)
		}
	}
	if a.opq != nil || b.opq != nil {
		// decimal vs concrete canonical string
		o, s := a, b
		if b.opq != nil {
			o, s = b, a
		}
		if o.opq.kind == 'd' && s.opq == nil {
			if c, ok := s.concrete(); ok {
				if n, ok := canonInt(c); ok {
					return p.tf.Eq(o.opq.t, p.tf.C(64, uint64(n)))
				}
				return p.tf.False
			}
			if t, ok := decTerm(p, s); ok {
				return t(o.opq.t)
			}
		}
		if !o.opq.done && o.opq.kind == 'f' && s.opq == nil {
			if c, ok := s.concrete(); ok {
				if bits, ok := canonFloat(c); ok {
					return p.tf.Eq(o.opq.t, p.tf.C(64, bits))
				}
				return p.tf.False
			}
		}
	}
	x, y := p.bytes(a), p.bytes(b)
	if len(x) != len(y) {
		return p.tf.False
	}
	r := p.tf.True
	for i := range x {
		r = p.tf.BAnd(r, p.tf.Eq(x[i], y[i]))
		if r == p.tf.False {
			return r
		}
	}
	return r
}

// decTerm: equality of a decimal rendering with a short string of symbolic
// bytes, without case splitting.
func decTerm(p *Path, s Str) (func(*Term) *Term, bool) {
	n := len(s.b)
	if n > 18 {
		return nil, false
	}
	return func(t *Term) *Term {
		tf := p.tf
		if n == 0 {
			return tf.False
		}
		isd := func(b *Term) *Term {
			return tf.BAnd(tf.Ule(tf.C(8, '0'), b), tf.Ule(b, tf.C(8, '9')))
		}
		num := func(bs []*Term) (*Term, *Term) { // value, canonical
			ok := tf.True
			sum := tf.C(64, 0)
			for _, b := range bs {
				ok = tf.BAnd(ok, isd(b))
				sum = tf.Add(tf.Mul(sum, tf.C(64, 10)), tf.Zext(tf.Sub(b, tf.C(8, '0')), 64))
			}
			if len(bs) > 1 {
				ok = tf.BAnd(ok, tf.Not(tf.Eq(bs[0], tf.C(8, '0'))))
			}
			return sum, ok
		}
		v, ok := num(s.b)
		r := tf.BAnd(ok, tf.Eq(v, t))
		if n > 1 {
			v2, ok2 := num(s.b[1:])
			ok2 = tf.BAnd(ok2, tf.Not(tf.Eq(v2, tf.C(64, 0))))
			r = tf.BOr(r, tf.BAnd(tf.Eq(s.b[0], tf.C(8, '-')), tf.BAnd(ok2, tf.Eq(tf.Neg(v2), t))))
		}
		return r
	}, true
}

func (p *Path) strLt(a, b Str) *Term {
	x, y := p.bytes(a), p.bytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := p.tf.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = p.tf.BOr(p.tf.Ult(x[i], y[i]), p.tf.BAnd(p.tf.Eq(x[i], y[i]), r))
	}
	return r
}

// equals builds the term x == y for values of static type t.
func (p *Path) equals(t types.Type, x, y value) *Term {
	switch x := x.(type) {
	case *Term:
		yt := y.(*Term)
		if t != nil && isFloat(t) {
			if x.isConst() && yt.isConst() {
				return p.tf.bin(OFEq, 0, x, yt)
			}
			return p.tf.mk(OFEq, 0, x, yt, nil, 0)
		}
		return p.tf.Eq(x, yt)
	case Str:
		return p.strEq(x, y.(Str))
	case *value:
		yp, ok := y.(*value)
		return p.tf.Bool(ok && x == yp)
	case *Map:
		yp, ok := y.(*Map)
		return p.tf.Bool(ok && x == yp)
	case *Chan:
		yp, ok := y.(*Chan)
		return p.tf.Bool(ok && x == yp)
	case Slice:
		ys, ok := y.(Slice)
		if !ok {
			p.unsupported("slice compare")
		}
		return p.tf.Bool(x.arr == nil && ys.arr == nil)
	case iface:
		yi, ok := y.(iface)
		if !ok {
			p.unsupported("iface compare %T", y)
		}
		if x.t == nil || yi.t == nil {
			return p.tf.Bool(x.t == nil && yi.t == nil)
		}
		if !types.Identical(x.t, yi.t) {
			return p.tf.False
		}
		return p.equals(x.t, x.v, yi.v)
	case structure:
		r := p.tf.True
		ys := y.(structure)
		st, _ := t.Underlying().(*types.Struct)
		for i := range x {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			r = p.tf.BAnd(r, p.equals(ft, x[i], ys[i]))
		}
		return r
	case array:
		r := p.tf.True
		ys := y.(array)
		var et types.Type
		if at, ok := t.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		for i := range x {
			r = p.tf.BAnd(r, p.equals(et, x[i], ys[i]))
		}
		return r
	case *ssa.Function:
		switch y := y.(type) {
		case *ssa.Function:
			return p.tf.Bool(x == y)
		case *Closure:
			return p.tf.Bool(false)
		}
		return p.tf.Bool(x == nil && y == nil)
	case *Closure:
		if yf, ok := y.(*ssa.Function); ok && yf == nil {
			return p.tf.False
		}
		if yc, ok := y.(*Closure); ok {
			return p.tf.Bool(x == yc)
		}
		return p.tf.False
	case *nativeFn:
		return p.tf.False
	case nil:
		return p.tf.Bool(y == nil)
	case sliceData:
		return p.tf.False
	}
	p.unsupported("equals %T %T", x, y)
	return nil
}

// concrete map key for fast indexing, if the key is fully concrete.
func ckey(k value) (string, bool) {
	switch k := k.(type) {
	case *Term:
		if k.isConst() {
			return fmt.Sprintf("i%d", k.k), true
		}
	case Str:
		if s, ok := k.concrete(); ok {
			return "s" + s, true
		}
	}
	return "", false
}

// lookup forks on key equality with the entries.
func (p *Path) mapLookup(m *Map, k value) *mapEntry {
	if m == nil {
		return nil
	}
	if len(m.ents) > 8 {
		if ck, ok := ckey(k); ok && m.idx != nil {
			return m.idx[ck]
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if p.branch(p.equals(m.kt, k, e.k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *Map, k, v value) {
	if e := p.mapLookup(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if len(m.ents) == 1 {
		m.idx = map[string]*mapEntry{}
	}
	if m.idx != nil {
		if ck, ok := ckey(k); ok {
			m.idx[ck] = e
		} else {
			m.idx = nil // symbolic key present: no fast index
		}
	}
}

func (p *Path) mapDelete(m *Map, k value) {
	e := p.mapLookup(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	for i, x := range m.ents {
		if x == e {
			ne := make([]*mapEntry, 0, len(m.ents)-1)
			ne = append(ne, m.ents[:i]...)
			ne = append(ne, m.ents[i+1:]...)
			m.ents = ne
			break
		}
	}
	if m.idx != nil {
		if ck, ok := ckey(e.k); ok {
			delete(m.idx, ck)
		}
	}
}
