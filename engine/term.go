package main

// Hash-consed symbolic terms over booleans (w==0) and bit-vectors (w>0).
// Floats are BV64 holding the IEEE-754 bits.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	ONeg
	OCompl
	OExtract // k = lo ; w = result width
	OZext
	OSext
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OI2F // signed 64 -> float bits
	OF2I // float bits -> signed 64 (truncation)
	OFIsFinite
)

type Term struct {
	op      Op
	w       int
	a, b, c *Term
	k       uint64
	name    string
	id      int32
	vars    []int32
	gen     uint32
	val     uint64
	depth   int32
}

type tkey struct {
	op      Op
	w       int
	a, b, c int32
	k       uint64
}

type TF struct {
	tab      map[tkey]*Term
	vartab   map[string]*Term
	varlist  []*Term
	next     int32
	gen      uint32
	True     *Term
	False    *Term
	smallInt [4][1024]*Term // for widths 8,16,32,64
}

func NewTF() *TF {
	f := &TF{tab: map[tkey]*Term{}, vartab: map[string]*Term{}}
	f.False = f.mk(OConst, 0, nil, nil, nil, 0)
	f.True = f.mk(OConst, 0, nil, nil, nil, 1)
	return f
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mergeVars(x, y []int32) []int32 {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	// fast subset checks
	if len(x) == len(y) {
		same := true
		for i := range x {
			if x[i] != y[i] {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	r := make([]int32, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i] < y[j]:
			r = append(r, x[i])
			i++
		case x[i] > y[j]:
			r = append(r, y[j])
			j++
		default:
			r = append(r, x[i])
			i++
			j++
		}
	}
	r = append(r, x[i:]...)
	r = append(r, y[j:]...)
	return r
}

func (f *TF) mk(op Op, w int, a, b, c *Term, k uint64) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := f.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: f.next}
	f.next++
	d := int32(0)
	for _, x := range [3]*Term{a, b, c} {
		if x != nil {
			t.vars = mergeVars(t.vars, x.vars)
			if x.depth > d {
				d = x.depth
			}
		}
	}
	t.depth = d + 1
	f.tab[key] = t
	return t
}

func (f *TF) Var(name string, w int) *Term {
	key := fmt.Sprintf("%s_%d", name, w)
	if t, ok := f.vartab[key]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, name: key, id: f.next}
	f.next++
	t.k = uint64(len(f.varlist))
	t.vars = []int32{int32(len(f.varlist))}
	f.varlist = append(f.varlist, t)
	f.vartab[key] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func widx(w int) int {
	switch w {
	case 8:
		return 0
	case 16:
		return 1
	case 32:
		return 2
	case 64:
		return 3
	}
	return -1
}

func (f *TF) C(w int, v uint64) *Term {
	if w == 0 {
		if v&1 == 1 {
			return f.True
		}
		return f.False
	}
	v &= mask(w)
	if v < 1024 {
		if i := widx(w); i >= 0 {
			if t := f.smallInt[i][v]; t != nil {
				return t
			}
			t := f.mk(OConst, w, nil, nil, nil, v)
			f.smallInt[i][v] = t
			return t
		}
	}
	return f.mk(OConst, w, nil, nil, nil, v)
}

func (f *TF) Bool(b bool) *Term {
	if b {
		return f.True
	}
	return f.False
}

func (t *Term) isConst() bool { return t.op == OConst }

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (t *Term) sval() int64 { return sext(t.k, t.w) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp computes op on concrete operand values (masked).
func evalOp(op Op, w int, aw int, a, b, c uint64, k uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		x := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(x>>b) & m
	case ONeg:
		return (-a) & m
	case OCompl:
		return (^a) & m
	case OExtract:
		return (a >> k) & m
	case OZext:
		return a
	case OSext:
		return uint64(sext(a, aw)) & m
	case OIte:
		if a == 1 {
			return b
		}
		return c
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBNot:
		return a ^ 1
	case OFAdd:
		return math.Float64bits(math.Float64frombits(a) + math.Float64frombits(b))
	case OFSub:
		return math.Float64bits(math.Float64frombits(a) - math.Float64frombits(b))
	case OFMul:
		return math.Float64bits(math.Float64frombits(a) * math.Float64frombits(b))
	case OFDiv:
		return math.Float64bits(math.Float64frombits(a) / math.Float64frombits(b))
	case OFLt:
		return b2u(math.Float64frombits(a) < math.Float64frombits(b))
	case OFLe:
		return b2u(math.Float64frombits(a) <= math.Float64frombits(b))
	case OFEq:
		return b2u(math.Float64frombits(a) == math.Float64frombits(b))
	case OI2F:
		return math.Float64bits(float64(int64(a)))
	case OF2I:
		return uint64(int64(math.Float64frombits(a)))
	case OFIsFinite:
		return b2u((a>>52)&0x7ff != 0x7ff)
	}
	panic(fmt.Sprint("evalOp ", op))
}

func (f *TF) bin(op Op, w int, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return f.C(w, evalOp(op, w, a.w, a.k, b.k, 0, 0))
	}
	// division of a zero-extended value by a small positive constant works on
	// the narrow value, and by a power of two it is a mask or a shift
	if (op == OURem || op == OSRem || op == OUDiv || op == OSDiv) && b.isConst() && b.k != 0 {
		if a.op == OZext && b.k <= mask(a.a.w) && (op == OURem || op == OUDiv || b.k < 1<<uint(w-1)) {
			n := a.a.w
			nop := OURem
			if op == OUDiv || op == OSDiv {
				nop = OUDiv
			}
			return f.Zext(f.bin(nop, n, a.a, f.C(n, b.k)), w)
		}
		if bits.OnesCount64(b.k) == 1 && op == OURem {
			return f.And(a, f.C(w, b.k-1))
		}
		if bits.OnesCount64(b.k) == 1 && op == OUDiv {
			return f.bin(OLShr, w, a, f.C(w, uint64(bits.TrailingZeros64(b.k))))
		}
	}
	return f.mk(op, w, a, b, nil, 0)
}

func (f *TF) Add(a, b *Term) *Term {
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.b.isConst() {
			return f.Add(a.a, f.C(a.w, a.b.k+b.k))
		}
		if a.op == OIte && a.b.isConst() && a.c.isConst() {
			return f.Ite(a.a, f.Add(a.b, b), f.Add(a.c, b))
		}
	}
	if !a.isConst() && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return f.bin(OAdd, a.w, a, b)
}

func (f *TF) Sub(a, b *Term) *Term {
	if a == b {
		return f.C(a.w, 0)
	}
	if b.isConst() {
		return f.Add(a, f.C(a.w, -b.k))
	}
	return f.bin(OSub, a.w, a, b)
}

func (f *TF) Mul(a, b *Term) *Term {
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if bits.OnesCount64(b.k) == 1 {
			return f.Shl(a, f.C(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
	}
	return f.bin(OMul, a.w, a, b)
}

func (f *TF) And(a, b *Term) *Term {
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		if b.k == mask(a.w) {
			return a
		}
		if a.op == OZext && b.k == mask(a.a.w) {
			return a
		}
	}
	return f.bin(OAnd, a.w, a, b)
}

func (f *TF) Or(a, b *Term) *Term {
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	return f.bin(OOr, a.w, a, b)
}

func (f *TF) Xor(a, b *Term) *Term {
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if a == b {
		return f.C(a.w, 0)
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	return f.bin(OXor, a.w, a, b)
}

func (f *TF) Shl(a, b *Term) *Term {
	if b.isConst() && b.k == 0 {
		return a
	}
	return f.bin(OShl, a.w, a, b)
}
func (f *TF) LShr(a, b *Term) *Term {
	if b.isConst() && b.k == 0 {
		return a
	}
	return f.bin(OLShr, a.w, a, b)
}
func (f *TF) AShr(a, b *Term) *Term {
	if b.isConst() && b.k == 0 {
		return a
	}
	return f.bin(OAShr, a.w, a, b)
}
func (f *TF) Neg(a *Term) *Term {
	if a.isConst() {
		return f.C(a.w, -a.k)
	}
	return f.mk(ONeg, a.w, a, nil, nil, 0)
}
func (f *TF) Compl(a *Term) *Term {
	if a.isConst() {
		return f.C(a.w, ^a.k)
	}
	return f.mk(OCompl, a.w, a, nil, nil, 0)
}

func (f *TF) Extract(a *Term, lo, w int) *Term {
	if w <= 0 || lo < 0 || lo+w > a.w {
		panic(fmt.Sprintf("Extract lo=%d w=%d of width %d", lo, w, a.w))
	}
	if a.isConst() {
		return f.C(w, a.k>>uint(lo))
	}
	if lo == 0 && w == a.w {
		return a
	}
	if a.op == OZext || a.op == OSext {
		if lo+w <= a.a.w {
			return f.Extract(a.a, lo, w)
		}
		if lo == 0 && w > a.a.w {
			if a.op == OZext {
				return f.Zext(a.a, w)
			}
			return f.Sext(a.a, w)
		}
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return f.Ite(a.a, f.Extract(a.b, lo, w), f.Extract(a.c, lo, w))
	}
	if lo == 0 {
		switch a.op {
		case OAdd:
			return f.Add(f.Extract(a.a, 0, w), f.Extract(a.b, 0, w))
		case OSub:
			return f.Sub(f.Extract(a.a, 0, w), f.Extract(a.b, 0, w))
		case OAnd:
			return f.And(f.Extract(a.a, 0, w), f.Extract(a.b, 0, w))
		case OOr:
			return f.Or(f.Extract(a.a, 0, w), f.Extract(a.b, 0, w))
		case OXor:
			return f.Xor(f.Extract(a.a, 0, w), f.Extract(a.b, 0, w))
		}
	}
	return f.mk(OExtract, w, a, nil, nil, uint64(lo))
}

func (f *TF) Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return f.C(w, a.k)
	}
	if a.op == OZext {
		return f.Zext(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return f.Ite(a.a, f.Zext(a.b, w), f.Zext(a.c, w))
	}
	return f.mk(OZext, w, a, nil, nil, 0)
}

func (f *TF) Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return f.C(w, uint64(a.sval()))
	}
	if a.op == OZext {
		return f.Zext(a.a, w)
	}
	return f.mk(OSext, w, a, nil, nil, 0)
}

func (f *TF) Not(a *Term) *Term {
	if a.isConst() {
		return f.C(0, a.k^1)
	}
	switch a.op {
	case OBNot:
		return a.a
	case OUlt:
		return f.Ule(a.b, a.a)
	case OUle:
		return f.Ult(a.b, a.a)
	case OSlt:
		return f.Sle(a.b, a.a)
	case OSle:
		return f.Slt(a.b, a.a)
	}
	return f.mk(OBNot, 0, a, nil, nil, 0)
}

func (f *TF) BAnd(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return f.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return f.mk(OBAnd, 0, a, b, nil, 0)
}

func (f *TF) BOr(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return f.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return f.mk(OBOr, 0, a, b, nil, 0)
}

func (f *TF) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k == 1 {
				return c
			}
			return f.Not(c)
		}
		return f.BOr(f.BAnd(c, a), f.BAnd(f.Not(c), b))
	}
	if c.op == OBNot {
		return f.Ite(c.a, b, a)
	}
	return f.mk(OIte, a.w, c, a, b, 0)
}

func (f *TF) Eq(a, b *Term) *Term {
	if a == b {
		return f.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return f.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return f.Not(a)
		}
		return f.BOr(f.BAnd(a, b), f.BAnd(f.Not(a), f.Not(b)))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.k > mask(a.a.w) {
				return f.False
			}
			return f.Eq(a.a, f.C(a.a.w, b.k))
		case OSext:
			lowc := f.C(a.a.w, b.k)
			if uint64(lowc.sval())&mask(a.w) != b.k {
				return f.False
			}
			return f.Eq(a.a, lowc)
		case OAdd:
			if a.b.isConst() {
				return f.Eq(a.a, f.C(a.w, b.k-a.b.k))
			}
		case OXor:
			if a.b.isConst() {
				return f.Eq(a.a, f.C(a.w, b.k^a.b.k))
			}
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return f.Ite(a.a, f.Eq(a.b, b), f.Eq(a.c, b))
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return f.Eq(a.a, b.a)
	}
	if a.op == OAdd && b.op == OAdd {
		if a.b == b.b {
			return f.Eq(a.a, b.a)
		}
		if a.a == b.a {
			return f.Eq(a.b, b.b)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return f.mk(OEq, 0, a, b, nil, 0)
}

func (f *TF) Ult(a, b *Term) *Term {
	if a == b {
		return f.False
	}
	if a.isConst() && b.isConst() {
		return f.Bool(a.k < b.k)
	}
	if b.isConst() {
		if b.k == 0 {
			return f.False
		}
		if (a.op == OURem && a.b.isConst() && a.b.k != 0 && a.b.k <= b.k) || (a.op == OAnd && a.b.isConst() && a.b.k < b.k) {
			return f.True
		}
		if a.op == OZext {
			if b.k > mask(a.a.w) {
				return f.True
			}
			return f.Ult(a.a, f.C(a.a.w, b.k))
		}
		if a.op == OIte && a.b.isConst() && a.c.isConst() {
			return f.Ite(a.a, f.Ult(a.b, b), f.Ult(a.c, b))
		}
	}
	if a.isConst() {
		if a.k == mask(a.w) {
			return f.False
		}
		if b.op == OZext {
			if a.k >= mask(b.a.w) {
				return f.False
			}
			return f.Ult(f.C(b.a.w, a.k), b.a)
		}
		if b.op == OIte && b.b.isConst() && b.c.isConst() {
			return f.Ite(b.a, f.Ult(a, b.b), f.Ult(a, b.c))
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return f.Ult(a.a, b.a)
	}
	return f.mk(OUlt, 0, a, b, nil, 0)
}

func (f *TF) Ule(a, b *Term) *Term {
	if a == b {
		return f.True
	}
	if a.isConst() && b.isConst() {
		return f.Bool(a.k <= b.k)
	}
	if b.isConst() {
		if b.k == mask(b.w) {
			return f.True
		}
		return f.Ult(a, f.C(b.w, b.k+1))
	}
	if a.isConst() {
		if a.k == 0 {
			return f.True
		}
		return f.Ult(f.C(a.w, a.k-1), b)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return f.Ule(a.a, b.a)
	}
	return f.mk(OUle, 0, a, b, nil, 0)
}

// nonneg reports whether the term is known to have sign bit 0.
func nonneg(a *Term) bool {
	switch a.op {
	case OConst:
		return a.sval() >= 0
	case OZext:
		return true
	case OIte:
		return nonneg(a.b) && nonneg(a.c)
	}
	return false
}

func (f *TF) Slt(a, b *Term) *Term {
	if a == b {
		return f.False
	}
	if a.isConst() && b.isConst() {
		return f.Bool(a.sval() < b.sval())
	}
	an, bn := nonneg(a), nonneg(b)
	if an && bn {
		return f.Ult(a, b)
	}
	if an && b.isConst() && b.sval() <= 0 {
		return f.False
	}
	if bn && a.isConst() && a.sval() < 0 {
		return f.True
	}
	if b.isConst() && a.op == OIte && a.b.isConst() && a.c.isConst() {
		return f.Ite(a.a, f.Slt(a.b, b), f.Slt(a.c, b))
	}
	return f.mk(OSlt, 0, a, b, nil, 0)
}

func (f *TF) Sle(a, b *Term) *Term {
	if a == b {
		return f.True
	}
	if a.isConst() && b.isConst() {
		return f.Bool(a.sval() <= b.sval())
	}
	an, bn := nonneg(a), nonneg(b)
	if an && bn {
		return f.Ule(a, b)
	}
	if an && b.isConst() && b.sval() < 0 {
		return f.False
	}
	if bn && a.isConst() && a.sval() <= 0 {
		return f.True
	}
	return f.mk(OSle, 0, a, b, nil, 0)
}

// ---- evaluation under a model (missing variables are 0) ----

type Model map[int32]uint64

func (f *TF) NewEval() { f.gen++ }

func (f *TF) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.gen == f.gen {
		return t.val
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m[t.vars[0]]
	case OIte:
		if f.eval(t.a, m) == 1 {
			r = f.eval(t.b, m)
		} else {
			r = f.eval(t.c, m)
		}
	default:
		var a, b, c uint64
		aw := 0
		if t.a != nil {
			a = f.eval(t.a, m)
			aw = t.a.w
		}
		if t.b != nil {
			b = f.eval(t.b, m)
		}
		if t.c != nil {
			c = f.eval(t.c, m)
		}
		r = evalOp(t.op, t.w, aw, a, b, c, t.k)
	}
	t.gen = f.gen
	t.val = r
	return r
}

// ---- SMT-LIB printing ----

var opName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", ONeg: "bvneg", OCompl: "bvnot",
	OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not"}

const toFP = "((_ to_fp 11 53) "

type printer struct {
	sb    *strings.Builder
	bound map[*Term]string
	n     int
}

// printAssert emits (assert ...) with let-binding for shared nodes.
func printTerm(sb *strings.Builder, root *Term) {
	// count references
	refs := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		if t.a != nil {
			walk(t.a)
		}
		if t.b != nil {
			walk(t.b)
		}
		if t.c != nil {
			walk(t.c)
		}
		order = append(order, t)
	}
	walk(root)
	names := map[*Term]string{}
	closes := 0
	for _, t := range order {
		if t != root && refs[t] > 1 && t.op != OConst && t.op != OVar {
			nm := fmt.Sprintf("?%d", len(names))
			sb.WriteString("(let ((")
			sb.WriteString(nm)
			sb.WriteByte(' ')
			emit(sb, t, names)
			sb.WriteString(")) ")
			names[t] = nm
			closes++
		}
	}
	emit(sb, root, names)
	for i := 0; i < closes; i++ {
		sb.WriteByte(')')
	}
}

func emit(sb *strings.Builder, t *Term, names map[*Term]string) {
	if n, ok := names[t]; ok {
		sb.WriteString(n)
		return
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
		} else {
			fmt.Fprintf(sb, "(_ bv%d %d)", t.k, t.w)
		}
	case OVar:
		sb.WriteString(t.name)
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) ", int(t.k)+t.w-1, t.k)
		emit(sb, t.a, names)
		sb.WriteByte(')')
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", t.w-t.a.w)
		emit(sb, t.a, names)
		sb.WriteByte(')')
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", t.w-t.a.w)
		emit(sb, t.a, names)
		sb.WriteByte(')')
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		sb.WriteString("(fp.to_ieee_bv (" + n + " RNE " + toFP)
		emit(sb, t.a, names)
		sb.WriteString(") " + toFP)
		emit(sb, t.b, names)
		sb.WriteString(")))")
	case OFLt, OFLe, OFEq:
		n := map[Op]string{OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}[t.op]
		sb.WriteString("(" + n + " " + toFP)
		emit(sb, t.a, names)
		sb.WriteString(") " + toFP)
		emit(sb, t.b, names)
		sb.WriteString("))")
	case OFIsFinite:
		sb.WriteString("(not (= ((_ extract 62 52) ")
		emit(sb, t.a, names)
		sb.WriteString(") (_ bv2047 11)))")
	case OI2F:
		sb.WriteString("(fp.to_ieee_bv ((_ to_fp 11 53) RNE ")
		emit(sb, t.a, names)
		sb.WriteString("))")
	case OF2I:
		sb.WriteString("((_ fp.to_sbv 64) RTZ " + toFP)
		emit(sb, t.a, names)
		sb.WriteString("))")
	default:
		sb.WriteByte('(')
		sb.WriteString(opName[t.op])
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				emit(sb, x, names)
			}
		}
		sb.WriteByte(')')
	}
}

func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t)
	return sb.String()
}
