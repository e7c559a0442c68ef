package main

import (
	"fmt"
	"go/types"
	"math"
	"net"
	"path"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]intrinsic

// packages whose initialisers are not run
var noInit = map[string]bool{"os": true, "syscall": true, "runtime": true, "internal/cpu": true, "net": true, "internal/poll": true,
	"testing": true, "os/signal": true, "internal/godebug": true, "context": false, "reflect": true, "fmt": true}

// packages whose functions are not executed unless listed as intrinsics
var denied = map[string]bool{"runtime": true, "syscall": true, "os": true, "internal/poll": true, "reflect": true, "internal/reflectlite": true,
	"os/signal": true, "fmt": true, "testing": true, "internal/syscall/unix": true, "internal/godebug": true, "os/exec": true, "plugin": true, "net/http": true}

func deniedPkg(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	return denied[fn.Pkg.Pkg.Path()] && !allowed[fn.String()]
}

// functions of denied packages that may be executed all the same
var allowed = map[string]bool{"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "os.underlyingErrorIs": true, "os.underlyingError": true}

// The standard logger is a stub, except where the harness asks for the real one.
func prefixIntrinsic(name string, fn *ssa.Function) intrinsic {
	if strings.HasPrefix(name, "log.init") || strings.Contains(name, "$") {
		return nil
	}
	h := stubIntrinsic(name, fn)
	if h == nil {
		return nil
	}
	return func(th *Thread, fn *ssa.Function, args []value) value {
		if th.p.realLog && !strings.Contains(name, "Fatal") {
			return th.runBody(fn, args)
		}
		return h(th, fn, args)
	}
}

func stubIntrinsic(name string, fn *ssa.Function) intrinsic {
	switch {
	case strings.HasPrefix(name, "(*log.Logger).") || strings.HasPrefix(name, "log."):
		if strings.Contains(name, "Fatal") {
			return func(th *Thread, fn *ssa.Function, args []value) value { th.fatal("os.Exit via log.Fatal"); return nil }
		}
		if strings.Contains(name, "Panic") {
			return func(th *Thread, fn *ssa.Function, args []value) value { th.rtPanic("log.Panic"); return nil }
		}
		if name == "log.New" || name == "log.Default" {
			return func(th *Thread, fn *ssa.Function, args []value) value {
				v := new(value)
				*v = th.p.zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
				return v
			}
		}
		return zeroFn
	}
	return nil
}

func zeroFn(th *Thread, fn *ssa.Function, args []value) value { return th.p.zeroResult(fn) }

func (th *Thread) argStr(v value) Str {
	switch x := v.(type) {
	case Str:
		return x
	case Slice:
		return th.bytesToStr(x)
	}
	th.p.unsupported("string argument %T", v)
	return Str{}
}

func (p *Path) name(v value) string {
	s, _ := v.(Str).concrete()
	return s
}

func (th *Thread) cstr(v value, what string) string {
	s, ok := th.argStr(v).concrete()
	if !ok {
		th.p.unsupported("symbolic %s", what)
	}
	return s
}

func (th *Thread) newErr(msg Str) iface {
	fn := th.p.w.prog.errorsNew
	r := th.callSSA(th.fr, fn, []value{msg}, nil)
	return r.(iface)
}

func (th *Thread) int64Of(v value) *Term {
	return th.p.tf.Sext(v.(*Term), 64)
}

func fmtFloat(bits uint64) string {
	return strconv.FormatFloat(math.Float64frombits(bits), 'f', -1, 64)
}

func canonInt(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strconv.FormatInt(n, 10) != s {
		return 0, false
	}
	return n, true
}

func canonFloat(s string) (uint64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) || strconv.FormatFloat(f, 'f', -1, 64) != s {
		return 0, false
	}
	return math.Float64bits(f), true
}

// indexByte returns the index of the first b in bs (forking), or -1.
func (p *Path) indexByte(bs []*Term, b *Term) *Term {
	for i, x := range bs {
		if p.branch(p.tf.Eq(x, b)) {
			return p.tf.C(64, uint64(i))
		}
	}
	return p.tf.C(64, ^uint64(0))
}

func (th *Thread) byteTerms(v value) []*Term {
	switch x := v.(type) {
	case Str:
		return th.p.bytes(x)
	case Slice:
		return th.bytesToStrForced(x).b
	}
	th.p.unsupported("bytes of %T", v)
	return nil
}

func (th *Thread) bytesToStrForced(s Slice) Str {
	s = th.p.force(s)
	return th.bytesToStr(s)
}

// ascii case mapping; nil if some byte may be non-ASCII on this path
func (th *Thread) caseMap(s Str, lower bool) (Str, bool) {
	p := th.p
	tf := p.tf
	if s.opq != nil && !s.opq.done && s.opq.kind == 'd' {
		return s, true
	}
	bs := p.bytes(s)
	anyHi := tf.False
	for _, b := range bs {
		anyHi = tf.BOr(anyHi, tf.Not(tf.Ult(b, tf.C(8, 0x80))))
	}
	if anyHi != tf.False && p.branch(anyHi) {
		return Str{}, false
	}
	out := make([]*Term, len(bs))
	for i, b := range bs {
		if lower {
			up := tf.BAnd(tf.Ule(tf.C(8, 'A'), b), tf.Ule(b, tf.C(8, 'Z')))
			out[i] = tf.Ite(up, tf.Add(b, tf.C(8, 32)), b)
		} else {
			lo := tf.BAnd(tf.Ule(tf.C(8, 'a'), b), tf.Ule(b, tf.C(8, 'z')))
			out[i] = tf.Ite(lo, tf.Sub(b, tf.C(8, 32)), b)
		}
	}
	return Str{b: out}, true
}

// raw runs the real body of a function that also has an intrinsic.
// runBody executes the function itself rather than its intrinsic.
func (th *Thread) runBody(fn *ssa.Function, args []value) value {
	return th.callBody(th.fr, th.p.w.compile(fn), fn, args, nil)
}

func (th *Thread) rawCall(fn *ssa.Function, args []value) value {
	cf := th.p.w.compile(fn)
	save := cf.intr
	cf.intr = nil
	defer func() { cf.intr = save }()
	return th.callSSA(th.fr, fn, args, nil)
}

// ---- formatting ----

func (th *Thread) format(f Str, args []value) Str {
	p := th.p
	var out []*Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, p.tf.C(8, uint64(s[i])))
		}
	}
	fs := p.bytes(f)
	is := func(t *Term, c byte) bool { return p.branch(p.tf.Eq(t, p.tf.C(8, uint64(c)))) }
	ai := 0
	for i := 0; i < len(fs); i++ {
		if !is(fs[i], '%') {
			out = append(out, fs[i])
			continue
		}
		j := i + 1
		flags := ""
		for j < len(fs) && fs[j].isConst() && strings.IndexByte("+-# 0123456789.", byte(fs[j].k)) >= 0 {
			flags += string(rune(fs[j].k))
			j++
		}
		if j >= len(fs) {
			lit("%!(NOVERB)")
			break
		}
		i = j
		var verb byte
		if fs[j].isConst() {
			verb = byte(fs[j].k)
		} else {
			for _, c := range []byte("%sdv") {
				if is(fs[j], c) {
					verb = c
					break
				}
			}
			if verb == 0 {
				p.unsupported("symbolic format")
			}
		}
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(rune(verb)) + "(MISSING)")
			continue
		}
		a := args[ai].(iface)
		ai++
		out = append(out, p.bytes(th.formatArg(verb, flags, a))...)
	}
	if ai < len(args) {
		lit("%!(EXTRA ")
		for n := ai; n < len(args); n++ {
			if n > ai {
				lit(", ")
			}
			a := args[n].(iface)
			if a.t == nil {
				lit("<nil>")
				continue
			}
			lit(types.TypeString(a.t, func(p *types.Package) string { return p.Name() }) + "=")
			out = append(out, p.bytes(th.formatArg('v', "", a))...)
		}
		lit(")")
	}
	for _, t := range out {
		if !t.isConst() {
			return Str{b: out}
		}
	}
	b := make([]byte, len(out))
	for i, t := range out {
		b[i] = byte(t.k)
	}
	return p.strC(string(b))
}

func (th *Thread) formatArg(verb byte, flags string, a iface) Str {
	p := th.p
	if a.t == nil {
		if verb == 'v' {
			return p.strC("<nil>")
		}
		return p.strC("%!" + string(verb) + "(<nil>)")
	}
	// error / Stringer
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		for _, mn := range []string{"Error", "String"} {
			if fn := th.p.w.methodByName(a.t, mn); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
				r := th.callSSA(th.fr, fn, []value{copyVal(a.v)}, nil).(Str)
				if verb == 'q' {
					s, ok := r.concrete()
					if !ok {
						return r // approximated: quotes are not modelled
					}
					return p.strC(strconv.Quote(s))
				}
				return r
			}
		}
	}
	switch x := a.v.(type) {
	case Str:
		switch verb {
		case 's', 'v', 'w':
			if flags == "" {
				return x
			}
		case 'q':
			if s, ok := x.concrete(); ok {
				return p.strC(strconv.Quote(s))
			}
			return x
		case 'd':
			return p.strC("%!d(string=?)")
		case 'x':
			if s, ok := x.concrete(); ok {
				return p.strC(fmt.Sprintf("%x", s))
			}
		}
	case Slice:
		if st, ok := a.t.Underlying().(*types.Slice); ok {
			if b, ok := st.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q') {
				return th.bytesToStr(x)
			}
		}
		if st, ok := a.t.Underlying().(*types.Slice); ok && flags == "" && (verb == 'v' || verb == 's' || verb == 'd') {
			x = p.force(x)
			if x.len <= 64 {
				out := []*Term{p.tf.C(8, '[')}
				for i := 0; i < x.len; i++ {
					if i > 0 {
						out = append(out, p.tf.C(8, ' '))
					}
					e := x.arr.e[x.off+i]
					if _, ok := e.(iface); !ok {
						e = iface{t: st.Elem(), v: e}
					}
					out = append(out, p.bytes(th.formatArg(verb, flags, e.(iface)))...)
				}
				return Str{b: append(out, p.tf.C(8, ']'))}
			}
		}
		return p.strC("[...]")
	case *Term:
		b, _ := a.t.Underlying().(*types.Basic)
		if x.w == 0 {
			if p.branch(x) {
				return p.strC("true")
			}
			return p.strC("false")
		}
		if isFloat(a.t) {
			if x.isConst() {
				return p.strC(fmt.Sprintf("%"+flags+string(verb), math.Float64frombits(x.k)))
			}
			if (verb == 'f' && flags == "") || verb == 'v' || verb == 'g' {
				p.unsupported("formatting of symbolic float")
			}
		}
		if x.isConst() {
			if b != nil && b.Info()&types.IsUnsigned != 0 {
				return p.strC(fmt.Sprintf("%"+flags+string(verb), x.k))
			}
			return p.strC(fmt.Sprintf("%"+flags+string(verb), x.sval()))
		}
		if (verb == 'd' || verb == 'v') && flags == "" {
			if isSigned(a.t) {
				return Str{opq: &Opaque{kind: 'd', t: p.tf.Sext(x, 64)}}
			}
			if x.w < 64 {
				return Str{opq: &Opaque{kind: 'd', t: p.tf.Zext(x, 64)}}
			}
		}
		if verb == 'c' {
			return Str{b: th.runeBytes(x)}
		}
	}
	if verb == 'T' {
		return p.strC(a.t.String())
	}
	if verb == 'v' || verb == 'p' || verb == '+' {
		return p.strC("{...}")
	}
	p.unsupported("format %%%s%c of %s", flags, verb, a.t)
	return Str{}
}

func (w *Worker) methodByName(t types.Type, name string) *ssa.Function {
	k := mnKey{t, name}
	if f, ok := w.mnCache[k]; ok {
		return f
	}
	w.prog.mu.Lock()
	var f *ssa.Function
	if _, isI := t.Underlying().(*types.Interface); !isI {
		ms := w.prog.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name && ms.At(i).Obj().Exported() {
				f = w.prog.prog.MethodValue(ms.At(i))
			}
		}
	}
	w.prog.mu.Unlock()
	w.mnCache[k] = f
	return f
}

type mnKey struct {
	t types.Type
	n string
}

func (th *Thread) variadic(v value) []value {
	s := th.p.force(v.(Slice))
	r := make([]value, s.len)
	for i := range r {
		r[i] = s.arr.e[s.off+i]
	}
	return r
}

func (th *Thread) sprint(args []value, ln bool) Str {
	p := th.p
	var b []*Term
	for i, a := range args {
		if i > 0 {
			_, s1 := args[i-1].(iface).v.(Str)
			_, s2 := a.(iface).v.(Str)
			if ln || (!s1 && !s2) {
				b = append(b, p.tf.C(8, ' '))
			}
		}
		b = append(b, p.bytes(th.formatArg('v', "", a.(iface)))...)
	}
	if ln {
		b = append(b, p.tf.C(8, '\n'))
	}
	return Str{b: b}
}

func (th *Thread) writeTo(w iface, s Str) value {
	p := th.p
	if w.t == nil {
		th.rtPanic("nil writer")
	}
	fn := p.w.methodByName(w.t, "Write")
	if fn == nil {
		p.unsupported("no Write on %s", w.t)
	}
	return th.callSSA(th.fr, fn, []value{copyVal(w.v), p.force(p.strToBytes(s))}, nil)
}

// ---- files ----

type fileState struct {
	pos   int
	name  string
	write bool
	app   bool
}

// fsClean: the model has one directory, /virtual, to start with; "." is in it.
func fsClean(n string) string {
	if !strings.HasPrefix(n, "/") {
		n = "/virtual/" + n
	}
	return path.Clean(n)
}

func (p *Path) isDir(n string) bool { return n == "/" || n == "/virtual" || p.dirs[n] }

func (p *Path) fsExists(n string) bool {
	_, ok := p.files[n]
	return ok || p.isDir(n)
}

// pathErr is a *fs.PathError wrapping one of the sentinel errors of io/fs.
func (th *Thread) pathErr(op, name, which string) iface {
	p := th.p
	pk := p.w.prog.fsPkg
	nt := pk.Type("PathError").Type()
	v := new(value)
	*v = structure{p.strC(op), p.strC(name), *p.global(pk.Var(which))}
	return iface{t: types.NewPointer(nt), v: v}
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func (th *Thread) openFile(fn *ssa.Function, name Str, flags uint64) value {
	p := th.p
	rt := fn.Signature.Results().At(0).Type()
	fail := func(which, c string) value { return tuple{p.zero(rt), th.pathErr("open", c, which)} }
	c, ok := name.concrete()
	if !ok {
		p.unsupported("symbolic file name")
	}
	n := fsClean(c)
	_, has := p.files[n]
	write := flags&(oWRONLY|oRDWR) != 0
	switch {
	case c == "" || strings.HasSuffix(c, "/"):
		return fail("ErrNotExist", c)
	case p.isDir(n) && write:
		return fail("ErrInvalid", c)
	case has && flags&(oCREATE|oEXCL) == oCREATE|oEXCL:
		return fail("ErrExist", c)
	case !has && !p.isDir(n) && (flags&oCREATE == 0 || !p.isDir(path.Dir(n))):
		return fail("ErrNotExist", c)
	}
	if p.files == nil {
		p.files = map[string]Str{}
	}
	if !p.isDir(n) && (!has || write && flags&oTRUNC != 0) {
		p.files[n] = Str{}
	}
	v := new(value)
	*v = p.zero(rt.Underlying().(*types.Pointer).Elem())
	if p.open == nil {
		p.open = map[*value]*fileState{}
	}
	p.open[v] = &fileState{name: n, write: write, app: flags&oAPPEND != 0}
	return tuple{v, iface{}}
}

// fileWrite: standard output and error are not modelled.
func (th *Thread) fileWrite(f value, b []*Term) value {
	p := th.p
	n := p.tf.C(64, uint64(len(b)))
	fp, _ := f.(*value)
	if fp == nil {
		return tuple{n, iface{}}
	}
	st := p.open[fp]
	if st == nil {
		return tuple{p.tf.C(64, 0), th.pathErr("write", "", "ErrClosed")}
	}
	if !st.write {
		return tuple{p.tf.C(64, 0), th.pathErr("write", st.name, "ErrPermission")}
	}
	old := p.bytes(p.files[st.name])
	if st.app {
		st.pos = len(old)
	}
	out := append([]*Term(nil), old...)
	for i, x := range b {
		if st.pos+i < len(out) {
			out[st.pos+i] = x
		} else {
			out = append(out, x)
		}
	}
	st.pos += len(b)
	p.files[st.name] = Str{b: out}
	return tuple{n, iface{}}
}

func (th *Thread) eof() iface {
	g := th.p.w.prog.ioEOF
	return (*th.p.global(g)).(iface)
}

func (th *Thread) numError(fnName string, s Str, which string) iface {
	// *strconv.NumError with the real sentinel errors
	p := th.p
	pk := p.w.prog.strconvPkg
	nt := pk.Type("NumError").Type()
	v := new(value)
	st := p.zero(nt).(structure)
	st[0] = p.strC(fnName)
	st[1] = s
	st[2] = *p.global(pk.Var(which))
	*v = st
	return iface{t: types.NewPointer(nt), v: v}
}

func (th *Thread) parseInt(fnName string, fn *ssa.Function, args []value, atoi bool) value {
	p := th.p
	tf := p.tf
	s := p.reopen(args[0].(Str))
	base, bits := 10, 64
	if !atoi {
		bt, zt := args[1].(*Term), args[2].(*Term)
		if !bt.isConst() || !zt.isConst() {
			return th.rawCall(fn, args)
		}
		base, bits = int(bt.sval()), int(zt.sval())
	}
	if bits == 0 {
		bits = 64
	}
	if s.opq != nil && s.opq.kind == 'd' && (base == 10 || base == 0) {
		t := s.opq.t
		if bits < 64 {
			lo := tf.C(64, uint64(-(int64(1) << uint(bits-1))))
			hi := tf.C(64, uint64(int64(1)<<uint(bits-1)-1))
			if p.branch(tf.Slt(t, lo)) {
				return tuple{lo, th.numError(fnName, s, "ErrRange")}
			}
			if p.branch(tf.Slt(hi, t)) {
				return tuple{hi, th.numError(fnName, s, "ErrRange")}
			}
		}
		return tuple{t, iface{}}
	}
	if s.opq != nil && s.opq.kind == 'f' && !s.opq.done {
		p.unsupported("integer parse of a symbolic float")
	}
	if c, ok := s.concrete(); ok {
		n, err := strconv.ParseInt(c, base, bits)
		if err == nil {
			return tuple{tf.C(64, uint64(n)), iface{}}
		}
		which := "ErrSyntax"
		if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
			which = "ErrRange"
		} else if !ok || ne.Err != strconv.ErrSyntax {
			return th.rawCall(fn, args)
		}
		return tuple{tf.C(64, uint64(n)), th.numError(fnName, s, which)}
	}
	if len(s.b) <= 18 && base == 10 && bits == 64 {
		// one case split: syntactically valid or not
		return th.parseDecimal(fnName, s)
	}
	return th.rawCall(fn, args)
}

// parseDecimal: strings of at most 18 bytes cannot overflow int64.
func (th *Thread) parseDecimal(fnName string, s Str) value {
	p := th.p
	tf := p.tf
	zero := tf.C(64, 0)
	if len(s.b) == 0 {
		return tuple{zero, th.numError(fnName, s, "ErrSyntax")}
	}
	isd := func(b *Term) *Term { return tf.BAnd(tf.Ule(tf.C(8, '0'), b), tf.Ule(b, tf.C(8, '9'))) }
	neg := tf.Eq(s.b[0], tf.C(8, '-'))
	sign := tf.BOr(neg, tf.Eq(s.b[0], tf.C(8, '+')))
	rest := tf.True
	sum := zero
	for _, b := range s.b[1:] {
		rest = tf.BAnd(rest, isd(b))
		sum = tf.Add(tf.Mul(sum, tf.C(64, 10)), tf.Zext(tf.Sub(b, tf.C(8, '0')), 64))
	}
	first := tf.Zext(tf.Sub(s.b[0], tf.C(8, '0')), 64)
	pow := uint64(1)
	for range s.b[1:] {
		pow *= 10
	}
	okSign := tf.False
	if len(s.b) > 1 {
		okSign = sign
	}
	valid := tf.BAnd(rest, tf.BOr(isd(s.b[0]), okSign))
	if !p.branch(valid) {
		return tuple{zero, th.numError(fnName, s, "ErrSyntax")}
	}
	v := tf.Ite(neg, tf.Neg(sum), tf.Ite(sign, sum, tf.Add(sum, tf.Mul(first, tf.C(64, pow)))))
	return tuple{v, iface{}}
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	type A = []value

	// ---- time ----
	I["time.Now"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		if p.tick > 0 {
			if p.tick--; p.tick == 0 {
				p.clock = p.tf.Add(p.clock, p.tf.C(64, 1))
			}
		}
		st := p.zero(fn.Signature.Results().At(0).Type()).(structure)
		const unixToInternal = 62135596800
		st[0] = p.tf.C(64, 0)
		st[1] = p.tf.Add(p.clock, p.tf.C(64, unixToInternal))
		return st
	}
	I["time.Sleep"] = zeroFn
	I["time.runtimeNano"] = func(th *Thread, fn *ssa.Function, args A) value { return th.p.tf.C(64, 1) }

	// ---- fmt ----
	I["fmt.Sprintf"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.format(th.argStr(args[0]), th.variadic(args[1]))
	}
	I["fmt.Errorf"] = func(th *Thread, fn *ssa.Function, args A) value {
		vs := th.variadic(args[1])
		s := th.format(th.argStr(args[0]), vs)
		f, _ := th.argStr(args[0]).concrete()
		if strings.Contains(f, "%w") {
			for _, v := range vs {
				if e, ok := v.(iface); ok && e.t != nil && th.p.w.methodByName(e.t, "Error") != nil {
					wt := fn.Pkg.Type("wrapError").Type()
					x := new(value)
					*x = structure{s, e}
					return iface{t: types.NewPointer(wt), v: x}
				}
			}
		}
		return th.newErr(s)
	}
	I["(*fmt.wrapError).Error"] = func(th *Thread, fn *ssa.Function, args A) value { return (*args[0].(*value)).(structure)[0] }
	I["(*fmt.wrapError).Unwrap"] = func(th *Thread, fn *ssa.Function, args A) value { return (*args[0].(*value)).(structure)[1] }
	I["fmt.Sprint"] = func(th *Thread, fn *ssa.Function, args A) value { return th.sprint(th.variadic(args[0]), false) }
	I["fmt.Sprintln"] = func(th *Thread, fn *ssa.Function, args A) value { return th.sprint(th.variadic(args[0]), true) }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		I[n] = zeroFn
	}
	I["fmt.Fprintf"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.writeTo(args[0].(iface), th.format(th.argStr(args[1]), th.variadic(args[2])))
	}
	I["fmt.Fprint"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.writeTo(args[0].(iface), th.sprint(th.variadic(args[1]), false))
	}
	I["fmt.Fprintln"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.writeTo(args[0].(iface), th.sprint(th.variadic(args[1]), true))
	}
	I["fmt.Append"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.doAppend(args[0].(Slice), th.sprint(th.variadic(args[1]), false), fn.Signature.Results().At(0).Type())
	}
	I["fmt.Appendln"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.doAppend(args[0].(Slice), th.sprint(th.variadic(args[1]), true), fn.Signature.Results().At(0).Type())
	}
	I["fmt.Appendf"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.doAppend(args[0].(Slice), th.format(th.argStr(args[1]), th.variadic(args[2])), fn.Signature.Results().At(0).Type())
	}

	// ---- os / runtime ----
	I["os.Exit"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		if !p.exitOK {
			th.fatal("os.Exit")
		}
		p.exited = true
		t := p.w.prog.shim.Type("Exited").Type()
		panic(&targetPanic{v: iface{t: t, v: structure{args[0]}}, msg: "os.Exit", site: th.where()})
	}
	stat := func(th *Thread, fn *ssa.Function, args A) value {
		c := th.cstr(args[0], "file name")
		if c != "" && th.p.fsExists(fsClean(c)) {
			return tuple{iface{}, iface{}} // only existence is modelled
		}
		return tuple{iface{}, th.pathErr("stat", c, "ErrNotExist")}
	}
	I["os.Stat"], I["os.Lstat"] = stat, stat
	mkdir := func(all bool) intrinsic {
		return func(th *Thread, fn *ssa.Function, args A) value {
			p := th.p
			c := th.cstr(args[0], "file name")
			n := fsClean(c)
			if p.dirs == nil {
				p.dirs = map[string]bool{}
			}
			if c == "" {
				return th.pathErr("mkdir", c, "ErrNotExist")
			}
			if p.fsExists(n) {
				if all && p.isDir(n) {
					return iface{}
				}
				return th.pathErr("mkdir", c, "ErrExist")
			}
			for d := path.Dir(n); !p.isDir(d); d = path.Dir(d) {
				if !all || p.fsExists(d) {
					return th.pathErr("mkdir", c, "ErrNotExist")
				}
				p.dirs[d] = true
			}
			p.dirs[n] = true
			return iface{}
		}
	}
	I["os.Mkdir"] = mkdir(false)
	I["os.MkdirAll"] = mkdir(true)
	I["os.Open"] = func(th *Thread, fn *ssa.Function, args A) value { return th.openFile(fn, args[0].(Str), 0) }
	I["os.Create"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.openFile(fn, args[0].(Str), oRDWR|oCREATE|oTRUNC)
	}
	I["os.OpenFile"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.openFile(fn, args[0].(Str), th.p.concretize(args[1].(*Term), "open flags"))
	}
	I["os.ReadFile"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		c := th.cstr(args[0], "file name")
		d, ok := p.files[fsClean(c)]
		if !ok {
			return tuple{Slice{}, th.pathErr("open", c, "ErrNotExist")}
		}
		return tuple{p.force(p.strToBytes(d)), iface{}}
	}
	I["os.WriteFile"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		n := fsClean(th.cstr(args[0], "file name"))
		if p.isDir(n) || !p.isDir(path.Dir(n)) {
			return th.pathErr("open", n, "ErrNotExist")
		}
		if p.files == nil {
			p.files = map[string]Str{}
		}
		p.files[n] = Str{b: p.bytes(th.bytesToStrForced(args[1].(Slice)))}
		return iface{}
	}
	I["(*os.File).Read"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		fp, _ := args[0].(*value)
		f := p.open[fp]
		if f == nil {
			return tuple{p.tf.C(64, 0), th.newErr(p.strC("file closed"))}
		}
		b := p.force(args[1].(Slice))
		if p.isDir(f.name) {
			return tuple{p.tf.C(64, 0), th.newErr(p.strC("is a directory"))}
		}
		if b.len == 0 {
			return tuple{p.tf.C(64, 0), iface{}}
		}
		data := p.bytes(p.files[f.name])
		n := 0
		for n < b.len && f.pos < len(data) {
			b.arr.e[b.off+n] = data[f.pos]
			n++
			f.pos++
		}
		if n == 0 {
			return tuple{p.tf.C(64, 0), th.eof()}
		}
		return tuple{p.tf.C(64, uint64(n)), iface{}}
	}
	I["(*os.File).Close"] = func(th *Thread, fn *ssa.Function, args A) value {
		if fp, ok := args[0].(*value); ok {
			delete(th.p.open, fp)
		}
		return iface{}
	}
	I["(*os.File).Sync"] = zeroFn
	I["(*os.File).Write"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.fileWrite(args[0], th.p.bytes(th.bytesToStrForced(args[1].(Slice))))
	}
	I["(*os.File).WriteString"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.fileWrite(args[0], th.p.bytes(args[1].(Str)))
	}
	// reading the time zone of the machine
	I["time.initLocal"] = zeroFn

	// ---- listening, signals, timers: stand-ins in the harness runtime ----
	for name, to := range map[string]string{"net.Listen": "Listen", "os/signal.Notify": "Notify", "os/signal.Stop": "StopNotify", "os/signal.NotifyContext": "NotifyContext"} {
		to := to
		I[name] = func(th *Thread, fn *ssa.Function, args A) value {
			return th.callSSA(th.fr, th.p.w.prog.shim.Func(to), args, nil)
		}
	}
	// deadlines of contexts never arrive within a run
	for name, to := range map[string]string{"context.WithTimeout": "WithCancel", "context.WithDeadline": "WithCancel"} {
		to := to
		I[name] = func(th *Thread, fn *ssa.Function, args A) value {
			return th.callSSA(th.fr, fn.Pkg.Func(to), args[:1], nil)
		}
	}
	// the usage text of the command line
	for _, n := range []string{"(*flag.FlagSet).usage", "(*flag.FlagSet).defaultUsage", "(*flag.FlagSet).PrintDefaults", "flag.PrintDefaults", "flag.commandLineUsage"} {
		I[n] = zeroFn
	}
	I["runtime.Caller"] = func(th *Thread, fn *ssa.Function, args A) value {
		return tuple{th.p.tf.C(64, 0), th.p.strC("file.go"), th.p.tf.C(64, 1), th.p.tf.True}
	}
	for _, n := range []string{"runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.NumGoroutine", "runtime.GOMAXPROCS", "internal/race.Enable", "internal/race.Disable"} {
		I[n] = zeroFn
	}

	// ---- sync ----
	ptr := func(v value) *value { x, _ := v.(*value); return x }
	I["(*sync.Mutex).Lock"] = func(th *Thread, fn *ssa.Function, args A) value { th.lockW(ptr(args[0])); return nil }
	I["(*sync.Mutex).Unlock"] = func(th *Thread, fn *ssa.Function, args A) value { th.unlockW(ptr(args[0])); return nil }
	I["(*sync.Mutex).TryLock"] = func(th *Thread, fn *ssa.Function, args A) value { return th.p.tf.Bool(th.tryLockW(ptr(args[0]))) }
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).TryLock"] = I["(*sync.Mutex).TryLock"]
	I["(*sync.RWMutex).RLock"] = func(th *Thread, fn *ssa.Function, args A) value { th.lockR(ptr(args[0])); return nil }
	I["(*sync.RWMutex).RUnlock"] = func(th *Thread, fn *ssa.Function, args A) value { th.unlockR(ptr(args[0])); return nil }
	I["(*sync.RWMutex).TryRLock"] = func(th *Thread, fn *ssa.Function, args A) value { return th.p.tf.Bool(th.tryLockR(ptr(args[0]))) }
	wg := func(th *Thread, v value) *wgState {
		s := th.p.sched
		if s.wgs == nil {
			s.wgs = map[*value]*wgState{}
		}
		x := s.wgs[ptr(v)]
		if x == nil {
			x = &wgState{}
			s.wgs[ptr(v)] = x
		}
		return x
	}
	wgAdd := func(th *Thread, v value, n int64) {
		x := wg(th, v)
		th.atomicAt(x, true)
		x.n += n
		if x.n < 0 {
			th.panicStr("sync: negative WaitGroup counter")
		}
		x.vc = x.vc.join(th.vc)
		th.vc[th.id]++
	}
	I["(*sync.WaitGroup).Add"] = func(th *Thread, fn *ssa.Function, args A) value {
		wgAdd(th, args[0], int64(th.p.concretize(th.int64Of(args[1]), "wg")))
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(th *Thread, fn *ssa.Function, args A) value { wgAdd(th, args[0], -1); return nil }
	I["(*sync.WaitGroup).Wait"] = func(th *Thread, fn *ssa.Function, args A) value {
		x := wg(th, args[0])
		th.p.sched.point(th, pendOp{kind: opWait, obj: x, ready: func() bool { return x.n == 0 }})
		th.vc = th.vc.join(x.vc)
		return nil
	}
	I["(*sync.WaitGroup).Go"] = func(th *Thread, fn *ssa.Function, args A) value {
		wgAdd(th, args[0], 1)
		f := args[1]
		w := args[0]
		th.p.sched.spawn(th, &nativeFn{name: "wg.Go", f: func(t2 *Thread, _ []value) value {
			t2.call(t2.fr, f, nil)
			wgAdd(t2, w, -1)
			return nil
		}}, nil)
		return nil
	}
	I["(*sync.Once).Do"] = func(th *Thread, fn *ssa.Function, args A) value {
		s := th.p.sched
		if s.onces == nil {
			s.onces = map[*value]*onceState{}
		}
		o := s.onces[ptr(args[0])]
		if o == nil {
			o = &onceState{}
			s.onces[ptr(args[0])] = o
		}
		s.point(th, pendOp{kind: opWait, obj: o, ready: func() bool { return !o.running }})
		if o.done {
			th.vc = th.vc.join(o.vc)
			return nil
		}
		o.running = true
		th.call(th.fr, args[1], nil)
		o.running = false
		o.done = true
		o.vc = o.vc.join(th.vc)
		th.vc[th.id]++
		return nil
	}
	I["(*sync.Pool).Get"] = func(th *Thread, fn *ssa.Function, args A) value {
		st := (*ptr(args[0])).(structure)
		f := st[len(st)-1]
		switch x := f.(type) {
		case *ssa.Function:
			if x == nil {
				return iface{}
			}
		}
		return th.call(th.fr, f, nil)
	}
	I["(*sync.Pool).Put"] = zeroFn

	// sync.Map as a plain map guarded by its own lock
	smap := func(th *Thread, v value, write bool) *Map {
		s := th.p.sched
		if s.smaps == nil {
			s.smaps = map[*value]*Map{}
		}
		m := s.smaps[ptr(v)]
		if m == nil {
			m = &Map{kt: types.NewInterfaceType(nil, nil)}
			s.smaps[ptr(v)] = m
		}
		th.atomicAt(m, write)
		return m
	}
	I["(*sync.Map).Load"] = func(th *Thread, fn *ssa.Function, args A) value {
		m := smap(th, args[0], false)
		if e := th.p.mapLookup(m, args[1]); e != nil {
			return tuple{e.v, th.p.tf.True}
		}
		return tuple{iface{}, th.p.tf.False}
	}
	I["(*sync.Map).Store"] = func(th *Thread, fn *ssa.Function, args A) value {
		th.p.mapSet(smap(th, args[0], true), args[1], args[2])
		return nil
	}
	I["(*sync.Map).Delete"] = func(th *Thread, fn *ssa.Function, args A) value {
		th.p.mapDelete(smap(th, args[0], true), args[1])
		return nil
	}
	I["(*sync.Map).LoadOrStore"] = func(th *Thread, fn *ssa.Function, args A) value {
		m := smap(th, args[0], true)
		if e := th.p.mapLookup(m, args[1]); e != nil {
			return tuple{e.v, th.p.tf.True}
		}
		th.p.mapSet(m, args[1], args[2])
		return tuple{args[2], th.p.tf.False}
	}
	I["(*sync.Map).LoadAndDelete"] = func(th *Thread, fn *ssa.Function, args A) value {
		m := smap(th, args[0], true)
		if e := th.p.mapLookup(m, args[1]); e != nil {
			v := e.v
			th.p.mapDelete(m, args[1])
			return tuple{v, th.p.tf.True}
		}
		return tuple{iface{}, th.p.tf.False}
	}
	I["(*sync.Map).Range"] = func(th *Thread, fn *ssa.Function, args A) value {
		m := smap(th, args[0], false)
		for _, e := range append([]*mapEntry(nil), m.ents...) {
			if e.dead {
				continue
			}
			r := th.call(th.fr, args[1], []value{e.k, e.v}).(*Term)
			if !th.p.branch(r) {
				break
			}
		}
		return nil
	}

	// atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ty := ty
		I["sync/atomic.Load"+ty] = func(th *Thread, fn *ssa.Function, args A) value {
			a := ptr(args[0])
			if a == nil {
				th.rtPanic("nil pointer dereference")
			}
			th.atomicAt(a, false)
			return *a
		}
		I["sync/atomic.Store"+ty] = func(th *Thread, fn *ssa.Function, args A) value {
			a := ptr(args[0])
			if a == nil {
				th.rtPanic("nil pointer dereference")
			}
			th.atomicAt(a, true)
			*a = args[1]
			return nil
		}
		I["sync/atomic.Swap"+ty] = func(th *Thread, fn *ssa.Function, args A) value {
			a := ptr(args[0])
			th.atomicAt(a, true)
			old := *a
			*a = args[1]
			return old
		}
		I["sync/atomic.Add"+ty] = func(th *Thread, fn *ssa.Function, args A) value {
			a := ptr(args[0])
			if a == nil {
				th.rtPanic("nil pointer dereference")
			}
			th.atomicAt(a, true)
			*a = th.p.tf.Add((*a).(*Term), args[1].(*Term))
			return *a
		}
		I["sync/atomic.CompareAndSwap"+ty] = func(th *Thread, fn *ssa.Function, args A) value {
			a := ptr(args[0])
			th.atomicAt(a, true)
			if th.p.branch(th.p.equals(nil, *a, args[1])) {
				*a = args[2]
				return th.p.tf.True
			}
			return th.p.tf.False
		}
	}
	pf := func(v value) *value { st := (*ptr(v)).(structure); return &st[len(st)-1] }
	I["(*sync/atomic.Pointer[T]).Load"] = func(th *Thread, fn *ssa.Function, args A) value { a := pf(args[0]); th.atomicAt(a, false); return *a }
	I["(*sync/atomic.Pointer[T]).Store"] = func(th *Thread, fn *ssa.Function, args A) value {
		a := pf(args[0])
		th.atomicAt(a, true)
		*a = args[1]
		return nil
	}
	I["(*sync/atomic.Pointer[T]).Swap"] = func(th *Thread, fn *ssa.Function, args A) value {
		a := pf(args[0])
		th.atomicAt(a, true)
		o := *a
		*a = args[1]
		return o
	}
	I["(*sync/atomic.Pointer[T]).CompareAndSwap"] = func(th *Thread, fn *ssa.Function, args A) value {
		a := pf(args[0])
		th.atomicAt(a, true)
		if *a == args[1] {
			*a = args[2]
			return th.p.tf.True
		}
		return th.p.tf.False
	}
	I["(*sync/atomic.Value).Load"] = func(th *Thread, fn *ssa.Function, args A) value { a := pf(args[0]); th.atomicAt(a, false); return *a }
	I["(*sync/atomic.Value).Store"] = func(th *Thread, fn *ssa.Function, args A) value {
		a := pf(args[0])
		th.atomicAt(a, true)
		*a = args[1]
		return nil
	}

	// ---- bytealg / bytes / strings ----
	ib := func(th *Thread, fn *ssa.Function, args A) value {
		return th.p.indexByte(th.byteTerms(args[0]), args[1].(*Term))
	}
	I["internal/bytealg.IndexByte"] = ib
	I["internal/bytealg.IndexByteString"] = ib
	I["strings.IndexByte"] = ib
	I["bytes.IndexByte"] = ib
	lib := func(th *Thread, fn *ssa.Function, args A) value {
		bs := th.byteTerms(args[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if th.p.branch(th.p.tf.Eq(bs[i], args[1].(*Term))) {
				return th.p.tf.C(64, uint64(i))
			}
		}
		return th.p.tf.C(64, ^uint64(0))
	}
	I["internal/bytealg.LastIndexByte"] = lib
	I["internal/bytealg.LastIndexByteString"] = lib
	cnt := func(th *Thread, fn *ssa.Function, args A) value {
		n := th.p.tf.C(64, 0)
		for _, b := range th.byteTerms(args[0]) {
			n = th.p.tf.Add(n, th.p.tf.Ite(th.p.tf.Eq(b, args[1].(*Term)), th.p.tf.C(64, 1), th.p.tf.C(64, 0)))
		}
		return n
	}
	I["internal/bytealg.Count"] = cnt
	I["internal/bytealg.CountString"] = cnt
	eq := func(th *Thread, fn *ssa.Function, args A) value {
		return th.p.strEq(th.argStr(args[0]), th.argStr(args[1]))
	}
	I["internal/bytealg.Equal"] = eq
	I["bytes.Equal"] = eq
	cmp := func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		a, b := th.argStr(args[0]), th.argStr(args[1])
		return p.tf.Ite(p.strEq(a, b), p.tf.C(64, 0), p.tf.Ite(p.strLt(a, b), p.tf.C(64, ^uint64(0)), p.tf.C(64, 1)))
	}
	I["internal/bytealg.Compare"] = cmp
	I["internal/bytealg.CompareString"] = cmp
	I["bytes.Compare"] = cmp
	I["strings.Compare"] = cmp
	idx := func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		a, b := th.byteTerms(args[0]), th.byteTerms(args[1])
		for i := 0; i+len(b) <= len(a); i++ {
			if p.branch(p.strEq(Str{b: a[i : i+len(b)]}, Str{b: b})) {
				return p.tf.C(64, uint64(i))
			}
		}
		return p.tf.C(64, ^uint64(0))
	}
	I["strings.Index"] = idx
	I["bytes.Index"] = idx
	I["internal/bytealg.Index"] = idx
	I["internal/bytealg.IndexString"] = idx
	I["internal/bytealg.MakeNoZero"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.makeSlice(types.Typ[types.Uint8], args[0].(*Term), args[0].(*Term), types.Typ[types.Int])
	}
	I["internal/stringslite.Clone"] = func(th *Thread, fn *ssa.Function, args A) value { return args[0] }
	I["strings.Clone"] = I["internal/stringslite.Clone"]
	I["bytes.Clone"] = func(th *Thread, fn *ssa.Function, args A) value {
		s := args[0].(Slice)
		if s.arr == nil {
			return Slice{}
		}
		return th.p.strToBytes(th.bytesToStr(s))
	}
	lower := func(lo bool, bs bool) intrinsic {
		return func(th *Thread, fn *ssa.Function, args A) value {
			s := th.argStr(args[0])
			r, ok := th.caseMap(s, lo)
			if !ok {
				return th.rawCall(fn, args)
			}
			if bs {
				return th.p.strToBytes(r)
			}
			return r
		}
	}
	I["strings.ToLower"] = lower(true, false)
	I["strings.ToUpper"] = lower(false, false)
	I["bytes.ToLower"] = lower(true, true)
	I["bytes.ToUpper"] = lower(false, true)
	ef := func(th *Thread, fn *ssa.Function, args A) value {
		a, ok := th.caseMap(th.argStr(args[0]), true)
		if ok {
			b, ok := th.caseMap(th.argStr(args[1]), true)
			if ok {
				return th.p.strEq(a, b)
			}
		}
		return th.rawCall(fn, args)
	}
	I["strings.EqualFold"] = ef
	I["bytes.EqualFold"] = ef
	I["internal/abi.NoEscape"] = func(th *Thread, fn *ssa.Function, args A) value { return args[0] }
	I["strings.noescape"] = I["internal/abi.NoEscape"]

	// ---- strconv ----
	I["strconv.ParseInt"] = func(th *Thread, fn *ssa.Function, args A) value { return th.parseInt("ParseInt", fn, args, false) }
	I["strconv.Atoi"] = func(th *Thread, fn *ssa.Function, args A) value { return th.parseInt("Atoi", fn, args, true) }
	I["strconv.FormatInt"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		v, b := args[0].(*Term), args[1].(*Term)
		if !b.isConst() {
			return th.rawCall(fn, args)
		}
		if v.isConst() {
			return p.strC(strconv.FormatInt(v.sval(), int(b.k)))
		}
		if b.k != 10 {
			p.unsupported("FormatInt of symbolic value in base %d", b.k)
		}
		return Str{opq: &Opaque{kind: 'd', t: v}}
	}
	I["strconv.Itoa"] = func(th *Thread, fn *ssa.Function, args A) value {
		v := args[0].(*Term)
		if v.isConst() {
			return th.p.strC(strconv.FormatInt(v.sval(), 10))
		}
		return Str{opq: &Opaque{kind: 'd', t: v}}
	}
	I["strconv.AppendInt"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		v, b := args[1].(*Term), args[2].(*Term)
		var s Str
		if v.isConst() && b.isConst() {
			s = p.strC(strconv.FormatInt(v.sval(), int(b.k)))
		} else {
			if !b.isConst() || b.k != 10 {
				p.unsupported("AppendInt base")
			}
			s = Str{opq: &Opaque{kind: 'd', t: v}}
			if sl := args[0].(Slice); p.force(sl).len == 0 {
				return p.strToBytes(s)
			}
		}
		return th.doAppend(args[0].(Slice), s, fn.Signature.Results().At(0).Type())
	}
	I["strconv.ParseFloat"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		s := p.reopen(args[0].(Str))
		bits := 64
		if b := args[1].(*Term); !b.isConst() {
			p.unsupported("ParseFloat bit size")
		} else if b.k == 32 {
			bits = 32
		}
		if s.opq != nil && bits == 32 {
			t := p.concretize(s.opq.t, "ParseFloat")
			if s.opq.kind == 'f' {
				s = p.strC(fmtFloat(t))
			} else {
				s = p.strC(strconv.FormatInt(int64(t), 10))
			}
		}
		if s.opq != nil {
			switch s.opq.kind {
			case 'f':
				return tuple{s.opq.t, iface{}}
			case 'd':
				if s.opq.t.isConst() {
					return tuple{p.tf.C(64, math.Float64bits(float64(int64(s.opq.t.k)))), iface{}}
				}
				return tuple{p.tf.mk(OI2F, 64, s.opq.t, nil, nil, 0), iface{}}
			}
		}
		c, ok := s.concrete()
		if !ok {
			p.unsupported("ParseFloat of symbolic bytes")
		}
		f, err := strconv.ParseFloat(c, bits)
		e := iface{}
		if err != nil {
			which := "ErrSyntax"
			if err.(*strconv.NumError).Err == strconv.ErrRange {
				which = "ErrRange"
			}
			e = th.numError("ParseFloat", s, which)
		}
		return tuple{p.tf.C(64, math.Float64bits(f)), e}
	}
	I["strconv.FormatFloat"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		v, f, pr, bs := args[0].(*Term), args[1].(*Term), args[2].(*Term), args[3].(*Term)
		if !f.isConst() || !pr.isConst() || !bs.isConst() {
			p.unsupported("FormatFloat parameters")
		}
		if bs.k != 32 && bs.k != 64 {
			th.rtPanic("strconv: illegal AppendFloat/FormatFloat bitSize")
		}
		if !v.isConst() && byte(f.k) == 'f' && pr.sval() == -1 && bs.k == 64 {
			return Str{opq: &Opaque{kind: 'f', t: v}}
		}
		return p.strC(strconv.FormatFloat(math.Float64frombits(p.concretize(v, "FormatFloat")), byte(f.k), int(pr.sval()), int(bs.k)))
	}
	I["strconv.AppendFloat"] = func(th *Thread, fn *ssa.Function, args A) value {
		s := I["strconv.FormatFloat"](th, fn, args[1:]).(Str)
		if s.opq != nil && th.p.force(args[0].(Slice)).len == 0 {
			return th.p.strToBytes(s)
		}
		return th.doAppend(args[0].(Slice), s, fn.Signature.Results().At(0).Type())
	}
	I["strconv.Quote"] = func(th *Thread, fn *ssa.Function, args A) value {
		if c, ok := args[0].(Str).concrete(); ok {
			return th.p.strC(strconv.Quote(c))
		}
		return th.rawCall(fn, args)
	}

	// ---- math ----
	id := func(th *Thread, fn *ssa.Function, args A) value { return args[0] }
	I["math.Float64bits"] = id
	I["math.Float64frombits"] = id
	I["math.Abs"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.p.tf.And(args[0].(*Term), th.p.tf.C(64, 1<<63-1))
	}
	mathFn := func(f func(float64) float64) intrinsic {
		return func(th *Thread, fn *ssa.Function, args A) value {
			t := args[0].(*Term)
			if !t.isConst() {
				th.p.unsupported("math function on symbolic float")
			}
			return th.p.tf.C(64, math.Float64bits(f(math.Float64frombits(t.k))))
		}
	}
	I["math.Floor"] = mathFn(math.Floor)
	I["math.Ceil"] = mathFn(math.Ceil)
	I["math.Trunc"] = mathFn(math.Trunc)
	I["math.Sqrt"] = mathFn(math.Sqrt)

	// ---- math/rand: an arbitrary value of the documented range ----
	rnd := func(ai int) intrinsic {
		return func(th *Thread, fn *ssa.Function, args A) value {
			p := th.p
			n := args[ai].(*Term)
			if n.isConst() && int64(n.sval()) <= 0 {
				th.panicStr("invalid argument to Intn")
			}
			r := p.fresh("rnd", n.w)
			if !n.isConst() {
				if !p.branch(p.tf.Slt(p.tf.C(n.w, 0), n)) {
					th.panicStr("invalid argument to Intn")
				}
			}
			p.assume(p.tf.Ult(r, n))
			return r
		}
	}
	for _, pk := range []string{"math/rand", "math/rand/v2"} {
		for _, f := range []string{"Intn", "Int63n", "Int31n", "IntN", "Int64N", "Int32N", "N"} {
			I[pk+"."+f] = rnd(0)
			I["(*"+pk+".Rand)."+f] = rnd(1)
		}
		for _, f := range []string{"Int", "Int63", "Int64"} {
			g := func(th *Thread, fn *ssa.Function, args A) value {
				r := th.p.fresh("rnd", 64)
				th.p.assume(th.p.tf.Sle(th.p.tf.C(64, 0), r))
				return r
			}
			I[pk+"."+f] = g
			I["(*"+pk+".Rand)."+f] = g
		}
		I[pk+".Seed"] = zeroFn
		I[pk+".NewSource"] = zeroFn
		I[pk+".New"] = func(th *Thread, fn *ssa.Function, args A) value {
			v := new(value)
			*v = th.p.zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
			return v
		}
		shuffle := func(th *Thread, n *Term, swap value) value {
			p := th.p
			k := int(p.concretize(n, "shuffle"))
			for i := k - 1; i > 0; i-- {
				j := p.choice(i + 1)
				th.call(th.fr, swap, []value{p.tf.C(64, uint64(i)), p.tf.C(64, uint64(j))})
			}
			return nil
		}
		I[pk+".Shuffle"] = func(th *Thread, fn *ssa.Function, args A) value { return shuffle(th, args[0].(*Term), args[1]) }
		I["(*"+pk+".Rand).Shuffle"] = func(th *Thread, fn *ssa.Function, args A) value { return shuffle(th, args[1].(*Term), args[2]) }
		I[pk+".Perm"] = func(th *Thread, fn *ssa.Function, args A) value {
			p := th.p
			k := int(p.concretize(args[0].(*Term), "perm"))
			rem := make([]value, k)
			for i := range rem {
				rem[i] = p.tf.C(64, uint64(i))
			}
			for i := k - 1; i > 0; i-- {
				j := p.choice(i + 1)
				rem[i], rem[j] = rem[j], rem[i]
			}
			return Slice{arr: &Arr{e: rem}, len: k, cap: k}
		}
	}

	// ---- sort.Slice ----
	ss := func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		s := p.force(args[0].(iface).v.(Slice))
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				r := th.call(th.fr, args[1], []value{p.tf.C(64, uint64(j)), p.tf.C(64, uint64(j-1))}).(*Term)
				if !p.branch(r) {
					break
				}
				a, b := &s.arr.e[s.off+j], &s.arr.e[s.off+j-1]
				th.accessDeep(a, true)
				th.accessDeep(b, true)
				*a, *b = *b, *a
			}
		}
		return nil
	}
	I["sort.Slice"] = ss
	I["sort.SliceStable"] = ss

	// ---- net ----
	I["net.ParseIP"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		c, ok := args[0].(Str).concrete()
		if !ok {
			return th.rawCall(fn, args)
		}
		ip := net.ParseIP(c)
		if ip == nil {
			return Slice{}
		}
		e := make([]value, len(ip))
		for i := range ip {
			e[i] = p.tf.C(8, uint64(ip[i]))
		}
		return Slice{arr: &Arr{e: e}, len: len(e), cap: len(e)}
	}
	I["unique.Make"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		key := fn.String() + fmt.Sprint(describeKey(args[0]))
		if p.w.uniq == nil {
			p.w.uniq = map[string]*value{}
		}
		v := p.w.uniq[key]
		if v == nil {
			v = new(value)
			*v = args[0]
			p.w.uniq[key] = v
		}
		return structure{v}
	}

	// ---- the harness runtime ----
	const Z = "gRedis/zzverif."
	in := func(th *Thread, kind, name string, t *Term) {
		th.p.inputs = append(th.p.inputs, inputRec{kind: kind, name: name, t: t})
	}
	I[Z+"Int64"] = func(th *Thread, fn *ssa.Function, args A) value {
		t := th.p.fresh("i", 64)
		in(th, "int", th.p.name(args[0]), t)
		return t
	}
	I[Z+"Int"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		t := p.fresh("i", 64)
		p.assume(p.tf.BAnd(p.tf.Sle(args[1].(*Term), t), p.tf.Sle(t, args[2].(*Term))))
		in(th, "int", p.name(args[0]), t)
		return t
	}
	I[Z+"Bool"] = func(th *Thread, fn *ssa.Function, args A) value {
		t := th.p.fresh("b", 0)
		in(th, "bool", th.p.name(args[0]), t)
		return t
	}
	I[Z+"Float"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		t := p.fresh("f", 64)
		p.assume(p.tf.mk(OFIsFinite, 0, t, nil, nil, 0))
		in(th, "float", p.name(args[0]), t)
		return t
	}
	I[Z+"Bytes"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		n := int(p.concretize(args[1].(*Term), "bytes len"))
		e := make([]value, n)
		ts := make([]*Term, n)
		for i := range e {
			ts[i] = p.fresh("y", 8)
			e[i] = ts[i]
		}
		p.inputs = append(p.inputs, inputRec{kind: "bytes", name: p.name(args[0]), ts: ts})
		return Slice{arr: &Arr{e: e}, len: n, cap: n}
	}
	I[Z+"Choice"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		n := int(p.concretize(args[1].(*Term), "choice"))
		k := p.choice(n)
		t := p.tf.C(64, uint64(k))
		in(th, "int", p.name(args[0]), t)
		return t
	}
	I[Z+"Concrete"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.p.tf.C(64, th.p.concretize(args[0].(*Term), "harness value"))
	}
	I[Z+"Assume"] = func(th *Thread, fn *ssa.Function, args A) value { th.p.assume(args[0].(*Term)); return nil }
	I[Z+"Assert"] = func(th *Thread, fn *ssa.Function, args A) value {
		th.p.assertProp(args[0].(*Term), th.p.name(args[1]))
		return nil
	}
	I[Z+"Reach"] = func(th *Thread, fn *ssa.Function, args A) value { th.p.w.st.Reach[th.p.name(args[0])]++; return nil }
	I[Z+"SetClock"] = func(th *Thread, fn *ssa.Function, args A) value { th.p.clock = args[0].(*Term); return nil }
	I[Z+"TickAt"] = func(th *Thread, fn *ssa.Function, args A) value { th.p.tick = int(args[0].(*Term).k); return nil }
	I[Z+"MapOrder"] = func(th *Thread, fn *ssa.Function, args A) value { th.p.mapOrder = int(args[0].(*Term).k); return nil }
	I[Z+"Tier"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.p.tf.C(64, uint64(th.p.w.cfg.Tier))
	}
	I[Z+"Symbolic"] = func(th *Thread, fn *ssa.Function, args A) value { return th.p.tf.True }
	I[Z+"And"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.p.tf.BAnd(args[0].(*Term), args[1].(*Term))
	}
	I[Z+"Or"] = func(th *Thread, fn *ssa.Function, args A) value { return th.p.tf.BOr(args[0].(*Term), args[1].(*Term)) }
	I[Z+"Not"] = func(th *Thread, fn *ssa.Function, args A) value { return th.p.tf.Not(args[0].(*Term)) }
	I[Z+"Ite"] = func(th *Thread, fn *ssa.Function, args A) value {
		return th.p.tf.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term))
	}
	I[Z+"File"] = func(th *Thread, fn *ssa.Function, args A) value {
		p := th.p
		if p.files == nil {
			p.files = map[string]Str{}
		}
		nm := "/virtual/" + p.name(args[0])
		p.files[nm] = Str{b: p.bytes(th.bytesToStrForced(args[1].(Slice)))}
		return p.strC(nm)
	}
	I[Z+"TempDir"] = func(th *Thread, fn *ssa.Function, args A) value { return th.p.strC("/virtual") }
	par := func(announce bool) intrinsic {
		return func(th *Thread, fn *ssa.Function, args A) value {
			p := th.p
			sw := int(args[0].(*Term).k)
			p.sched.runExplore(th, th.variadic(args[1]), announce, sw)
			return nil
		}
	}
	I[Z+"Par"] = par(false)
	I[Z+"ParD"] = par(true)
	I[Z+"Sent"] = func(th *Thread, fn *ssa.Function, args A) value {
		s := th.bytesToStr(args[0].(Slice))
		if s.opq != nil {
			return th.p.strToBytes(s)
		}
		b := append(append([]*Term{}, s.b...), th.p.tf.C(8, '\r'), th.p.tf.C(8, '\n'))
		r := th.p.strToBytes(Str{b: b})
		r.cap = r.len
		r.len -= 2
		return r
	}
	I[Z+"Steps"] = func(th *Thread, fn *ssa.Function, args A) value {
		if n := args[0].(*Term).sval(); n > th.p.maxSteps {
			th.p.maxSteps = n
		}
		return nil
	}
	I[Z+"AllowExit"] = func(th *Thread, fn *ssa.Function, args A) value { th.p.exitOK = true; return nil }
	I[Z+"RealLog"] = func(th *Thread, fn *ssa.Function, args A) value { th.p.realLog = true; return nil }
	I[Z+"IgnoreRaces"] = func(th *Thread, fn *ssa.Function, args A) value { th.p.ignoreRaces = true; return nil }
	I[Z+"Quiesce"] = func(th *Thread, fn *ssa.Function, args A) value {
		s := th.p.sched
		// let every other thread run until it blocks
		for i := 0; i < 10000; i++ {
			var next *Thread
			for _, t := range s.threads {
				if t != th && s.enabled(t) {
					next = t
					break
				}
			}
			if next == nil {
				break
			}
			th.pend = pendOp{}
			s.transfer(th, next)
		}
		n := 0
		for _, t := range s.threads {
			if t != th && !t.done {
				n++
			}
		}
		return th.p.tf.C(64, uint64(n))
	}
	I[Z+"Goroutines"] = I[Z+"Quiesce"]
}

func describeKey(v value) string {
	switch x := v.(type) {
	case structure:
		var s []string
		for _, e := range x {
			s = append(s, describeKey(e))
		}
		return "{" + strings.Join(s, ",") + "}"
	case Str:
		c, ok := x.concrete()
		if !ok {
			panic(abortSignal{"unsupported: unique.Make of symbolic value"})
		}
		return strconv.Quote(c)
	case *Term:
		return x.String()
	}
	return fmt.Sprintf("%T", v)
}
