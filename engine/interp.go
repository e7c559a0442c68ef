package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled form of an SSA function ----

const (
	kNone = iota
	kReg
	kVal
	kGlobal
)

type opd struct {
	kind int
	idx  int
	val  value
	glob *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []opd
	// comma-ok flag, cached types and such
	aux any
}

type cblock struct {
	phis  []cinstr
	body  []cinstr
	b     *ssa.BasicBlock
	succs []*cblock
	preds []*ssa.BasicBlock
	index int
}

type cfunc struct {
	fn       *ssa.Function
	name     string
	nregs    int
	blocks   []*cblock
	recover_ *cblock
	hasDefer bool
	intr     intrinsic
	module   bool // belongs to the program under test
	nparams  int
	nfree    int
	calls    int64
}

type intrinsic func(th *Thread, fn *ssa.Function, args []value) value

type targetPanic struct {
	v    iface
	msg  string
	rt   bool // runtime error
	site string
}

type deferred struct {
	fn   value
	args []value
	in   *ssa.Defer
}

type Frame struct {
	th       *Thread
	cf       *cfunc
	regs     []value
	block    *cblock
	prev     *ssa.BasicBlock
	defers   []deferred
	result   value
	panicked *targetPanic
	caller   *Frame
}

func (w *Worker) compile(fn *ssa.Function) *cfunc {
	if cf, ok := w.funcs[fn]; ok {
		return cf
	}
	cf := &cfunc{fn: fn}
	w.funcs[fn] = cf
	org := fn
	if o := fn.Origin(); o != nil {
		org = o
	}
	cf.name = org.String()
	cf.module = w.prog.isModule(fn)
	if h, ok := intrinsics[cf.name]; ok {
		cf.intr = h
	} else if h := prefixIntrinsic(cf.name, org); h != nil {
		cf.intr = h
	}
	if len(fn.Blocks) == 0 {
		return cf
	}
	slots := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		slots[p] = n
		n++
	}
	cf.nparams = n
	for _, p := range fn.FreeVars {
		slots[p] = n
		n++
	}
	cf.nfree = n - cf.nparams
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				slots[v] = n
				n++
			}
		}
	}
	cf.nregs = n
	mk := func(v ssa.Value) opd {
		switch v := v.(type) {
		case nil:
			return opd{}
		case *ssa.Const:
			return opd{kind: kVal, val: w.constVal(v)}
		case *ssa.Global:
			return opd{kind: kGlobal, glob: v}
		case *ssa.Function:
			return opd{kind: kVal, val: v}
		case *ssa.Builtin:
			return opd{kind: kVal, val: builtinFn{v.Name()}}
		}
		i, ok := slots[v]
		if !ok {
			panic(abortSignal{fmt.Sprintf("unsupported: operand %T", v)})
		}
		return opd{kind: kReg, idx: i}
	}
	cf.blocks = make([]*cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cf.blocks[i] = &cblock{b: b, index: i, preds: b.Preds}
	}
	for i, b := range fn.Blocks {
		cb := cf.blocks[i]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, cf.blocks[s.Index])
		}
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range in.Edges {
					ci.ops = append(ci.ops, mk(e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			case *ssa.Defer:
				cf.hasDefer = true
			}
			var rands [8]*ssa.Value
			for _, r := range in.Operands(rands[:0]) {
				if r == nil || *r == nil {
					ci.ops = append(ci.ops, opd{})
					continue
				}
				ci.ops = append(ci.ops, mk(*r))
			}
			cb.body = append(cb.body, ci)
		}
	}
	if fn.Recover != nil {
		cf.recover_ = cf.blocks[fn.Recover.Index]
	}
	return cf
}

func (w *Worker) constVal(c *ssa.Const) value {
	p := w.zp
	t := c.Type().Underlying()
	if c.Value == nil {
		return p.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(abortSignal{"unsupported: const of type param"})
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic(abortSignal{"unsupported: const " + c.String()})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return w.tf.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return p.strC(constant.StringVal(c.Value))
		}
		return p.strC(string(rune(c.Int64())))
	case b.Info()&types.IsInteger != 0:
		if isSigned(b) {
			return w.tf.C(width(b), uint64(c.Int64()))
		}
		return w.tf.C(width(b), c.Uint64())
	case b.Info()&types.IsFloat != 0:
		return w.tf.C(64, math.Float64bits(c.Float64()))
	case b.Kind() == types.UnsafePointer:
		return (*value)(nil)
	}
	return nil // complex: unsupported when used
}

func (fr *Frame) get(o *opd) value {
	switch o.kind {
	case kReg:
		return fr.regs[o.idx]
	case kVal:
		return o.val
	case kGlobal:
		return fr.th.p.global(o.glob)
	}
	return nil
}

func (p *Path) global(g *ssa.Global) *value {
	w := p.w
	if w.prog.moduleG(g) {
		if v, ok := p.globals[g]; ok {
			return v
		}
		v := new(value)
		*v = p.zero(g.Type().(*types.Pointer).Elem())
		p.globals[g] = v
		return v
	}
	if v, ok := w.stdGlobals[g]; ok {
		w.initStd(g.Pkg)
		return v
	}
	v := new(value)
	*v = w.zp.zero(g.Type().(*types.Pointer).Elem())
	w.stdGlobals[g] = v
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
		p.osGlobal(g, v)
	}
	w.initStd(g.Pkg)
	return v
}

// osGlobal: the variables of package os, which is not initialised, that code uses.
func (p *Path) osGlobal(g *ssa.Global, v *value) {
	w := p.w
	switch g.Name() {
	case "Args":
		*v = Slice{arr: &Arr{e: []value{w.zp.strC("gredis")}}, len: 1, cap: 1}
	case "Interrupt", "Kill":
		if t := g.Pkg.Pkg.Scope().Lookup("Signal"); t != nil && w.prog.sysSignal != nil {
			n := uint64(2)
			if g.Name() == "Kill" {
				n = 9
			}
			*v = iface{t: w.prog.sysSignal, v: w.zp.tf.C(64, n)}
		}
	case "ErrNotExist", "ErrExist", "ErrPermission", "ErrInvalid", "ErrClosed":
		if w.prog.fsPkg != nil {
			*v = *p.global(w.prog.fsPkg.Var(g.Name()))
		}
	}
}

// initStd runs the package initialiser of a standard-library package the
// first time one of its variables is touched (leniently: what cannot be
// executed leaves zero values).
func (w *Worker) initStd(pkg *ssa.Package) {
	if pkg == nil || w.stdInit[pkg] {
		return
	}
	w.stdInit[pkg] = true
	if noInit[pkg.Pkg.Path()] {
		return
	}
	fn := pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	p := w.newPath(&Item{})
	p.lenient = true
	p.maxSteps = 5_000_000
	th := &Thread{p: p, id: 0}
	p.sched = &Sched{p: p}
	p.sched.threads = []*Thread{th}
	saveFns := w.curStats
	w.curStats = false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortSignal); ok {
					return
				}
				if _, ok := r.(*targetPanic); ok {
					return
				}
				panic(r)
			}
		}()
		th.callSSA(nil, fn, nil, nil)
	}()
	w.curStats = saveFns
}

func (th *Thread) rtPanic(msg string) {
	p := th.p
	panic(&targetPanic{v: iface{t: p.w.prog.runtimeErrType, v: p.strC(msg)}, msg: msg, rt: true, site: th.where()})
}

func (th *Thread) where() string {
	var parts []string
	for fr, n := th.fr, 0; fr != nil && n < 12; fr, n = fr.caller, n+1 {
		parts = append(parts, fr.cf.name)
	}
	return strings.Join(parts, " < ")
}

// call invokes a function value.
func (th *Thread) call(caller *Frame, fv value, args []value) value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			th.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		}
		return th.callSSA(caller, f, args, nil)
	case *Closure:
		return th.callSSA(caller, f.fn, args, f.env)
	case *nativeFn:
		return f.f(th, args)
	case builtinFn:
		return th.builtin(caller, f.name, args, nil)
	case nil:
		th.rtPanic("nil func call")
	}
	th.p.unsupported("call of %T", fv)
	return nil
}

const maxDepth = 3000

func (th *Thread) callSSA(caller *Frame, fn *ssa.Function, args, env []value) value {
	p := th.p
	w := p.w
	cf := w.compile(fn)
	if cf.intr != nil {
		if w.curStats {
			w.st.Intrinsics[cf.name]++
		}
		return cf.intr(th, fn, args)
	}
	return th.callBody(caller, cf, fn, args, env)
}

func (th *Thread) callBody(caller *Frame, cf *cfunc, fn *ssa.Function, args, env []value) value {
	p := th.p
	w := p.w
	if caller != nil && p.inInit == 1 && fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn.Pkg != p.initPkg {
		return nil // module packages are initialised in dependency order; std lazily
	}
	if p.lenient && fn.Name() == "init" && fn.Pkg != nil && caller != nil && fn.Signature.Recv() == nil && fn.Pkg != caller.cf.fn.Pkg {
		return nil // other packages are initialised lazily
	}
	if cf.blocks == nil {
		if p.lenient {
			return p.zeroResult(fn)
		}
		p.unsupported("function without body %s", cf.name)
	}
	if !cf.module && deniedPkg(fn) && !p.lenient {
		p.unsupported("call into %s", cf.name)
	}
	if w.curStats {
		cf.calls++
	}
	th.depth++
	if th.depth > maxDepth {
		th.depth--
		p.abort("depth limit")
	}
	fr := &Frame{th: th, cf: cf, caller: th.fr, regs: make([]value, cf.nregs), block: cf.blocks[0]}
	copy(fr.regs, args)
	copy(fr.regs[cf.nparams:], env)
	saved := th.fr
	th.fr = fr
	if !cf.hasDefer {
		fr.run()
	} else {
		for fr.block != nil {
			fr.runDeferring()
		}
	}
	th.fr = saved
	th.depth--
	return fr.result
}

func (p *Path) zeroResult(fn *ssa.Function) value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return p.zero(rs.At(0).Type())
	}
	return p.zero(rs)
}

func (fr *Frame) runDeferring() {
	th := fr.th
	depth := th.depth
	nd := len(th.deferFr)
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		th.deferFr = th.deferFr[:nd]
		th.fr = fr
		th.depth = depth
		fr.panicked = tp
		fr.runDefers()
		// recovered
		fr.block = fr.cf.recover_
		fr.prev = nil
		if fr.block == nil {
			// no named results: return zero values
			fr.result = th.p.zeroResult(fr.cf.fn)
		}
	}()
	fr.run()
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicked != nil {
		panic(fr.panicked)
	}
}

func (fr *Frame) runDefer(d deferred) {
	th := fr.th
	depth := th.depth
	nd := len(th.deferFr)
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		tp, is := r.(*targetPanic)
		if !is {
			panic(r)
		}
		th.deferFr = th.deferFr[:nd]
		th.fr = fr
		th.depth = depth
		fr.panicked = tp // replaces the current panic
	}()
	th.deferFr = append(th.deferFr, fr)
	if b, isb := d.fn.(builtinFn); isb {
		th.builtin(fr, b.name, d.args, &d.in.Call)
	} else {
		th.call(fr, d.fn, d.args)
	}
	th.deferFr = th.deferFr[:len(th.deferFr)-1]
	ok = true
}

func (fr *Frame) run() {
	th := fr.th
	p := th.p
	tf := p.tf
	for {
		cb := fr.block
		if len(cb.phis) > 0 {
			pi := 0
			for i, pr := range cb.preds {
				if pr == fr.prev {
					pi = i
					break
				}
			}
			if len(cb.phis) == 1 {
				fr.regs[cb.phis[0].dst] = fr.get(&cb.phis[0].ops[pi])
			} else {
				var tmp [16]value
				vals := tmp[:0]
				for i := range cb.phis {
					vals = append(vals, fr.get(&cb.phis[i].ops[pi]))
				}
				for i := range cb.phis {
					fr.regs[cb.phis[i].dst] = vals[i]
				}
			}
		}
		p.steps += int64(len(cb.body)) + 1
		if p.steps > p.maxSteps {
			p.stepLimit(th)
		}
		for i := range cb.body {
			ci := &cb.body[i]
			switch in := ci.in.(type) {
			case *ssa.If:
				c := fr.get(&ci.ops[0]).(*Term)
				var taken bool
				if c.op == OConst {
					taken = c.k == 1
				} else {
					taken = p.branch(c)
				}
				fr.prev = cb.b
				if taken {
					fr.block = cb.succs[0]
				} else {
					fr.block = cb.succs[1]
				}
			case *ssa.Jump:
				fr.prev = cb.b
				fr.block = cb.succs[0]
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(tuple, len(ci.ops))
					for i := range ci.ops {
						t[i] = fr.get(&ci.ops[i])
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.Panic:
				v := fr.get(&ci.ops[0]).(iface)
				panic(&targetPanic{v: v, msg: p.describe(v), site: th.where()})
			case *ssa.BinOp:
				fr.regs[ci.dst] = th.binop(in.Op, in.X.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in)
			case *ssa.UnOp:
				fr.regs[ci.dst] = fr.unop(in, ci)
			case *ssa.Call:
				fr.regs[ci.dst] = fr.doCall(&in.Call, ci)
			case *ssa.Store:
				th.store(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			case *ssa.Alloc:
				v := new(value)
				*v = p.zero(in.Type().Underlying().(*types.Pointer).Elem())
				fr.regs[ci.dst] = v
			case *ssa.FieldAddr:
				x := fr.get(&ci.ops[0])
				xp, ok := x.(*value)
				if !ok {
					p.unsupported("FieldAddr on %T", x)
				}
				if xp == nil {
					th.rtPanic("invalid memory address or nil pointer dereference")
				}
				s, ok := (*xp).(structure)
				if !ok || in.Field >= len(s) {
					p.unsupported("FieldAddr into %T", *xp)
				}
				fr.regs[ci.dst] = &s[in.Field]
			case *ssa.Field:
				fr.regs[ci.dst] = fr.get(&ci.ops[0]).(structure)[in.Field]
			case *ssa.IndexAddr:
				fr.regs[ci.dst] = th.indexAddr(in, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]).(*Term))
			case *ssa.Index:
				fr.regs[ci.dst] = th.index(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]).(*Term), in.Index.Type())
			case *ssa.Lookup:
				fr.regs[ci.dst] = th.lookup(in, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			case *ssa.MapUpdate:
				m := fr.get(&ci.ops[0]).(*Map)
				if m == nil {
					th.panicStr("assignment to entry in nil map")
				}
				th.access(&m.loc, true)
				p.mapSet(m, fr.get(&ci.ops[1]), copyVal(fr.get(&ci.ops[2])))
			case *ssa.Extract:
				t, ok := fr.get(&ci.ops[0]).(tuple)
				if !ok {
					p.unsupported("extract from %T in %s", fr.get(&ci.ops[0]), fr.cf.name)
				}
				fr.regs[ci.dst] = t[in.Index]
			case *ssa.Slice:
				fr.regs[ci.dst] = fr.doSlice(in, ci)
			case *ssa.MakeInterface:
				fr.regs[ci.dst] = iface{t: in.X.Type(), v: copyVal(fr.get(&ci.ops[0]))}
			case *ssa.ChangeInterface:
				fr.regs[ci.dst] = fr.get(&ci.ops[0])
			case *ssa.ChangeType:
				fr.regs[ci.dst] = fr.get(&ci.ops[0])
			case *ssa.Convert:
				fr.regs[ci.dst] = th.conv(in.Type(), in.X.Type(), fr.get(&ci.ops[0]))
			case *ssa.MultiConvert:
				fr.regs[ci.dst] = th.conv(in.Type(), in.X.Type(), fr.get(&ci.ops[0]))
			case *ssa.SliceToArrayPointer:
				p.unsupported("slice to array pointer")
			case *ssa.TypeAssert:
				fr.regs[ci.dst] = th.typeAssert(in, fr.get(&ci.ops[0]).(iface))
			case *ssa.MakeClosure:
				env := make([]value, len(ci.ops)-1)
				for i := range env {
					env[i] = fr.get(&ci.ops[i+1])
				}
				fr.regs[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}
			case *ssa.MakeMap:
				fr.regs[ci.dst] = &Map{kt: in.Type().Underlying().(*types.Map).Key()}
			case *ssa.MakeSlice:
				fr.regs[ci.dst] = th.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), fr.get(&ci.ops[0]).(*Term), fr.get(&ci.ops[1]).(*Term), in.Len.Type())
			case *ssa.MakeChan:
				n := p.concretize(tf.Sext(fr.get(&ci.ops[0]).(*Term), 64), "chan size")
				if int64(n) < 0 || n > 1<<20 {
					th.panicStr("makechan: size out of range")
				}
				fr.regs[ci.dst] = &Chan{cap: int(n)}
			case *ssa.Range:
				switch x := fr.get(&ci.ops[0]).(type) {
				case *Map:
					if x != nil {
						th.access(&x.loc, false)
					}
					fr.regs[ci.dst] = p.newMapIter(x)
				case Str:
					fr.regs[ci.dst] = &strIter{s: Str{b: p.bytes(x)}}
				default:
					p.unsupported("range over %T", x)
				}
			case *ssa.Next:
				fr.regs[ci.dst] = th.next(in, fr.get(&ci.ops[0]))
			case *ssa.Defer:
				fn, args := fr.prepareCall(&in.Call, ci)
				fr.defers = append(fr.defers, deferred{fn: fn, args: args, in: in})
			case *ssa.RunDefers:
				fr.runDefers()
			case *ssa.Go:
				fn, args := fr.prepareCall(&in.Call, ci)
				p.sched.spawn(th, fn, args)
			case *ssa.Send:
				th.chanSend(fr.get(&ci.ops[0]).(*Chan), fr.get(&ci.ops[1]))
			case *ssa.Select:
				fr.regs[ci.dst] = fr.doSelect(in, ci)
			default:
				p.unsupported("instruction %T", in)
			}
		}
	}
}

func (th *Thread) panicStr(msg string) {
	th.rtPanic(msg)
}

func (p *Path) describe(v iface) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case Str:
		if s, ok := x.concrete(); ok {
			return s
		}
		return "string(symbolic)"
	case *Term:
		return x.String()
	case *value:
		if x != nil {
			if s, ok := (*x).(structure); ok && len(s) > 0 {
				if st, ok := s[0].(Str); ok {
					if c, ok := st.concrete(); ok {
						return v.t.String() + "{" + c + "}"
					}
				}
			}
		}
	}
	return v.t.String()
}

// ---- memory ----

type symPtr struct {
	e   []value
	idx *Term // in range
	// references: indices with the same element
	groups [][]int
}

func (th *Thread) store(addr value, v value) {
	switch a := addr.(type) {
	case *value:
		if a == nil {
			th.rtPanic("invalid memory address or nil pointer dereference")
		}
		th.accessDeep(a, true)
		switch ns := v.(type) {
		case structure:
			if os, ok := (*a).(structure); ok && len(os) == len(ns) {
				storeInto(os, ns)
				return
			}
		case array:
			if os, ok := (*a).(array); ok && len(os) == len(ns) {
				storeInto(os, ns)
				return
			}
		}
		*a = copyVal(v)
	case *symPtr:
		i := th.p.concretize(a.idx, "store index")
		loc := &a.e[i]
		th.accessDeep(loc, true)
		*loc = copyVal(v)
	default:
		th.p.unsupported("store to %T", addr)
	}
}

// storeInto keeps the addresses of fields stable.
func storeInto(dst, src []value) {
	// the source may alias the destination
	tmp := make([]value, len(src))
	for i := range src {
		tmp[i] = copyVal(src[i])
	}
	for i := range tmp {
		switch ns := tmp[i].(type) {
		case structure:
			if os, ok := dst[i].(structure); ok && len(os) == len(ns) {
				storeInto(os, ns)
				continue
			}
		case array:
			if os, ok := dst[i].(array); ok && len(os) == len(ns) {
				storeInto(os, ns)
				continue
			}
		}
		dst[i] = tmp[i]
	}
}

func (th *Thread) load(addr value, t types.Type) value {
	switch a := addr.(type) {
	case *value:
		if a == nil {
			th.rtPanic("invalid memory address or nil pointer dereference")
		}
		th.accessDeep(a, false)
		v := *a
		switch x := v.(type) {
		case structure, array:
			return copyVal(v)
		case Slice:
			if isString(t) {
				return th.bytesToStr(x)
			}
		case Str:
			if _, ok := t.Underlying().(*types.Slice); ok {
				return th.p.strToBytes(x)
			}
		}
		return v
	case *symPtr:
		if th.p.sched.tracking {
			for i := range a.e {
				th.access(&a.e[i], false)
			}
		}
		if a.groups != nil {
			tf := th.p.tf
			for n, g := range a.groups {
				if n == len(a.groups)-1 {
					return a.e[g[0]]
				}
				c := tf.False
				for _, i := range g {
					c = tf.BOr(c, tf.Eq(a.idx, tf.C(a.idx.w, uint64(i))))
				}
				if th.p.branch(c) {
					return a.e[g[0]]
				}
			}
		}
		return th.p.iteIndex(a.e, a.idx)
	case sliceData:
		if a.s.len == 0 {
			th.p.unsupported("load through slice data")
		}
		loc := &a.s.arr.e[a.s.off]
		th.access(loc, false)
		return *loc
	}
	th.p.unsupported("load from %T", addr)
	return nil
}

func (p *Path) iteIndex(e []value, idx *Term) value {
	tf := p.tf
	// group equal values
	type grp struct {
		v *Term
		c *Term
		n int
	}
	var gs []*grp
	by := map[*Term]*grp{}
	// entries of the form index+offset share one term
	offs := map[uint64]int{}
	bestOff, offN := uint64(0), 0
	for i, x := range e {
		t, ok := x.(*Term)
		if !ok {
			i := p.concretize(idx, "index")
			return e[i]
		}
		if t.isConst() && t.w >= 8 && t.w <= idx.w {
			o := (t.k - uint64(i)) & (1<<(t.w&63) - 1)
			if t.w == 64 {
				o = t.k - uint64(i)
			}
			offs[o]++
			if offs[o] > offN {
				bestOff, offN = o, offs[o]
			}
		}
	}
	var offTerm *Term
	if offN > 8 {
		w := e[0].(*Term).w
		offTerm = tf.Add(tf.Extract(idx, 0, w), tf.C(w, bestOff))
	}
	for i, x := range e {
		t := x.(*Term)
		if offTerm != nil && t.isConst() && t == tf.C(t.w, bestOff+uint64(i)) {
			t = offTerm
		}
		eq := tf.Eq(idx, tf.C(idx.w, uint64(i)))
		if eq == tf.False {
			continue
		}
		g := by[t]
		if g == nil {
			g = &grp{v: t, c: eq, n: 1}
			by[t] = g
			gs = append(gs, g)
		} else {
			g.c = tf.BOr(g.c, eq)
			g.n++
		}
	}
	if len(gs) == 0 {
		p.unsupported("empty symbolic index")
	}
	best := 0
	for i, g := range gs {
		if g.n > gs[best].n {
			best = i
		}
	}
	r := gs[best].v
	for i, g := range gs {
		if i != best {
			r = tf.Ite(g.c, g.v, r)
		}
	}
	return r
}

func (th *Thread) boundsCheck(idx *Term, it types.Type, n int) *Term {
	p := th.p
	tf := p.tf
	var i64 *Term
	if isSigned(it) {
		i64 = tf.Sext(idx, 64)
	} else {
		i64 = tf.Zext(idx, 64)
	}
	if i64.isConst() {
		if i64.k >= uint64(n) {
			th.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i64.k), n))
		}
		return i64
	}
	if n == 0 {
		th.rtPanic("index out of range with length 0")
	}
	if !p.branch(tf.Ult(i64, tf.C(64, uint64(n)))) {
		th.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return i64
}

func (th *Thread) indexAddr(in *ssa.IndexAddr, x value, idx *Term) value {
	p := th.p
	var e []value
	switch x := x.(type) {
	case Slice:
		x = p.force(x)
		if x.arr == nil {
			th.boundsCheck(idx, in.Index.Type(), 0)
		}
		e = x.arr.e[x.off : x.off+x.len]
	case *value:
		if x == nil {
			th.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*x).(array)
		if !ok {
			p.unsupported("IndexAddr into %T", *x)
		}
		e = a
	default:
		p.unsupported("IndexAddr on %T", x)
	}
	i := th.boundsCheck(idx, in.Index.Type(), len(e))
	if i.isConst() {
		return &e[i.k]
	}
	if _, ok := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); ok && len(e) <= 512 && !isStr(e) {
		return &symPtr{e: e, idx: i}
	}
	if len(e) <= 512 && onlyLoaded(in) {
		if g := groupOf(e); g != nil {
			return &symPtr{e: e, idx: i, groups: g}
		}
	}
	k := p.concretize(i, "index")
	return &e[k]
}

// onlyLoaded: the address is used for nothing but reading the element.
func onlyLoaded(in *ssa.IndexAddr) bool {
	for _, r := range *in.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// groupOf gathers the indices of identical references; nil if the elements are
// not references or almost all differ.
func groupOf(e []value) [][]int {
	by := map[any]int{}
	var g [][]int
	for i, x := range e {
		switch y := x.(type) {
		case nil, *value, *Map, *Closure, *ssa.Function, *Chan:
		case Slice:
			if y.lazy {
				return nil
			}
		default:
			return nil
		}
		j, ok := by[x]
		if !ok {
			j = len(g)
			by[x] = j
			g = append(g, nil)
		}
		g[j] = append(g[j], i)
	}
	if len(g) > len(e)/2 {
		return nil
	}
	// small groups first: the last one needs no question
	sort.SliceStable(g, func(a, b int) bool { return len(g[a]) < len(g[b]) })
	return g
}

func isStr(e []value) bool {
	if len(e) == 0 {
		return false
	}
	_, ok := e[0].(Str)
	return ok
}

func (th *Thread) index(x value, idx *Term, it types.Type) value {
	p := th.p
	var e []value
	switch x := x.(type) {
	case array:
		e = x
	case Str:
		bs := p.bytes(x)
		i := th.boundsCheck(idx, it, len(bs))
		if i.isConst() {
			return bs[i.k]
		}
		e = make([]value, len(bs))
		for j := range bs {
			e[j] = bs[j]
		}
		return p.iteIndex(e, i)
	default:
		p.unsupported("Index on %T", x)
	}
	i := th.boundsCheck(idx, it, len(e))
	if i.isConst() {
		return copyVal(e[i.k])
	}
	return copyVal(p.iteIndex(e, i))
}

func (th *Thread) lookup(in *ssa.Lookup, x, k value) value {
	p := th.p
	switch x := x.(type) {
	case Str:
		return th.index(x, k.(*Term), in.Index.Type())
	case *Map:
		var v value
		ok := false
		if x != nil {
			th.access(&x.loc, false)
			if e := p.mapLookup(x, k); e != nil {
				v = copyVal(e.v)
				ok = true
			}
		}
		if !ok {
			v = p.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return tuple{v, p.tf.Bool(ok)}
		}
		return v
	}
	p.unsupported("lookup in %T", x)
	return nil
}

func (p *Path) newMapIter(m *Map) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	n := len(m.ents)
	it.rem = append(it.rem, m.ents...)
	if n > 1 {
		switch p.mapOrder {
		case 1: // reverse
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				it.rem[i], it.rem[j] = it.rem[j], it.rem[i]
			}
		case 3: // any rotation
			k := p.choice(n)
			it.rem = append(append([]*mapEntry{}, it.rem[k:]...), it.rem[:k]...)
		}
	}
	return it
}

func (th *Thread) next(in *ssa.Next, it value) value {
	p := th.p
	tf := p.tf
	switch it := it.(type) {
	case *mapIter:
		if it.m != nil {
			th.access(&it.m.loc, false)
		}
		for {
			// drop dead entries
			live := it.rem[:0:0]
			for _, e := range it.rem {
				if !e.dead {
					live = append(live, e)
				}
			}
			it.rem = live
			if len(it.rem) == 0 {
				tt := in.Type().(*types.Tuple)
				return tuple{tf.False, p.zeroOrNil(tt.At(1).Type()), p.zeroOrNil(tt.At(2).Type())}
			}
			k := 0
			if p.mapOrder == 2 && len(it.rem) > 1 {
				k = p.choice(len(it.rem))
			}
			e := it.rem[k]
			it.rem = append(append([]*mapEntry{}, it.rem[:k]...), it.rem[k+1:]...)
			return tuple{tf.True, e.k, copyVal(e.v)}
		}
	case *strIter:
		if it.pos >= len(it.s.b) {
			return tuple{tf.False, tf.C(64, 0), tf.C(32, 0)}
		}
		pos := it.pos
		b := it.s.b[pos]
		if p.branch(tf.Ult(b, tf.C(8, 0x80))) {
			it.pos++
			return tuple{tf.True, tf.C(64, uint64(pos)), tf.Zext(b, 32)}
		}
		fn := p.w.prog.utf8Decode
		if fn == nil {
			p.unsupported("range over non-ascii string")
		}
		r := th.callSSA(th.fr, fn, []value{Str{b: it.s.b[pos:]}}, nil).(tuple)
		n := p.concretize(r[1].(*Term), "rune size")
		it.pos += int(n)
		return tuple{tf.True, tf.C(64, uint64(pos)), r[0]}
	}
	p.unsupported("next on %T", it)
	return nil
}

func (p *Path) zeroOrNil(t types.Type) value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return p.zero(t)
}

func (th *Thread) makeSlice(et types.Type, ln, cp *Term, lt types.Type) value {
	p := th.p
	tf := p.tf
	ln, cp = tf.Sext(ln, 64), tf.Sext(cp, 64)
	es := sizeOf(et)
	if es == 0 {
		es = 1
	}
	lim := uint64(1<<47) / uint64(es)
	chk := func(t *Term, what string) int {
		if t.isConst() {
			if t.k > lim {
				th.rtPanic("makeslice: " + what + " out of range")
			}
			if t.k*uint64(es) > 1<<36 {
				th.fatal("out of memory: makeslice of " + fmt.Sprint(t.k))
			}
			if t.k > uint64(p.w.cfg.MaxAlloc) {
				p.abort("bound: allocation of " + what + " above bound")
			}
			return int(t.k)
		}
		if !p.branch(tf.Ule(t, tf.C(64, lim))) {
			th.rtPanic("makeslice: " + what + " out of range")
		}
		if !p.branch(tf.Ule(t, tf.C(64, (1<<36)/uint64(es)))) {
			th.fatal("out of memory: makeslice")
		}
		if !p.branch(tf.Ule(t, tf.C(64, uint64(p.w.cfg.SymAlloc)))) {
			p.abort("bound: allocation of " + what + " above bound")
		}
		return int(p.concretize(t, "make size"))
	}
	var n, c int
	if ln == cp {
		n = chk(ln, "len")
		c = n
	} else {
		n = chk(ln, "len")
		c = chk(cp, "cap")
		if c < n {
			th.rtPanic("makeslice: cap out of range")
		}
	}
	e := make([]value, c)
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range e {
			e[i] = p.zero(et)
		}
	default:
		if c > 0 {
			z := p.zero(et)
			for i := range e {
				e[i] = z
			}
		}
	}
	return Slice{arr: &Arr{e: e}, len: n, cap: c}
}

func (th *Thread) fatal(msg string) {
	panic(&targetPanic{v: iface{t: th.p.w.prog.runtimeErrType, v: th.p.strC(msg)}, msg: "fatal error: " + msg, rt: true, site: th.where()})
}

func (fr *Frame) doSlice(in *ssa.Slice, ci *cinstr) value {
	th := fr.th
	p := th.p
	tf := p.tf
	x := fr.get(&ci.ops[0])
	var ln, cp int
	var arr *Arr
	off := 0
	var str Str
	isS := false
	switch x := x.(type) {
	case Slice:
		x = p.force(x)
		ln, cp, arr, off = x.len, x.cap, x.arr, x.off
	case Str:
		isS = true
		if ci.ops[1].kind == kNone && ci.ops[2].kind == kNone {
			return x
		}
		str = Str{b: p.bytes(x)}
		ln, cp = len(str.b), len(str.b)
	case *value:
		if x == nil {
			th.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*x).(array)
		if !ok {
			p.unsupported("slice of %T", *x)
		}
		ln, cp, arr = len(a), len(a), &Arr{e: a}
	default:
		p.unsupported("slice of %T", x)
	}
	term := func(o *opd, def int, t ssa.Value) *Term {
		if o.kind == kNone {
			return tf.C(64, uint64(def))
		}
		v := fr.get(o).(*Term)
		if isSigned(t.Type()) {
			return tf.Sext(v, 64)
		}
		return tf.Zext(v, 64)
	}
	lo := term(&ci.ops[1], 0, in.Low)
	hi := term(&ci.ops[2], ln, in.High)
	mx := term(&ci.ops[3], cp, in.Max)
	must := func(c *Term, what string) {
		if c.isConst() {
			if c.k == 0 {
				th.rtPanic("slice bounds out of range " + what)
			}
			return
		}
		if !p.branch(c) {
			th.rtPanic("slice bounds out of range " + what)
		}
	}
	capT := tf.C(64, uint64(cp))
	must(tf.Ule(mx, capT), "[::max]")
	must(tf.Ule(hi, mx), "[:hi]")
	must(tf.Ule(lo, hi), "[lo:]")
	l := int(p.concretize(lo, "slice low"))
	h := int(p.concretize(hi, "slice high"))
	m := int(p.concretize(mx, "slice max"))
	if isS {
		return Str{b: str.b[l:h:h]}
	}
	if arr == nil {
		return Slice{}
	}
	return Slice{arr: arr, off: off + l, len: h - l, cap: m - l}
}

// ---- operators ----

func (fr *Frame) unop(in *ssa.UnOp, ci *cinstr) value {
	th := fr.th
	p := th.p
	tf := p.tf
	x := fr.get(&ci.ops[0])
	switch in.Op {
	case token.MUL:
		return th.load(x, in.Type())
	case token.ARROW:
		v, ok := th.chanRecv(x.(*Chan), in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return tuple{v, tf.Bool(ok)}
		}
		return v
	case token.NOT:
		return tf.Not(x.(*Term))
	case token.SUB:
		if isFloat(in.X.Type()) {
			return tf.Xor(x.(*Term), tf.C(64, 1<<63))
		}
		return tf.Neg(x.(*Term))
	case token.XOR:
		return tf.Compl(x.(*Term))
	}
	p.unsupported("unop %s", in.Op)
	return nil
}

func (th *Thread) binop(op token.Token, t types.Type, x, y value, in *ssa.BinOp) value {
	p := th.p
	tf := p.tf
	switch op {
	case token.EQL:
		return p.equals2(t, x, y)
	case token.NEQ:
		return tf.Not(p.equals2(t, x, y))
	}
	if xs, ok := x.(Str); ok {
		ys := y.(Str)
		switch op {
		case token.ADD:
			if len(ys.b) == 0 && ys.opq == nil {
				return xs
			}
			if len(xs.b) == 0 && xs.opq == nil {
				return ys
			}
			xb, yb := p.bytes(xs), p.bytes(ys)
			b := make([]*Term, 0, len(xb)+len(yb))
			b = append(b, xb...)
			b = append(b, yb...)
			return Str{b: b}
		case token.LSS:
			return p.strLt(xs, ys)
		case token.GTR:
			return p.strLt(ys, xs)
		case token.LEQ:
			return tf.Not(p.strLt(ys, xs))
		case token.GEQ:
			return tf.Not(p.strLt(xs, ys))
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		p.unsupported("binop %s on %T,%T", op, x, y)
	}
	if isFloat(t) {
		switch op {
		case token.ADD:
			return tf.bin(OFAdd, 64, a, b)
		case token.SUB:
			return tf.bin(OFSub, 64, a, b)
		case token.MUL:
			return tf.bin(OFMul, 64, a, b)
		case token.QUO:
			return tf.bin(OFDiv, 64, a, b)
		case token.LSS:
			return tf.bin(OFLt, 0, a, b)
		case token.LEQ:
			return tf.bin(OFLe, 0, a, b)
		case token.GTR:
			return tf.bin(OFLt, 0, b, a)
		case token.GEQ:
			return tf.bin(OFLe, 0, b, a)
		}
	}
	sg := isSigned(t)
	switch op {
	case token.ADD:
		return tf.Add(a, b)
	case token.SUB:
		return tf.Sub(a, b)
	case token.MUL:
		return tf.Mul(a, b)
	case token.QUO, token.REM:
		if b.isConst() {
			if b.k == 0 {
				th.rtPanic("integer divide by zero")
			}
		} else if p.branch(tf.Eq(b, tf.C(b.w, 0))) {
			th.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			if sg && !(nonneg(a) && nonneg(b)) {
				return tf.bin(OSDiv, a.w, a, b)
			}
			return tf.bin(OUDiv, a.w, a, b)
		}
		if sg && !(nonneg(a) && nonneg(b)) {
			return tf.bin(OSRem, a.w, a, b)
		}
		return tf.bin(OURem, a.w, a, b)
	case token.AND:
		if a.w == 0 {
			return tf.BAnd(a, b)
		}
		return tf.And(a, b)
	case token.OR:
		if a.w == 0 {
			return tf.BOr(a, b)
		}
		return tf.Or(a, b)
	case token.XOR:
		return tf.Xor(a, b)
	case token.AND_NOT:
		return tf.And(a, tf.Compl(b))
	case token.SHL, token.SHR:
		if in != nil && isSigned(in.Y.Type()) {
			neg := tf.Slt(b, tf.C(b.w, 0))
			if neg != tf.False && p.branch(neg) {
				th.rtPanic("negative shift amount")
			}
		}
		var cnt *Term
		big := tf.False
		if b.w > a.w {
			big = tf.Not(tf.Ult(b, tf.C(b.w, uint64(a.w))))
			cnt = tf.Extract(b, 0, a.w)
		} else {
			cnt = tf.Zext(b, a.w)
		}
		if op == token.SHL {
			return tf.Ite(big, tf.C(a.w, 0), tf.Shl(a, cnt))
		}
		if sg {
			return tf.Ite(big, tf.AShr(a, tf.C(a.w, uint64(a.w-1))), tf.AShr(a, cnt))
		}
		return tf.Ite(big, tf.C(a.w, 0), tf.LShr(a, cnt))
	case token.LSS:
		if sg {
			return tf.Slt(a, b)
		}
		return tf.Ult(a, b)
	case token.LEQ:
		if sg {
			return tf.Sle(a, b)
		}
		return tf.Ule(a, b)
	case token.GTR:
		if sg {
			return tf.Slt(b, a)
		}
		return tf.Ult(b, a)
	case token.GEQ:
		if sg {
			return tf.Sle(b, a)
		}
		return tf.Ule(b, a)
	}
	p.unsupported("binop %s", op)
	return nil
}

// equals2 handles comparisons between an interface and a concrete nil.
func (p *Path) equals2(t types.Type, x, y value) *Term {
	if xi, ok := x.(iface); ok {
		if yi, ok := y.(iface); ok {
			return p.equals(t, xi, yi)
		}
	}
	return p.equals(t, x, y)
}

func (th *Thread) conv(dst, src types.Type, x value) value {
	p := th.p
	tf := p.tf
	ud, us := dst.Underlying(), src.Underlying()
	switch s := us.(type) {
	case *types.Pointer:
		return x // pointer <-> unsafe.Pointer
	case *types.Slice:
		if isString(ud) {
			if eb, ok := s.Elem().Underlying().(*types.Basic); ok {
				if eb.Kind() == types.Uint8 {
					return th.bytesToStr(x.(Slice))
				}
				// []rune
				sl := p.force(x.(Slice))
				var out []*Term
				for i := 0; i < sl.len; i++ {
					out = append(out, th.runeBytes(sl.arr.e[sl.off+i].(*Term))...)
				}
				return Str{b: out}
			}
		}
		if _, ok := ud.(*types.Slice); ok {
			return x
		}
	case *types.Basic:
		if s.Kind() == types.UnsafePointer {
			return x
		}
		if s.Info()&types.IsString != 0 {
			if d, ok := ud.(*types.Slice); ok {
				eb := d.Elem().Underlying().(*types.Basic)
				if eb.Kind() == types.Uint8 {
					return p.strToBytes(x.(Str))
				}
				it := &strIter{s: Str{b: p.bytes(x.(Str))}}
				var e []value
				for {
					r := th.next(nil, it).(tuple)
					if r[0].(*Term).k == 0 {
						break
					}
					e = append(e, r[2])
				}
				return Slice{arr: &Arr{e: e}, len: len(e), cap: len(e)}
			}
			if isString(ud) {
				return x
			}
		}
		if isString(ud) {
			return Str{b: th.runeBytes(tf.Sext(x.(*Term), 64))}
		}
		t, ok := x.(*Term)
		if !ok {
			p.unsupported("convert %T", x)
		}
		d, ok := ud.(*types.Basic)
		if !ok {
			p.unsupported("convert %s to %s", src, dst)
		}
		sf, df := isFloat(us), isFloat(ud)
		switch {
		case sf && df:
			if d.Kind() == types.Float32 {
				if t.isConst() {
					return tf.C(64, math.Float64bits(float64(float32(math.Float64frombits(t.k)))))
				}
				p.unsupported("float32 conversion")
			}
			return t
		case sf:
			w := width(ud)
			if t.isConst() {
				f := math.Float64frombits(t.k)
				if isSigned(ud) {
					return tf.C(w, uint64(int64(f)))
				}
				return tf.C(w, uint64(f))
			}
			if !isSigned(ud) {
				p.unsupported("float to unsigned")
			}
			// in range of int64?
			lo := tf.C(64, math.Float64bits(-9223372036854775808.0))
			hi := tf.C(64, math.Float64bits(9223372036854775808.0))
			if !p.branch(tf.BAnd(tf.bin(OFLe, 0, lo, t), tf.bin(OFLt, 0, t, hi))) {
				return tf.C(w, 1<<63)
			}
			return tf.Extract(tf.mk(OF2I, 64, t, nil, nil, 0), 0, w)
		case df:
			var v *Term
			if isSigned(us) {
				v = tf.Sext(t, 64)
			} else {
				v = tf.Zext(t, 64)
				if t.w == 64 && !t.isConst() {
					if p.branch(tf.Slt(v, tf.C(64, 0))) {
						p.unsupported("uint64 to float")
					}
				}
				if t.isConst() {
					return tf.C(64, math.Float64bits(float64(t.k)))
				}
			}
			if v.isConst() {
				return tf.C(64, math.Float64bits(float64(int64(v.k))))
			}
			return tf.mk(OI2F, 64, v, nil, nil, 0)
		}
		w := width(ud)
		if w == t.w {
			return t
		}
		if w < t.w {
			return tf.Extract(t, 0, w)
		}
		if isSigned(us) {
			return tf.Sext(t, w)
		}
		return tf.Zext(t, w)
	}
	p.unsupported("convert %s to %s", src, dst)
	return nil
}

// runeBytes encodes one rune.
func (th *Thread) runeBytes(r *Term) []*Term {
	p := th.p
	tf := p.tf
	r = tf.Sext(r, 64)
	if r.isConst() {
		return p.strC(string(rune(int64(r.k)))).b
	}
	if p.branch(tf.Ult(r, tf.C(64, 0x80))) {
		return []*Term{tf.Extract(r, 0, 8)}
	}
	if p.branch(tf.Ult(r, tf.C(64, 0x800))) {
		return []*Term{
			tf.Or(tf.C(8, 0xC0), tf.Extract(tf.LShr(r, tf.C(64, 6)), 0, 8)),
			tf.Or(tf.C(8, 0x80), tf.And(tf.Extract(r, 0, 8), tf.C(8, 0x3f))),
		}
	}
	v := p.concretize(r, "rune")
	return p.strC(string(rune(int64(v)))).b
}

func (th *Thread) typeAssert(in *ssa.TypeAssert, x iface) value {
	p := th.p
	ok := false
	var v value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = p.w.implements(x.t, it)
			v = x
		} else {
			ok = types.Identical(x.t, in.AssertedType)
			v = copyVal(x.v)
		}
	}
	if in.CommaOk {
		if !ok {
			v = p.zero(in.AssertedType)
		}
		return tuple{v, p.tf.Bool(ok)}
	}
	if !ok {
		d := "nil"
		if x.t != nil {
			d = x.t.String()
		}
		th.rtPanic("interface conversion: interface is " + d + ", not " + in.AssertedType.String())
	}
	return v
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *Worker) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := w.implCache[k]; ok {
		return v
	}
	w.prog.mu.Lock()
	v := types.Implements(t, i)
	w.prog.mu.Unlock()
	w.implCache[k] = v
	return v
}

// ---- calls ----

func (fr *Frame) prepareCall(c *ssa.CallCommon, ci *cinstr) (value, []value) {
	th := fr.th
	if c.IsInvoke() {
		recv := fr.get(&ci.ops[0]).(iface)
		if recv.t == nil {
			th.rtPanic("invalid memory address or nil pointer dereference (nil interface method call)")
		}
		args := make([]value, 0, len(ci.ops))
		fn := th.p.w.findMethod(recv.t, c.Method)
		if fn == nil {
			th.p.unsupported("no method %s on %s", c.Method.Name(), recv.t)
		}
		args = append(args, copyVal(recv.v))
		for i := 1; i < len(ci.ops); i++ {
			args = append(args, fr.get(&ci.ops[i]))
		}
		return fn, args
	}
	fn := fr.get(&ci.ops[0])
	args := make([]value, len(ci.ops)-1)
	for i := range args {
		args[i] = fr.get(&ci.ops[i+1])
	}
	return fn, args
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.methCache[k]; ok {
		return f
	}
	w.prog.mu.Lock()
	f := w.prog.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.prog.mu.Unlock()
	w.methCache[k] = f
	return f
}

func (fr *Frame) doCall(c *ssa.CallCommon, ci *cinstr) value {
	th := fr.th
	p := th.p
	if p.lenient {
		return fr.lenientCall(c, ci)
	}
	fn, args := fr.prepareCall(c, ci)
	if b, ok := fn.(builtinFn); ok {
		return th.builtin(fr, b.name, args, c)
	}
	return th.call(fr, fn, args)
}

func (fr *Frame) lenientCall(c *ssa.CallCommon, ci *cinstr) (res value) {
	th := fr.th
	p := th.p
	depth := th.depth
	if fr.cf.fn.Name() == "init" {
		defer func() {
			if r := recover(); r != nil {
				_, isAbort := r.(abortSignal)
				_, isTP := r.(*targetPanic)
				if !isAbort && !isTP {
					// engine-level type confusion on partially initialised state
					if _, isErr := r.(error); !isErr {
						panic(r)
					}
				}
				th.fr = fr
				th.depth = depth
				rs := c.Signature().Results()
				switch rs.Len() {
				case 0:
					res = nil
				case 1:
					res = p.zero(rs.At(0).Type())
				default:
					res = p.zero(rs)
				}
			}
		}()
	}
	fn, args := fr.prepareCall(c, ci)
	if b, ok := fn.(builtinFn); ok {
		return th.builtin(fr, b.name, args, c)
	}
	return th.call(fr, fn, args)
}

func (th *Thread) builtin(fr *Frame, name string, args []value, c *ssa.CallCommon) value {
	p := th.p
	tf := p.tf
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return tf.C(64, uint64(len(p.bytes(x))))
		case Slice:
			return tf.C(64, uint64(p.force(x).len))
		case *Map:
			if x == nil {
				return tf.C(64, 0)
			}
			th.access(&x.loc, false)
			return tf.C(64, uint64(x.n))
		case array:
			return tf.C(64, uint64(len(x)))
		case *value:
			return tf.C(64, uint64(len((*x).(array))))
		case *Chan:
			if x == nil {
				return tf.C(64, 0)
			}
			return tf.C(64, uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return tf.C(64, uint64(p.force(x).cap))
		case array:
			return tf.C(64, uint64(len(x)))
		case *Chan:
			if x == nil {
				return tf.C(64, 0)
			}
			return tf.C(64, uint64(x.cap))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return th.doAppend(args[0].(Slice), args[1], c.Args[0].Type())
	case "copy":
		dst := p.force(args[0].(Slice))
		var src []value
		switch s := args[1].(type) {
		case Str:
			bs := p.bytes(s)
			src = make([]value, len(bs))
			for i := range bs {
				src[i] = bs[i]
			}
		case Slice:
			s = p.force(s)
			n := s.len
			if dst.len < n {
				n = dst.len
			}
			src = make([]value, n)
			for i := range src {
				loc := &s.arr.e[s.off+i]
				th.accessDeep(loc, false)
				src[i] = copyVal(*loc)
			}
		}
		n := len(src)
		if dst.len < n {
			n = dst.len
		}
		for i := 0; i < n; i++ {
			loc := &dst.arr.e[dst.off+i]
			th.accessDeep(loc, true)
			*loc = src[i]
		}
		return tf.C(64, uint64(n))
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			th.access(&m.loc, true)
			p.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				th.access(&x.loc, true)
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.n, x.idx = nil, 0, nil
			}
		case Slice:
			x = p.force(x)
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < x.len; i++ {
				loc := &x.arr.e[x.off+i]
				th.accessDeep(loc, true)
				*loc = p.zero(et)
			}
		}
		return nil
	case "panic":
		v := args[0].(iface)
		panic(&targetPanic{v: v, msg: p.describe(v), site: th.where()})
	case "recover":
		// the frame whose deferred call is running
		if n := len(th.deferFr); n > 0 && fr != nil && fr.caller == th.deferFr[n-1] {
			d := th.deferFr[n-1]
			if d.panicked != nil {
				tp := d.panicked
				d.panicked = nil
				return tp.v
			}
		}
		return iface{}
	case "print", "println":
		return nil
	case "close":
		th.chanClose(args[0].(*Chan))
		return nil
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, y := range args[1:] {
			var less *Term
			if name == "min" {
				less = th.binop(token.LSS, t, y, r, nil).(*Term)
			} else {
				less = th.binop(token.LSS, t, r, y, nil).(*Term)
			}
			if rt, ok := r.(*Term); ok {
				r = tf.Ite(less, y.(*Term), rt)
			} else if p.branch(less) {
				r = y
			}
		}
		return r
	case "ssa:wrapnilchk":
		if x, ok := args[0].(*value); ok && x == nil {
			th.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := int(p.concretize(tf.Sext(args[1].(*Term), 64), "unsafe.String len"))
		if n == 0 {
			return Str{}
		}
		switch d := args[0].(type) {
		case sliceData:
			return th.bytesToStr(Slice{arr: d.s.arr, off: d.s.off, len: n, cap: n})
		case Str:
			return Str{b: p.bytes(d)[:n]}
		}
	case "SliceData":
		s := p.force(args[0].(Slice))
		return sliceData{s}
	case "StringData":
		return args[0]
	case "Slice": // unsafe.Slice
		n := int(p.concretize(tf.Sext(args[1].(*Term), 64), "unsafe.Slice len"))
		switch d := args[0].(type) {
		case sliceData:
			return Slice{arr: d.s.arr, off: d.s.off, len: n, cap: n}
		case Str:
			s := p.strToBytes(Str{b: p.bytes(d)[:n]})
			return s
		}
	}
	p.unsupported("builtin %s", name)
	return nil
}

func (th *Thread) doAppend(s Slice, y value, st types.Type) value {
	p := th.p
	s = p.force(s)
	var add []value
	switch y := y.(type) {
	case Str:
		bs := p.bytes(y)
		add = make([]value, len(bs))
		for i := range bs {
			add[i] = bs[i]
		}
	case Slice:
		y = p.force(y)
		add = make([]value, y.len)
		for i := range add {
			loc := &y.arr.e[y.off+i]
			th.accessDeep(loc, false)
			add[i] = copyVal(*loc)
		}
	default:
		p.unsupported("append %T", y)
	}
	if len(add) == 0 {
		return s
	}
	need := s.len + len(add)
	if need <= s.cap {
		for i, v := range add {
			loc := &s.arr.e[s.off+s.len+i]
			th.accessDeep(loc, true)
			*loc = v
		}
		return Slice{arr: s.arr, off: s.off, len: need, cap: s.cap}
	}
	if need > p.w.cfg.MaxAlloc {
		p.abort("bound: append above bound")
	}
	et := st.Underlying().(*types.Slice).Elem()
	nc := growCap(s.cap, need, sizeOf(et))
	if nc < need {
		nc = need
	}
	e := make([]value, nc)
	for i := 0; i < s.len; i++ {
		loc := &s.arr.e[s.off+i]
		th.accessDeep(loc, false)
		e[i] = *loc
		switch e[i].(type) {
		case structure, array:
			e[i] = copyVal(e[i])
		}
	}
	copy(e[s.len:], add)
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := need; i < nc; i++ {
			e[i] = p.zero(et)
		}
	default:
		if need < nc {
			z := p.zero(et)
			for i := need; i < nc; i++ {
				e[i] = z
			}
		}
	}
	return Slice{arr: &Arr{e: e}, len: need, cap: nc}
}

var _ sync.Mutex
