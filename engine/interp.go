package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Control-flow panics used by the engine.
type targetPanic struct {
	v   Value
	msg string
	at  string
	stk []string
}
type pathEnd struct{ why string }
type specAbort struct{}
type localAbort struct{ why string }
type localInfeasible struct{}
type budgetEnd struct{ why string }

type dec struct {
	v uint64
	k uint8 // bit0 direction, bit1 implied, bit2 value-carrying
}

type trailEnt struct {
	c    *Value
	n    uint64
	x    any
	undo func()
}

type local struct {
	prefix  []bool
	taken   []bool
	pending *[][]bool
	mark    int
	steps0  int64
}

type deferred struct {
	in   *inst
	fn   Value // resolved callee (func value, or receiver iface for invoke)
	args []Value
}

type frame struct {
	fn     *Fn
	regs   []Value
	defers []deferred
	pan    *targetPanic
	cur    *inst
}

type Exec struct {
	P  *Program
	S  *Solver
	st *Stats
	tc *TC

	pc       []*Term
	known    map[*Term]bool
	knownLog []*Term
	prefix   []dec
	decs     []dec
	loc      *local
	spec     int

	epoch       uint32
	pathEpoch   uint32
	freezeEpoch uint32
	exempt      int
	trail       []trailEnt
	globals     []*Value
	pkgInit     map[*ssa.Package]int
	initing     int

	steps, maxSteps int64
	depth           int
	stack           []Value
	sp              int
	frames          []*frame
	panFrames       []*frame
	frameFree       []*frame
	methCache       map[methKey]*Fn

	h *harnessState

	enqueue func(it *pathItem)
	encoded map[*Fn]bool
	extra   *execExtra
	curItem *pathItem
	allocs  int
}

type methKey struct {
	t *Type
	m *types.Func
}

type pathItem struct {
	prefix []dec
	model  []uint64
	depth  int
}

func newExec(P *Program, S *Solver, st *Stats) *Exec {
	return &Exec{P: P, S: S, st: st, known: map[*Term]bool{}, epoch: 1, pathEpoch: 1,
		pkgInit: map[*ssa.Package]int{}, stack: make([]Value, 1<<16), methCache: map[methKey]*Fn{},
		encoded: map[*Fn]bool{}, maxSteps: 20_000_000, tc: newTC()}
}

// ---------- branching ----------

func (e *Exec) lookupKnown(c *Term) (bool, bool) {
	if c.op == OpNot {
		v, ok := e.known[c.a]
		return !v, ok
	}
	v, ok := e.known[c]
	return v, ok
}

func (e *Exec) setKnown(c *Term, v bool) {
	for c.op == OpNot {
		c, v = c.a, !v
	}
	if _, ok := e.known[c]; ok {
		return
	}
	e.known[c] = v
	e.knownLog = append(e.knownLog, c)
	if c.op == OpAnd && v {
		e.setKnown(c.a, true)
		e.setKnown(c.b, true)
	}
	if c.op == OpOr && !v {
		e.setKnown(c.a, false)
		e.setKnown(c.b, false)
	}
}
func (e *Exec) unwindKnown(n int) {
	for _, c := range e.knownLog[n:] {
		delete(e.known, c)
	}
	e.knownLog = e.knownLog[:n]
}

func (e *Exec) learn(c *Term, dir, implied bool) {
	if !dir {
		c = e.tc.Not(c)
	}
	e.setKnown(c, true)
	if !implied {
		e.addPC(c)
	}
}
func (e *Exec) addPC(c *Term) {
	if c.op == OpAnd {
		e.addPC(c.a)
		e.addPC(c.b)
		return
	}
	e.pc = append(e.pc, c)
}

func (e *Exec) branch(c *Term) bool {
	if c.isConst() {
		return c.n == 1
	}
	if v, ok := e.lookupKnown(c); ok {
		return v
	}
	if e.spec > 0 {
		panic(specAbort{})
	}
	if e.loc != nil {
		return e.localBranch(c)
	}
	e.st.branches.Add(1)
	if n := len(e.decs); n < len(e.prefix) {
		d := e.prefix[n]
		e.decs = append(e.decs, d)
		if d.k&4 != 0 {
			panic(fmt.Sprintf("replay divergence: branch met a value decision in %s", e.where()))
		}
		dir := d.k&1 == 1
		e.learn(c, dir, d.k&2 != 0)
		return dir
	}
	dir := e.tc.eval(c) == 1
	other := c
	if dir {
		other = e.tc.Not(c)
	}
	res, m := e.S.check(e.tc, e.pc, other)
	k := uint8(b2u(dir))
	switch res {
	case rUnsat:
		k |= 2
	case rSat:
		e.push(dec{k: uint8(b2u(!dir))}, m)
	default:
		e.h.inconclusive("solver unknown on a branch in " + e.where())
	}
	e.decs = append(e.decs, dec{k: k})
	e.learn(c, dir, k&2 != 0)
	return dir
}

func (e *Exec) push(d dec, m map[string]uint64) {
	it := &pathItem{prefix: make([]dec, len(e.decs)+1), model: make([]uint64, len(e.tc.model))}
	copy(it.prefix, e.decs)
	it.prefix[len(e.decs)] = d
	copy(it.model, e.tc.model)
	for i, v := range e.tc.vars {
		if x, ok := m[v.name]; ok {
			it.model[i] = x
		}
	}
	e.enqueue(it)
}

func (e *Exec) localBranch(c *Term) bool {
	l := e.loc
	if n := len(l.taken); n < len(l.prefix) {
		d := l.prefix[n]
		l.taken = append(l.taken, d)
		e.learn(c, d, false)
		return d
	}
	modelOK := true
	for _, t := range e.pc {
		if e.tc.eval(t) != 1 {
			modelOK = false
			break
		}
	}
	fT, fF := false, false
	if modelOK {
		if e.tc.eval(c) == 1 {
			fT = true
		} else {
			fF = true
		}
	}
	if !fT {
		r, _ := e.S.check(e.tc, e.pc, c)
		fT = r != rUnsat
	}
	if !fF {
		r, _ := e.S.check(e.tc, e.pc, e.tc.Not(c))
		fF = r != rUnsat
	}
	switch {
	case fT && fF:
		if len(*l.pending) > 64 {
			panic(localAbort{"too many local paths"})
		}
		p := append(append([]bool(nil), l.taken...), false)
		*l.pending = append(*l.pending, p)
		l.taken = append(l.taken, true)
		e.learn(c, true, false)
		return true
	case fT:
		e.setKnown(c, true)
		l.taken = append(l.taken, true)
		e.pc = append(e.pc, c)
		return true
	case fF:
		e.setKnown(e.tc.Not(c), true)
		l.taken = append(l.taken, false)
		e.pc = append(e.pc, e.tc.Not(c))
		return false
	}
	panic(localInfeasible{})
}

// concretize picks the value of t under the current model; the rest of the
// value space is explored on other paths.
func (e *Exec) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.n
	}
	if e.spec > 0 {
		panic(specAbort{})
	}
	if e.loc != nil {
		panic(localAbort{"concretize"})
	}
	for {
		var v uint64
		n := len(e.decs)
		replay := n < len(e.prefix)
		if replay {
			v = e.prefix[n].v
		} else {
			v = e.tc.eval(t)
		}
		c := e.tc.Eq(t, e.tc.Const(v, t.w))
		if replay && e.prefix[n].k&4 == 0 {
			panic(fmt.Sprintf("replay divergence: value decision met a branch in %s", e.where()))
		}
		kv, ok := e.lookupKnown(c)
		if c.isConst() {
			kv, ok = c.n == 1, true
		}
		if ok {
			// every pass consumes one decision, so that replays stay aligned
			if !kv {
				if replay && e.prefix[n].k&1 == 0 {
					e.decs = append(e.decs, e.prefix[n])
					continue
				}
				panic("concretize: inconsistent")
			}
			e.decs = append(e.decs, dec{v: v, k: 7})
			return v
		}
		if replay {
			d := e.prefix[n]
			if d.k&4 == 0 {
				panic(fmt.Sprintf("replay divergence: value decision met a branch in %s", e.where()))
			}
			e.decs = append(e.decs, d)
			dir := d.k&1 == 1
			e.learn(c, dir, d.k&2 != 0)
			if dir {
				return v
			}
			continue
		}
		e.st.branches.Add(1)
		res, m := e.S.check(e.tc, e.pc, e.tc.Not(c))
		k := uint8(5)
		switch res {
		case rUnsat:
			k |= 2
		case rSat:
			e.push(dec{v: v, k: 4}, m)
		default:
			e.h.inconclusive("solver unknown while enumerating a value in " + e.where())
		}
		e.decs = append(e.decs, dec{v: v, k: k})
		e.learn(c, true, k&2 != 0)
		return v
	}
}

func (e *Exec) truth(v Value) bool {
	if t, ok := v.X.(*Term); ok {
		return e.branch(t)
	}
	return v.N == 1
}

// num returns a concrete integer for v, enumerating if symbolic.
func (e *Exec) num(v Value) uint64 {
	if t, ok := v.X.(*Term); ok {
		return e.concretize(t)
	}
	return v.N
}
func (e *Exec) intOf(v Value) int { return int(e.num(v)) }

func (e *Exec) toTerm(v Value, w uint8) *Term {
	if t, ok := v.X.(*Term); ok {
		return t
	}
	return e.tc.Const(v.N, w)
}
func fromTerm(t *Term) Value {
	if t.isConst() {
		return Value{N: t.n}
	}
	return Value{X: t}
}

func (e *Exec) where() string {
	if len(e.frames) == 0 {
		return "?"
	}
	f := e.frames[len(e.frames)-1]
	p := ""
	if f.cur != nil {
		p = e.P.fset.Position(f.cur.pos).String()
	}
	return f.fn.name + " " + p
}
func (e *Exec) stackTrace() []string {
	var r []string
	for i := len(e.frames) - 1; i >= 0 && len(r) < 12; i-- {
		f := e.frames[i]
		p := ""
		if f.cur != nil {
			q := e.P.fset.Position(f.cur.pos)
			p = fmt.Sprintf("%s:%d", q.Filename, q.Line)
		}
		r = append(r, f.fn.name+" "+p)
	}
	return r
}

// ---------- panics in the target ----------

var rtErrType *Type // set at start: the type given to runtime errors

func (e *Exec) rtPanic(f string, a ...any) {
	msg := "runtime error: " + fmt.Sprintf(f, a...)
	if e.spec > 0 {
		panic(specAbort{})
	}
	panic(&targetPanic{v: Value{X: &Iface{rtErrType, vStr(msg)}}, msg: msg, at: e.where(), stk: e.stackTrace()})
}
func (e *Exec) nilDeref() { e.rtPanic("invalid memory address or nil pointer dereference") }

// ---------- memory ----------

func (e *Exec) global(i int) *Value {
	if i < len(e.globals) {
		if c := e.globals[i]; c != nil {
			return c
		}
	}
	e.P.gmu.Lock()
	g := e.P.globals[i]
	n := len(e.P.globals)
	e.P.gmu.Unlock()
	for len(e.globals) < n {
		e.globals = append(e.globals, nil)
	}
	c := new(Value)
	*c = zero(typ(g.Type()).elem, 0)
	e.globals[i] = c
	e.initPkg(g.Pkg)
	return c
}

// initPkg runs a package's initialiser concretely, once per worker.
func (e *Exec) initPkg(p *ssa.Package) {
	if e.pkgInit[p] != 0 {
		return
	}
	e.pkgInit[p] = 1
	path := p.Pkg.Path()
	if skipInit[path] {
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	savEpoch, savLoc, savSpec, savFreeze := e.epoch, e.loc, e.spec, e.freezeEpoch
	savSteps := e.steps
	e.epoch, e.loc, e.spec, e.freezeEpoch = 0, nil, 0, 0
	e.initing++
	e.call(e.P.fn(f), nil, nil)
	e.initing--
	e.epoch, e.loc, e.spec, e.freezeEpoch = savEpoch, savLoc, savSpec, savFreeze
	e.steps = savSteps
}

func (e *Exec) storeCell(c *Value, v Value) {
	if a, ok := v.X.(Agg); ok {
		if d, ok := c.X.(Agg); ok && len(d) == len(a) {
			for i := range a {
				e.storeCell(&d[i], a[i])
			}
			return
		}
		v = cell(v, c.E)
	}
	if c.E < e.pathEpoch && e.initing == 0 {
		e.trail = append(e.trail, trailEnt{c: c, n: c.N, x: c.X})
	}
	if c.E < e.freezeEpoch && e.exempt == 0 && e.initing == 0 {
		e.h.frozenWrite(e)
	}
	c.N, c.X = v.N, v.X
}

func (e *Exec) store(p Value, v Value) {
	switch c := p.X.(type) {
	case *Value:
		e.storeCell(c, v)
	case nil:
		e.nilDeref()
	case *SymPtr:
		e.storeCell(c.resolve(int(e.concretize(c.idx))), v)
	default:
		panic(unsupported("store through %T", p.X))
	}
}

func (s *SymPtr) resolve(i int) *Value {
	c := &s.base[i]
	for _, f := range s.path {
		c = &c.X.(Agg)[f]
	}
	return c
}

func (e *Exec) load(p Value, t *Type) Value {
	switch c := p.X.(type) {
	case *Value:
		if _, ok := c.X.(Agg); ok {
			return copyAgg(*c)
		}
		return Value{N: c.N, X: c.X}
	case nil:
		e.nilDeref()
	case *SymPtr:
		if t.k == kBool || t.k == kInt {
			if tm := e.selectTerm(len(c.base), c.idx, t, func(i int) Value { return *c.resolve(i) }); tm != nil {
				return fromTerm(tm)
			}
		}
		return e.load(Value{X: c.resolve(int(e.concretize(c.idx)))}, t)
	}
	panic(unsupported("load through %T in %s", p.X, e.where()))
}

// selectTerm builds the term for table[idx] (idx < n is already assumed).
func (e *Exec) selectTerm(n int, idx *Term, t *Type, get func(int) Value) *Term {
	if n > 4096 {
		return nil
	}
	type run struct {
		start int
		v     *Term
	}
	var runs []run
	for i := 0; i < n; i++ {
		v := get(i)
		if v.X != nil {
			if _, ok := v.X.(*Term); !ok {
				return nil
			}
		}
		tm := e.toTerm(v, t.w)
		if len(runs) == 0 || runs[len(runs)-1].v != tm {
			runs = append(runs, run{i, tm})
		}
	}
	if len(runs) == 0 || len(runs) > 512 {
		return nil
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return runs[lo].v
		}
		mid := (lo + hi) / 2
		return e.tc.Ite(e.tc.Ult(idx, e.tc.Const(uint64(runs[mid].start), idx.w)), build(lo, mid), build(mid, hi))
	}
	return build(0, len(runs))
}

// ---------- calls ----------

func (e *Exec) getFrame(fn *Fn) *frame {
	var fr *frame
	if n := len(e.frameFree); n > 0 {
		fr = e.frameFree[n-1]
		e.frameFree = e.frameFree[:n-1]
		*fr = frame{fn: fn, defers: fr.defers[:0]}
	} else {
		fr = &frame{fn: fn}
	}
	if e.sp+fn.nregs > len(e.stack) {
		e.stack = make([]Value, max(1<<16, fn.nregs*2))
		e.sp = 0
	}
	fr.regs = e.stack[e.sp : e.sp+fn.nregs : e.sp+fn.nregs]
	e.sp += fn.nregs
	return fr
}

func (e *Exec) call(fn *Fn, args []Value, env []Value) Value {
	if fn.intr != nil {
		return fn.intr(e, fn, args)
	}
	fn.compile(e.P)
	if len(fn.blocks) == 0 {
		panic(unsupported("no body: %s called from %s", fn.name, e.where()))
	}
	if e.initing > 0 && fn.ssa.Name() == "init" && fn.ssa.Signature.Recv() == nil && fn.ssa.Synthetic == "package initializer" {
		p := fn.ssa.Pkg
		if e.pkgInit[p] == 0 {
			if e.P.repoPkg[p] {
				e.initPkg(p)
			}
			return Value{}
		}
		if e.pkgInit[p] == 2 {
			return Value{}
		}
		e.pkgInit[p] = 2
	}
	if e.initing == 0 {
		e.encoded[fn] = true
		if mergeKind(fn.ret) && e.isMergeable(fn) {
			sym := false
			for i := range args {
				if hasSym(args[i]) {
					sym = true
					break
				}
			}
			if sym {
				if v, ok := e.callMerged(fn, args, env); ok {
					return v
				}
				if e.spec > 0 {
					panic(specAbort{})
				}
			}
		}
	}
	return e.callPlain(fn, args, env)
}

func (e *Exec) isMergeable(fn *Fn) bool {
	fn.effOnceLoad(e.P)
	return fn.mergeable
}
func (f *Fn) effOnceLoad(P *Program) {
	P.effectFree(f)
}

func (e *Exec) callPlain(fn *Fn, args []Value, env []Value) Value {
	if e.depth > 400 {
		if e.depth > 2000 {
			panic(budgetEnd{"call depth"})
		}
	}
	e.depth++
	sp, stk := e.sp, e.stack
	fr := e.getFrame(fn)
	if len(args) != len(fn.params) {
		panic(fmt.Sprintf("arity %s: %d args for %d params", fn.name, len(args), len(fn.params)))
	}
	for i, p := range fn.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.free {
		fr.regs[p] = env[i]
	}
	e.frames = append(e.frames, fr)
	var ret Value
	if fn.hasDef {
		ret = e.runWithDefers(fr)
	} else {
		ret = e.run(fr, fn.blocks[0])
	}
	e.frames = e.frames[:len(e.frames)-1]
	e.frameFree = append(e.frameFree, fr)
	e.sp, e.stack = sp, stk
	e.depth--
	return ret
}

func (e *Exec) runWithDefers(fr *frame) (ret Value) {
	sp, stk, depth, nf, np := e.sp, e.stack, e.depth, len(e.frames), len(e.panFrames)
	func() {
		ok := false
		defer func() {
			if ok {
				return
			}
			r := recover()
			tp, is := r.(*targetPanic)
			if !is {
				panic(r)
			}
			fr.pan = tp
			e.sp, e.stack, e.depth, e.frames, e.panFrames = sp, stk, depth, e.frames[:nf], e.panFrames[:np]
		}()
		ret = e.run(fr, fr.fn.blocks[0])
		ok = true
	}()
	if fr.pan == nil {
		return ret
	}
	e.runDefers(fr)
	if fr.pan != nil {
		panic(fr.pan)
	}
	if fr.fn.rec != nil {
		return e.run(fr, fr.fn.rec)
	}
	if fr.fn.ret != nil {
		return zero(fr.fn.ret, 0)
	}
	return Value{}
}

func (e *Exec) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		sp, stk, depth, nf, np := e.sp, e.stack, e.depth, len(e.frames), len(e.panFrames)
		e.panFrames = append(e.panFrames, fr)
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, is := r.(*targetPanic)
				if !is {
					panic(r)
				}
				fr.pan = tp
				e.sp, e.stack, e.depth, e.frames = sp, stk, depth, e.frames[:nf]
			}()
			switch opcode(d.in.idx) {
			case oCall:
				e.call(d.in.fn, d.args, nil)
			case oCallBuiltin:
				e.builtin(d.in, d.args)
			case oCallDyn:
				e.callValue(d.fn, d.args)
			case oInvoke:
				e.invoke(d.fn, d.in.meth, d.args)
			}
			ok = true
		}()
		e.panFrames = e.panFrames[:np]
	}
}

func (e *Exec) callValue(f Value, args []Value) Value {
	switch x := f.X.(type) {
	case *Fn:
		return e.call(x, args, nil)
	case *Closure:
		return e.call(x.fn, args, x.env)
	case nil:
		e.nilDeref()
	}
	panic(unsupported("call of %T in %s", f.X, e.where()))
}

func (e *Exec) method(t *Type, m *types.Func) *Fn {
	k := methKey{t, m}
	if f, ok := e.methCache[k]; ok {
		return f
	}
	e.P.gmu.Lock()
	sel := e.P.prog.MethodSets.MethodSet(t.t).Lookup(m.Pkg(), m.Name())
	e.P.gmu.Unlock()
	if sel == nil {
		panic(unsupported("no method %s on %s", m.Name(), t.str))
	}
	sf := e.P.prog.MethodValue(sel)
	f := e.P.fn(sf)
	e.methCache[k] = f
	return f
}

func (e *Exec) invoke(recv Value, m *types.Func, args []Value) Value {
	i, ok := recv.X.(*Iface)
	if !ok || i == nil {
		e.nilDeref()
	}
	f := e.method(i.T, m)
	as := make([]Value, len(args)+1)
	as[0] = i.V
	copy(as[1:], args)
	return e.call(f, as, nil)
}

// callMerged explores an effect-free function locally and combines the results
// of its paths into one term.
func (e *Exec) callMerged(fn *Fn, args, env []Value) (Value, bool) {
	savLoc, savSpec := e.loc, e.spec
	mark, kmark := len(e.pc), len(e.knownLog)
	sp, stk, depth, nf := e.sp, e.stack, e.depth, len(e.frames)
	restore := func() {
		e.pc = e.pc[:mark]
		e.unwindKnown(kmark)
		e.sp, e.stack, e.depth, e.frames = sp, stk, depth, e.frames[:nf]
	}
	defer func() { e.loc, e.spec = savLoc, savSpec }()
	e.spec = 0
	pending := [][]bool{nil}
	type leaf struct {
		c *Term
		v Value
	}
	var leaves []leaf
	steps0 := e.steps
	for len(pending) > 0 {
		p := pending[len(pending)-1]
		pending = pending[:len(pending)-1]
		e.loc = &local{prefix: p, pending: &pending, mark: mark, steps0: steps0}
		var v Value
		st := 0
		func() {
			defer func() {
				if st != 0 {
					return
				}
				switch r := recover().(type) {
				case localInfeasible:
					st = 2
				case localAbort, specAbort, *targetPanic, budgetEnd, unsupportedErr:
					st = 3
				default:
					panic(r)
				}
			}()
			v = e.callPlain(fn, args, env)
			st = 1
		}()
		if st == 1 {
			c := e.tc.Bool(true)
			for _, t := range e.pc[mark:] {
				c = e.tc.And(c, t)
			}
			leaves = append(leaves, leaf{c, v})
		}
		restore()
		if st == 3 || len(leaves) > 64 || e.steps-steps0 > 400000 {
			return Value{}, false
		}
	}
	if len(leaves) == 0 {
		return Value{}, false
	}
	if len(leaves) > 1 {
		e.st.merges.Add(1)
	}
	w := fn.ret.w
	r := e.toTerm(leaves[len(leaves)-1].v, w)
	for i := len(leaves) - 2; i >= 0; i-- {
		r = e.tc.Ite(leaves[i].c, e.toTerm(leaves[i].v, w), r)
	}
	return fromTerm(r), true
}

// ---------- main loop ----------

func (e *Exec) get(fr *frame, o int32) Value {
	if o >= 0 {
		return fr.regs[o]
	}
	if o > globalBase {
		return fr.fn.consts[-o-1]
	}
	return Value{X: e.global(int(globalBase - o))}
}

func (e *Exec) edge(fr *frame, b *block, si int) *block {
	nb := b.succ[si]
	if len(nb.phis) == 0 {
		return nb
	}
	pi := b.predIx[si]
	if len(nb.phis) == 1 {
		fr.regs[nb.phis[0].dst] = e.get(fr, nb.phis[0].edges[pi])
		return nb
	}
	var buf [8]Value
	tmp := buf[:0]
	for i := range nb.phis {
		tmp = append(tmp, e.get(fr, nb.phis[i].edges[pi]))
	}
	for i := range nb.phis {
		fr.regs[nb.phis[i].dst] = tmp[i]
	}
	return nb
}

func (e *Exec) run(fr *frame, b *block) Value {
	for {
		e.steps += int64(len(b.code))
		if e.steps > e.maxSteps {
			if e.loc != nil {
				panic(localAbort{"steps"})
			}
			panic(budgetEnd{"steps"})
		}
		if e.loc != nil && e.steps-e.loc.steps0 > 400000 {
			panic(localAbort{"steps"})
		}
		var next *block
		for i := range b.code {
			in := &b.code[i]
			fr.cur = in
			switch in.op {
			case oJump:
				next = e.edge(fr, b, 0)
			case oIf:
				v := e.get(fr, in.a)
				if t, ok := v.X.(*Term); ok {
					if k, ok := e.lookupKnown(t); ok {
						v = vBool(k)
					} else if nb := e.region(fr, b, t); nb != nil {
						next = nb
						break
					} else {
						v = vBool(e.branch(t))
					}
				}
				if v.N == 1 {
					next = e.edge(fr, b, 0)
				} else {
					next = e.edge(fr, b, 1)
				}
			case oReturn:
				switch len(in.args) {
				case 0:
					return Value{}
				case 1:
					return e.get(fr, in.args[0])
				}
				r := make(Agg, len(in.args))
				for j, a := range in.args {
					r[j] = e.get(fr, a)
				}
				return Value{X: r}
			default:
				e.step(fr, in)
			}
		}
		b = next
	}
}

type leafEdge struct {
	to   *block
	cond *Term
	phis []Value
}

func (e *Exec) specable(b *block) bool {
	if !b.pure || b.npred != 1 {
		return false
	}
	for i := range b.code {
		in := &b.code[i]
		if in.op == oCall {
			if in.fn.intr != nil {
				if !in.fn.inPure {
					return false
				}
				continue
			}
			if !mergeKind(in.fn.ret) || !e.isMergeable(in.fn) {
				return false
			}
		}
	}
	return true
}

// region if-converts the pure blocks hanging off a symbolic branch.
func (e *Exec) region(fr *frame, b *block, c *Term) *block {
	if !(b.succ[0] == b.succ[1] || e.specable(b.succ[0]) || e.specable(b.succ[1])) {
		return nil
	}
	var leaves []leafEdge
	nblk := 0
	mkLeaf := func(from *block, si int, cond *Term) {
		nb := from.succ[si]
		l := leafEdge{to: nb, cond: cond}
		pi := from.predIx[si]
		for i := range nb.phis {
			l.phis = append(l.phis, e.get(fr, nb.phis[i].edges[pi]))
		}
		leaves = append(leaves, l)
	}
	pcMark, kMark := len(e.pc), len(e.knownLog)
	var expand func(from *block, si int, cond *Term, lit *Term)
	expand = func(from *block, si int, cond *Term, lit *Term) {
		if cond.isFalse() {
			return
		}
		nb := from.succ[si]
		if nblk >= 24 || !e.specable(nb) {
			mkLeaf(from, si, cond)
			return
		}
		nblk++
		pm, km := len(e.pc), len(e.knownLog)
		e.addPC(lit)
		e.setKnown(lit, true)
		ok := e.specRun(fr, nb)
		var tv Value
		last := &nb.code[len(nb.code)-1]
		if ok && last.op == oIf {
			tv = e.get(fr, last.a)
			if t, is := tv.X.(*Term); is {
				if k, kn := e.lookupKnown(t); kn {
					tv = vBool(k)
				}
			}
		}
		if !ok {
			e.pc = e.pc[:pm]
			e.unwindKnown(km)
			mkLeaf(from, si, cond)
			return
		}
		if last.op == oJump {
			expand(nb, 0, cond, e.tc.Bool(true))
		} else if t, is := tv.X.(*Term); is {
			expand(nb, 0, e.tc.And(cond, t), t)
			expand(nb, 1, e.tc.And(cond, e.tc.Not(t)), e.tc.Not(t))
		} else if tv.N == 1 {
			expand(nb, 0, cond, e.tc.Bool(true))
		} else {
			expand(nb, 1, cond, e.tc.Bool(true))
		}
		e.pc = e.pc[:pm]
		e.unwindKnown(km)
	}
	expand(b, 0, c, c)
	expand(b, 1, e.tc.Not(c), e.tc.Not(c))
	e.pc = e.pc[:pcMark]
	e.unwindKnown(kMark)
	// group leaves
	type group struct {
		to     *block
		cond   *Term
		leaves []int
	}
	var groups []*group
	for i := range leaves {
		l := &leaves[i]
		var g *group
	find:
		for _, x := range groups {
			if x.to != l.to {
				continue
			}
			f := &leaves[x.leaves[0]]
			for j := range l.phis {
				if l.to.phis[j].merge {
					continue
				}
				if !sameVal(l.phis[j], f.phis[j]) {
					continue find
				}
			}
			g = x
			break
		}
		if g == nil {
			g = &group{to: l.to, cond: e.tc.Bool(false)}
			groups = append(groups, g)
		}
		g.cond = e.tc.Or(g.cond, l.cond)
		g.leaves = append(g.leaves, i)
	}
	e.st.regionMerges.Add(1)
	sel := groups[len(groups)-1]
	for i := 0; i < len(groups)-1; i++ {
		if e.branch(groups[i].cond) {
			sel = groups[i]
			break
		}
	}
	if len(sel.to.phis) > 0 {
		n := len(sel.leaves)
		vals := make([]Value, len(sel.to.phis))
		for j := range sel.to.phis {
			v := leaves[sel.leaves[n-1]].phis[j]
			for k := n - 2; k >= 0; k-- {
				l := &leaves[sel.leaves[k]]
				if sameVal(l.phis[j], v) {
					continue
				}
				w := sel.to.phis[j].t.w
				v = fromTerm(e.tc.Ite(l.cond, e.toTerm(l.phis[j], w), e.toTerm(v, w)))
			}
			vals[j] = v
		}
		for j := range vals {
			fr.regs[sel.to.phis[j].dst] = vals[j]
		}
	}
	return sel.to
}

func sameVal(a, b Value) bool {
	if a.N != b.N {
		return false
	}
	switch x := a.X.(type) {
	case nil:
		return b.X == nil
	case []Value:
		y, ok := b.X.([]Value)
		return ok && len(x) == len(y) && cap(x) == cap(y) && (len(x) == 0 && cap(x) == 0 || unsafe.SliceData(x) == unsafe.SliceData(y))
	case Agg:
		y, ok := b.X.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.X.(*Iface)
		return ok && (x == y || x.T == y.T && sameVal(x.V, y.V))
	}
	switch b.X.(type) {
	case []Value, Agg:
		return false
	}
	return a.X == b.X
}

func (e *Exec) specRun(fr *frame, b *block) (ok bool) {
	sp, stk, depth, nf := e.sp, e.stack, e.depth, len(e.frames)
	savSpec := e.spec
	savCur := fr.cur
	defer func() {
		e.spec = savSpec
		fr.cur = savCur
		if ok {
			return
		}
		switch r := recover().(type) {
		case specAbort, localAbort, unsupportedErr, *targetPanic:
			e.sp, e.stack, e.depth, e.frames = sp, stk, depth, e.frames[:nf]
		default:
			panic(r)
		}
	}()
	e.spec = savSpec + 1
	e.steps += int64(len(b.code))
	for i := range b.code {
		in := &b.code[i]
		if in.op == oIf || in.op == oJump {
			break
		}
		fr.cur = in
		e.step(fr, in)
	}
	return true
}

func (e *Exec) step(fr *frame, in *inst) {
	regs := fr.regs
	switch in.op {
	case oAlloc:
		c := new(Value)
		*c = zero(in.t2, e.epoch)
		regs[in.dst] = Value{X: c}
	case oBin:
		regs[in.dst] = e.binop(in, e.get(fr, in.a), e.get(fr, in.b))
	case oUn:
		regs[in.dst] = e.unop(in, e.get(fr, in.a))
	case oLoad:
		regs[in.dst] = e.load(e.get(fr, in.a), in.t)
	case oCall:
		var buf [6]Value
		args := buf[:0]
		for _, a := range in.args {
			args = append(args, e.get(fr, a))
		}
		r := e.call(in.fn, args, nil)
		if in.dst >= 0 {
			regs[in.dst] = r
		}
	case oCallBuiltin:
		var buf [4]Value
		args := buf[:0]
		for _, a := range in.args {
			args = append(args, e.get(fr, a))
		}
		r := e.builtin(in, args)
		if in.dst >= 0 {
			regs[in.dst] = r
		}
	case oCallDyn, oInvoke:
		args := make([]Value, len(in.args))
		for i, a := range in.args {
			args[i] = e.get(fr, a)
		}
		var r Value
		if in.op == oInvoke {
			r = e.invoke(e.get(fr, in.a), in.meth, args)
		} else {
			r = e.callValue(e.get(fr, in.a), args)
		}
		if in.dst >= 0 {
			regs[in.dst] = r
		}
	case oMove:
		regs[in.dst] = e.get(fr, in.a)
	case oConvert:
		regs[in.dst] = e.convert(in.t2, in.t, e.get(fr, in.a))
	case oDefer:
		d := deferred{in: in}
		for _, a := range in.args {
			d.args = append(d.args, e.get(fr, a))
		}
		if op := opcode(in.idx); op == oCallDyn || op == oInvoke {
			d.fn = e.get(fr, in.a)
		}
		fr.defers = append(fr.defers, d)
	case oExtract:
		regs[in.dst] = e.get(fr, in.a).X.(Agg)[in.idx]
	case oField:
		v := e.get(fr, in.a).X.(Agg)[in.idx]
		regs[in.dst] = v
	case oFieldAddr:
		p := e.get(fr, in.a)
		switch c := p.X.(type) {
		case *Value:
			a, ok := c.X.(Agg)
			if !ok {
				panic(unsupported("field of opaque %T in %s", c.X, e.where()))
			}
			regs[in.dst] = Value{X: &a[in.idx]}
		case nil:
			e.nilDeref()
		case *SymPtr:
			regs[in.dst] = Value{X: &SymPtr{c.base, c.idx, append(append([]int(nil), c.path...), in.idx)}}
		default:
			panic(unsupported("fieldaddr of %T in %s", p.X, e.where()))
		}
	case oIndex:
		x := e.get(fr, in.a)
		i := e.get(fr, in.b)
		if in.t2.k == kString {
			regs[in.dst] = e.strIndex(x, i, uint8(in.idx), in.commaOk)
			return
		}
		a := x.X.(Agg)
		if e.checkIndex(i, len(a), uint8(in.idx), in.commaOk) {
			t := e.tc.Resize(i.X.(*Term), 64, in.commaOk)
			if in.t.k == kInt || in.t.k == kBool {
				if tm := e.selectTerm(len(a), t, in.t, func(k int) Value { return a[k] }); tm != nil {
					regs[in.dst] = fromTerm(tm)
					return
				}
			}
			regs[in.dst] = a[e.concretize(t)]
			return
		}
		regs[in.dst] = a[i.N]
	case oIndexAddr:
		x := e.get(fr, in.a)
		i := e.get(fr, in.b)
		var base []Value
		if in.t2.k == kSlice {
			base = x.sl()
		} else {
			switch c := x.X.(type) {
			case *Value:
				base = c.X.(Agg)
			case nil:
				e.nilDeref()
			default:
				if sp, ok := x.X.(*SymPtr); ok {
					base = sp.resolve(int(e.concretize(sp.idx))).X.(Agg)
				} else {
					panic(unsupported("indexaddr of %T", x.X))
				}
			}
		}
		if e.checkIndex(i, len(base), uint8(in.idx), in.commaOk) {
			t := e.tc.Resize(i.X.(*Term), 64, in.commaOk)
			regs[in.dst] = Value{X: &SymPtr{base: base, idx: t}}
			return
		}
		regs[in.dst] = Value{X: &base[i.N]}
	case oLookup:
		x := e.get(fr, in.a)
		k := e.get(fr, in.b)
		if in.t2.k == kString {
			regs[in.dst] = e.strIndex(x, k, 64, true)
			return
		}
		v, ok := e.mapGet(x, k, in.t2)
		if !ok {
			v = zero(in.t2.elem, 0)
		} else {
			v = copyAgg(v)
		}
		if in.commaOk {
			regs[in.dst] = vTuple(v, vBool(ok))
		} else {
			regs[in.dst] = v
		}
	case oMakeClosure:
		env := make([]Value, len(in.args))
		for i, a := range in.args {
			env[i] = e.get(fr, a)
		}
		regs[in.dst] = Value{X: &Closure{in.fn, env}}
	case oMakeIface:
		regs[in.dst] = Value{X: &Iface{in.t2, e.get(fr, in.a)}}
	case oMakeMap:
		regs[in.dst] = Value{X: &Map{idx: map[any]*mapEnt{}, E: e.epoch, t: in.t}}
	case oMakeSlice:
		n := int(int64(e.num(e.get(fr, in.a))))
		c := int(int64(e.num(e.get(fr, in.b))))
		if n < 0 || n > 1<<28 {
			e.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<28 {
			e.rtPanic("makeslice: cap out of range")
		}
		if c > 1<<22 {
			panic(budgetEnd{"allocation"})
		}
		s := make([]Value, c)
		fillZero(s, in.t.elem, e.epoch)
		regs[in.dst] = Value{X: s[:n]}
	case oMapUpdate:
		e.mapSet(e.get(fr, in.a), e.get(fr, in.b), e.get(fr, in.c), in.t2)
	case oNext:
		regs[in.dst] = e.iterNext(e.get(fr, in.a), in)
	case oPanic:
		v := e.get(fr, in.a)
		if e.spec > 0 {
			panic(specAbort{})
		}
		panic(&targetPanic{v: v, msg: "panic: " + e.describe(v), at: e.where(), stk: e.stackTrace()})
	case oRange:
		x := e.get(fr, in.a)
		if in.t2.k == kString {
			regs[in.dst] = Value{X: &strIter{s: x}}
		} else {
			regs[in.dst] = Value{X: e.newMapIter(x)}
		}
	case oRunDefers:
		e.runDefers(fr)
		if fr.pan != nil {
			p := fr.pan
			panic(p)
		}
	case oSlice:
		regs[in.dst] = e.slice(fr, in)
	case oSliceToArr:
		s := e.get(fr, in.a).sl()
		n := in.t.elem.n
		if len(s) < n {
			e.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n)
		}
		if s == nil {
			regs[in.dst] = Value{}
		} else {
			c := &Value{X: Agg(s[:n:n]), E: e.epoch}
			regs[in.dst] = Value{X: c}
		}
	case oStore:
		e.store(e.get(fr, in.a), e.get(fr, in.b))
	case oTypeAssert:
		regs[in.dst] = e.typeAssert(in, e.get(fr, in.a))
	default:
		panic(unsupported("instruction %s (%T) in %s", in.in, in.in, e.where()))
	}
}

// checkIndex performs the bounds check; true means the index stays symbolic.
func (e *Exec) checkIndex(i Value, n int, w uint8, sg bool) bool {
	if t, ok := i.X.(*Term); ok {
		t = e.tc.Resize(t, 64, sg)
		if !e.branch(e.tc.Ult(t, e.tc.Const(uint64(n), 64))) {
			e.rtPanic("index out of range [symbolic] with length %d", n)
		}
		if n == 1 {
			return true
		}
		return true
	}
	x := i.N
	if sg {
		x = uint64(sx(i.N, w))
	}
	if x >= uint64(n) {
		e.rtPanic("index out of range [%d] with length %d", int64(x), n)
	}
	return false
}

func (e *Exec) strIndex(s, i Value, w uint8, sg bool) Value {
	n := strLen(s)
	if e.checkIndex(i, n, w, sg) {
		t := e.tc.Resize(i.X.(*Term), 64, sg)
		if tm := e.selectTerm(n, t, byteType, func(k int) Value { return strAt(s, k) }); tm != nil {
			return fromTerm(tm)
		}
		return strAt(s, int(e.concretize(t)))
	}
	return strAt(s, int(i.N))
}

var byteType = typ(types.Typ[types.Uint8])

func (e *Exec) slice(fr *frame, in *inst) Value {
	x := e.get(fr, in.a)
	opt := func(o int32, def int) int {
		if o == math.MinInt32 {
			return def
		}
		return int(int64(e.num(e.get(fr, o))))
	}
	if in.t2.k == kString {
		n := strLen(x)
		lo, hi := opt(in.b, 0), opt(in.c, n)
		if hi < 0 || hi > n {
			e.rtPanic("slice bounds out of range [:%d] with length %d", hi, n)
		}
		if lo < 0 || lo > hi {
			e.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return strSlice(x, lo, hi)
	}
	var s []Value
	if in.t2.k == kSlice {
		s = x.sl()
	} else {
		c, ok := x.X.(*Value)
		if !ok {
			if x.X == nil {
				e.nilDeref()
			}
			panic(unsupported("slice of %T", x.X))
		}
		s = c.X.(Agg)
	}
	lo, hi := opt(in.b, 0), opt(in.c, len(s))
	mx := opt(in.d, cap(s))
	if mx < 0 || mx > cap(s) {
		e.rtPanic("slice bounds out of range [::%d] with capacity %d", mx, cap(s))
	}
	if hi < 0 || hi > mx {
		e.rtPanic("slice bounds out of range [:%d] with capacity %d", hi, cap(s))
	}
	if lo < 0 || lo > hi {
		e.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
	}
	if s == nil {
		return Value{X: []Value(nil)}
	}
	return Value{X: s[lo:hi:mx]}
}

func (e *Exec) typeAssert(in *inst, v Value) Value {
	i, _ := v.X.(*Iface)
	ok := false
	var res Value
	if in.t2.k == kIface {
		if i != nil {
			ok = e.implements(i.T, in.t2)
		}
		if ok {
			res = v
		}
	} else {
		ok = i != nil && i.T == in.t2
		if ok {
			res = i.V
		} else {
			res = zero(in.t2, 0)
		}
	}
	if in.commaOk {
		return vTuple(res, vBool(ok))
	}
	if !ok {
		d := "nil"
		if i != nil {
			d = i.T.str
		}
		e.rtPanic("interface conversion: interface is %s, not %s", d, in.t2.str)
	}
	return res
}

type implKey struct{ a, b *Type }

var implCache = struct {
	m map[implKey]bool
}{m: map[implKey]bool{}}

func (e *Exec) implements(t, it *Type) bool {
	k := implKey{t, it}
	e.P.gmu.Lock()
	defer e.P.gmu.Unlock()
	if v, ok := implCache.m[k]; ok {
		return v
	}
	v := types.Implements(t.t, it.t.Underlying().(*types.Interface))
	implCache.m[k] = v
	return v
}

func (e *Exec) unop(in *inst, v Value) Value {
	t := in.t
	if tm, ok := v.X.(*Term); ok {
		switch in.tok {
		case token.NOT:
			return fromTerm(e.tc.Not(tm))
		case token.SUB:
			return fromTerm(e.tc.Neg(tm))
		case token.XOR:
			return fromTerm(e.tc.BNot(tm))
		}
	}
	switch in.tok {
	case token.NOT:
		return vBool(v.N == 0)
	case token.SUB:
		if t.k == kFloat {
			return Value{N: math.Float64bits(-math.Float64frombits(v.N))}
		}
		return Value{N: -v.N & mask(t.w)}
	case token.XOR:
		return Value{N: ^v.N & mask(t.w)}
	}
	panic(unsupported("unop %s", in.tok))
}

var binOps = map[token.Token]Op{token.ADD: OpAdd, token.SUB: OpSub, token.MUL: OpMul, token.AND: OpBAnd, token.OR: OpBOr, token.XOR: OpBXor}

func (e *Exec) binop(in *inst, a, b Value) Value {
	t := in.t2
	switch in.tok {
	case token.EQL:
		return fromTerm2(e.eq(t, a, b))
	case token.NEQ:
		r := e.eq(t, a, b)
		return fromTerm2(e.tc.Not(r))
	}
	switch t.k {
	case kInt:
		return e.intop(in, t, a, b)
	case kString:
		switch in.tok {
		case token.ADD:
			return strConcat(a, b)
		case token.LSS:
			return fromTerm(e.strLess(a, b))
		case token.GTR:
			return fromTerm(e.strLess(b, a))
		case token.LEQ:
			return fromTerm(e.tc.Not(e.strLess(b, a)))
		case token.GEQ:
			return fromTerm(e.tc.Not(e.strLess(a, b)))
		}
	case kFloat:
		x, y := math.Float64frombits(e.num(a)), math.Float64frombits(e.num(b))
		var r float64
		switch in.tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return vBool(x < y)
		case token.LEQ:
			return vBool(x <= y)
		case token.GTR:
			return vBool(x > y)
		case token.GEQ:
			return vBool(x >= y)
		}
		if t.w == 32 {
			r = float64(float32(r))
		}
		return Value{N: math.Float64bits(r)}
	case kBool:
		x, y := e.toTerm(a, 0), e.toTerm(b, 0)
		switch in.tok {
		case token.AND, token.LAND:
			return fromTerm(e.tc.And(x, y))
		case token.OR, token.LOR:
			return fromTerm(e.tc.Or(x, y))
		}
	}
	panic(unsupported("binop %s on %s", in.tok, t.str))
}
func fromTerm2(t *Term) Value { return fromTerm(t) }

func (e *Exec) intop(in *inst, t *Type, a, b Value) Value {
	w, sg := t.w, t.sg
	if a.X == nil && b.X == nil {
		x, y := a.N, b.N
		m := mask(w)
		switch in.tok {
		case token.ADD:
			return Value{N: (x + y) & m}
		case token.SUB:
			return Value{N: (x - y) & m}
		case token.MUL:
			return Value{N: (x * y) & m}
		case token.AND:
			return Value{N: x & y}
		case token.OR:
			return Value{N: x | y}
		case token.XOR:
			return Value{N: x ^ y}
		case token.AND_NOT:
			return Value{N: x &^ y}
		case token.LSS:
			if sg {
				return vBool(sx(x, w) < sx(y, w))
			}
			return vBool(x < y)
		case token.LEQ:
			if sg {
				return vBool(sx(x, w) <= sx(y, w))
			}
			return vBool(x <= y)
		case token.GTR:
			if sg {
				return vBool(sx(x, w) > sx(y, w))
			}
			return vBool(x > y)
		case token.GEQ:
			if sg {
				return vBool(sx(x, w) >= sx(y, w))
			}
			return vBool(x >= y)
		case token.QUO, token.REM:
			if y == 0 {
				e.rtPanic("integer divide by zero")
			}
			op := OpUdiv
			if in.tok == token.REM {
				op = OpUrem
			}
			if sg {
				op++
				if in.tok == token.QUO {
					op = OpSdiv
				} else {
					op = OpSrem
				}
			}
			return Value{N: foldBV(op, w, x, y)}
		case token.SHL, token.SHR:
			yw := uint8(in.idx)
			if in.commaOk && sx(y, yw) < 0 {
				e.rtPanic("negative shift amount")
			}
			if in.tok == token.SHL {
				return Value{N: foldBV(OpShl, w, x, y)}
			}
			if sg {
				return Value{N: foldBV(OpAshr, w, x, y)}
			}
			return Value{N: foldBV(OpLshr, w, x, y)}
		}
		panic(unsupported("int op %s", in.tok))
	}
	tc := e.tc
	if in.tok == token.SHL || in.tok == token.SHR {
		yw := uint8(in.idx)
		x, y := e.toTerm(a, w), e.toTerm(b, yw)
		if in.commaOk {
			if e.branch(tc.Slt(y, tc.Const(0, yw))) {
				e.rtPanic("negative shift amount")
			}
		}
		op := OpShl
		if in.tok == token.SHR {
			op = OpLshr
			if sg {
				op = OpAshr
			}
		}
		if y.w > w {
			big := tc.Not(tc.Ult(y, tc.Const(uint64(w), y.w)))
			ys := tc.Ite(big, tc.Const(uint64(w), w), tc.Resize(y, w, false))
			return fromTerm(tc.Bin(op, x, ys))
		}
		return fromTerm(tc.Bin(op, x, tc.Resize(y, w, false)))
	}
	x, y := e.toTerm(a, w), e.toTerm(b, w)
	if op, ok := binOps[in.tok]; ok {
		return fromTerm(tc.Bin(op, x, y))
	}
	lt := tc.Ult
	if sg {
		lt = tc.Slt
	}
	switch in.tok {
	case token.AND_NOT:
		return fromTerm(tc.Bin(OpBAnd, x, tc.BNot(y)))
	case token.LSS:
		return fromTerm(lt(x, y))
	case token.GTR:
		return fromTerm(lt(y, x))
	case token.LEQ:
		return fromTerm(tc.Not(lt(y, x)))
	case token.GEQ:
		return fromTerm(tc.Not(lt(x, y)))
	case token.QUO, token.REM:
		if e.branch(tc.Eq(y, tc.Const(0, w))) {
			e.rtPanic("integer divide by zero")
		}
		op := OpUdiv
		switch {
		case in.tok == token.QUO && sg:
			op = OpSdiv
		case in.tok == token.REM && sg:
			op = OpSrem
		case in.tok == token.REM:
			op = OpUrem
		}
		return fromTerm(tc.Bin(op, x, y))
	}
	panic(unsupported("int op %s", in.tok))
}

func (e *Exec) strEq(a, b Value) *Term {
	if x, ok := a.X.(string); ok {
		if y, ok := b.X.(string); ok {
			return e.tc.Bool(x == y)
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return e.tc.Bool(false)
	}
	r := e.tc.Bool(true)
	for i := 0; i < n; i++ {
		r = e.tc.And(r, e.tc.Eq(e.toTerm(strAt(a, i), 8), e.toTerm(strAt(b, i), 8)))
		if r.isFalse() {
			return r
		}
	}
	return r
}
func (e *Exec) strLess(a, b Value) *Term {
	n, m := strLen(a), strLen(b)
	r := e.tc.Bool(n < m)
	for i := min(n, m) - 1; i >= 0; i-- {
		x, y := e.toTerm(strAt(a, i), 8), e.toTerm(strAt(b, i), 8)
		r = e.tc.Or(e.tc.Ult(x, y), e.tc.And(e.tc.Eq(x, y), r))
	}
	return r
}

func (e *Exec) eq(t *Type, a, b Value) *Term {
	switch t.k {
	case kBool, kInt:
		if a.X == nil && b.X == nil {
			return e.tc.Bool(a.N == b.N)
		}
		return e.tc.Eq(e.toTerm(a, t.w), e.toTerm(b, t.w))
	case kFloat:
		return e.tc.Bool(math.Float64frombits(e.num(a)) == math.Float64frombits(e.num(b)))
	case kString:
		return e.strEq(a, b)
	case kIface:
		x, _ := a.X.(*Iface)
		y, _ := b.X.(*Iface)
		if x == nil || y == nil {
			return e.tc.Bool(x == y)
		}
		if x.T != y.T {
			return e.tc.Bool(false)
		}
		switch x.T.k {
		case kSlice, kMap, kFunc:
			e.rtPanic("comparing uncomparable type %s", x.T.str)
		}
		return e.eq(x.T, x.V, y.V)
	case kStruct:
		x, y := a.X.(Agg), b.X.(Agg)
		r := e.tc.Bool(true)
		for i := range x {
			r = e.tc.And(r, e.eq(t.fields[i], x[i], y[i]))
		}
		return r
	case kArray:
		x, y := a.X.(Agg), b.X.(Agg)
		r := e.tc.Bool(true)
		for i := range x {
			r = e.tc.And(r, e.eq(t.elem, x[i], y[i]))
		}
		return r
	case kSlice:
		return e.tc.Bool(a.sl() == nil && b.sl() == nil)
	case kFunc, kMap, kChan:
		return e.tc.Bool(a.X == nil && b.X == nil || a.X != nil && b.X != nil && t.k != kFunc && a.X == b.X)
	case kPtr:
		if sp, ok := a.X.(*SymPtr); ok {
			a = Value{X: sp.resolve(int(e.concretize(sp.idx)))}
		}
		if sp, ok := b.X.(*SymPtr); ok {
			b = Value{X: sp.resolve(int(e.concretize(sp.idx)))}
		}
		return e.tc.Bool(a.X == b.X && a.N == b.N)
	}
	panic(unsupported("== on %s", t.str))
}

func (e *Exec) convert(from, to *Type, v Value) Value {
	switch {
	case from.k == kInt && to.k == kInt:
		if t, ok := v.X.(*Term); ok {
			return fromTerm(e.tc.Resize(t, to.w, from.sg))
		}
		n := v.N
		if from.sg {
			n = uint64(sx(n, from.w))
		}
		return Value{N: n & mask(to.w)}
	case from.k == kInt && to.k == kFloat:
		n := e.num(v)
		f := float64(n)
		if from.sg {
			f = float64(sx(n, from.w))
		}
		if to.w == 32 {
			f = float64(float32(f))
		}
		return Value{N: math.Float64bits(f)}
	case from.k == kFloat && to.k == kInt:
		f := math.Float64frombits(v.N)
		if to.sg {
			return Value{N: uint64(int64(f)) & mask(to.w)}
		}
		return Value{N: uint64(f) & mask(to.w)}
	case from.k == kFloat && to.k == kFloat:
		f := math.Float64frombits(v.N)
		if to.w == 32 {
			f = float64(float32(f))
		}
		return Value{N: math.Float64bits(f)}
	case from.k == kString && to.k == kSlice:
		if to.elem.w == 8 {
			b := strBytes(v)
			n := make([]Value, len(b))
			for i := range b {
				n[i] = Value{N: b[i].N, X: b[i].X, E: e.epoch}
			}
			return Value{X: n}
		}
		it := &strIter{s: v}
		n := []Value{}
		for it.i < strLen(v) {
			r := e.nextRune(it)
			r.E = e.epoch
			n = append(n, r)
		}
		return Value{X: n}
	case from.k == kSlice && to.k == kString:
		if from.elem.w == 8 {
			return mkStr(v.sl())
		}
		r := vStr("")
		for _, c := range v.sl() {
			r = strConcat(r, e.runeStr(Value{N: c.N, X: c.X}))
		}
		return r
	case from.k == kInt && to.k == kString:
		if t, ok := v.X.(*Term); ok {
			if t.w > 32 {
				return e.runeStr(vU(e.concretize(t)))
			}
			return e.runeStr(fromTerm(e.tc.Resize(t, 32, from.sg)))
		}
		n := v.N
		if from.sg {
			n = uint64(sx(n, from.w))
		}
		return vStr(string(rune(int64(n))))
	case from.k == kPtr && to.k == kPtr:
		return v
	case from.k == kPtr && to.k == kInt:
		panic(unsupported("pointer to integer conversion in %s", e.where()))
	case from.k == to.k:
		return v
	}
	panic(unsupported("convert %s to %s", from.str, to.str))
}

// runeStr is string(rune).
func (e *Exec) runeStr(r Value) Value {
	t, ok := r.X.(*Term)
	if !ok {
		return vStr(string(rune(int32(r.N))))
	}
	if e.branch(e.tc.Ult(t, e.tc.Const(0x80, 32))) {
		return mkStr([]Value{fromTerm(e.tc.Resize(t, 8, false))})
	}
	f := e.P.lookup("unicode/utf8", "AppendRune")
	s := e.call(f, []Value{{X: []Value(nil)}, r}, nil)
	return mkStr(s.sl())
}

type strIter struct {
	s Value
	i int
}

func (e *Exec) nextRune(it *strIter) Value {
	c := strAt(it.s, it.i)
	if t, ok := c.X.(*Term); ok {
		if e.branch(e.tc.Ult(t, e.tc.Const(0x80, 8))) {
			it.i++
			return fromTerm(e.tc.Resize(t, 32, false))
		}
	} else if c.N < 0x80 {
		it.i++
		return Value{N: c.N}
	}
	n := strLen(it.s)
	f := e.P.lookup("unicode/utf8", "DecodeRuneInString")
	r := e.call(f, []Value{strSlice(it.s, it.i, min(n, it.i+4))}, nil).X.(Agg)
	it.i += e.intOf(r[1])
	return r[0]
}

func (e *Exec) iterNext(v Value, in *inst) Value {
	switch it := v.X.(type) {
	case *strIter:
		if it.i >= strLen(it.s) {
			return vTuple(vBool(false), vInt(0), vInt(0))
		}
		i := it.i
		r := e.nextRune(it)
		return vTuple(vBool(true), vInt(i), r)
	case *mapIter:
		for it.i < len(it.ents) {
			en := it.ents[it.i]
			it.i++
			if en.dead {
				continue
			}
			return vTuple(vBool(true), en.k, copyAgg(en.v))
		}
		return vTuple(vBool(false), Value{}, Value{})
	}
	panic("iterNext")
}

// ---------- maps ----------

type mapIter struct {
	ents []*mapEnt
	i    int
}

func (e *Exec) newMapIter(v Value) *mapIter {
	m, _ := v.X.(*Map)
	if m == nil {
		return &mapIter{}
	}
	var l []*mapEnt
	for _, x := range m.ents {
		if !x.dead {
			l = append(l, x)
		}
	}
	if e.h != nil && e.initing == 0 && e.h.mapOrder && len(l) > 1 && len(l) <= 4 {
		if fr := e.frames[len(e.frames)-1]; fr.fn.repo {
			l = e.h.permute(e, l)
		}
	}
	return &mapIter{ents: l}
}

// keyOf gives a comparable Go key for a concrete key value.
func keyOf(v Value, t *Type) (any, bool) {
	switch t.k {
	case kString:
		s, ok := v.X.(string)
		return s, ok
	case kBool, kInt, kFloat:
		if v.X != nil {
			return nil, false
		}
		return v.N, true
	case kIface:
		i, _ := v.X.(*Iface)
		if i == nil {
			return nil, true
		}
		k, ok := keyOf(i.V, i.T)
		return [2]any{i.T, k}, ok
	case kPtr, kChan:
		return v.X, true
	case kStruct:
		s := ""
		for i, f := range v.X.(Agg) {
			k, ok := keyOf(f, t.fields[i])
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v;", k, k)
		}
		return s, true
	case kArray:
		s := ""
		for _, f := range v.X.(Agg) {
			k, ok := keyOf(f, t.elem)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v;", k, k)
		}
		return s, true
	}
	panic(unsupported("map key %s", t.str))
}

func (e *Exec) mapFind(m *Map, k Value, t *Type) *mapEnt {
	key, conc := keyOf(k, t.key)
	if conc && m.nsym == 0 {
		return m.idx[key]
	}
	if conc {
		if en := m.idx[key]; en != nil {
			return en
		}
	}
	for _, en := range m.ents {
		if en.dead {
			continue
		}
		if conc {
			if _, c := keyOf(en.k, t.key); c {
				continue
			}
		}
		if e.branch(e.eq(t.key, en.k, k)) {
			return en
		}
	}
	return nil
}

func (e *Exec) mapGet(mv, k Value, t *Type) (Value, bool) {
	m, _ := mv.X.(*Map)
	if m == nil {
		return Value{}, false
	}
	en := e.mapFind(m, k, t)
	if en == nil {
		return Value{}, false
	}
	return en.v, true
}

func (e *Exec) touchMap(m *Map) {
	if m.E < e.freezeEpoch && e.exempt == 0 && e.initing == 0 {
		e.h.frozenWrite(e)
	}
}

func (e *Exec) mapSet(mv, k, v Value, t *Type) {
	m, _ := mv.X.(*Map)
	if m == nil {
		panic(&targetPanic{v: Value{X: &Iface{rtErrType, vStr("assignment to entry in nil map")}}, msg: "assignment to entry in nil map", at: e.where(), stk: e.stackTrace()})
	}
	v = copyAgg(v)
	e.touchMap(m)
	old := m.E < e.pathEpoch && e.initing == 0
	if en := e.mapFind(m, k, t); en != nil {
		if old {
			ov := en.v
			e.trail = append(e.trail, trailEnt{undo: func() { en.v = ov }})
		}
		en.v = v
		return
	}
	en := &mapEnt{k: k, v: v}
	n := len(m.ents)
	m.ents = append(m.ents, en)
	m.live++
	key, conc := keyOf(k, t.key)
	if conc {
		m.idx[key] = en
	} else {
		m.nsym++
	}
	if old {
		e.trail = append(e.trail, trailEnt{undo: func() {
			m.ents = m.ents[:n]
			m.live--
			if conc {
				delete(m.idx, key)
			} else {
				m.nsym--
			}
		}})
	}
}

func (e *Exec) mapDelete(mv, k Value, t *Type) {
	m, _ := mv.X.(*Map)
	if m == nil {
		return
	}
	en := e.mapFind(m, k, t)
	if en == nil {
		return
	}
	e.touchMap(m)
	key, conc := keyOf(en.k, t.key)
	en.dead = true
	m.live--
	if conc {
		delete(m.idx, key)
	} else {
		m.nsym--
	}
	if m.E < e.pathEpoch && e.initing == 0 {
		e.trail = append(e.trail, trailEnt{undo: func() {
			en.dead = false
			m.live++
			if conc {
				m.idx[key] = en
			} else {
				m.nsym++
			}
		}})
	}
}

// ---------- builtins ----------

func (e *Exec) builtin(in *inst, args []Value) Value {
	switch in.name {
	case "len":
		switch x := args[0].X.(type) {
		case string:
			return vInt(len(x))
		case *SymStr:
			return vInt(len(x.b))
		case []Value:
			return vInt(len(x))
		case *Map:
			return vInt(x.live)
		case nil:
			if in.t2.k == kPtr {
				return vInt(in.t2.elem.n)
			}
			return vInt(0)
		case Agg:
			return vInt(len(x))
		case *Value:
			return vInt(in.t2.elem.n)
		}
	case "cap":
		switch x := args[0].X.(type) {
		case []Value:
			return vInt(cap(x))
		case nil:
			return vInt(0)
		case Agg:
			return vInt(len(x))
		case *Value:
			return vInt(in.t2.elem.n)
		}
	case "append":
		s := args[0].sl()
		var add []Value
		if len(args) > 1 {
			switch x := args[1].X.(type) {
			case []Value:
				add = x
			case string, *SymStr:
				add = strBytes(args[1])
			}
		}
		if len(add) == 0 {
			return Value{X: s}
		}
		n := len(s)
		if n+len(add) <= cap(s) {
			r := s[:n+len(add)]
			tmp := add
			if n > 0 || true {
				tmp = append([]Value(nil), add...)
			}
			for i := range tmp {
				e.storeCell(&r[n+i], tmp[i])
			}
			return Value{X: r}
		}
		nc := cap(s) * 2
		if cap(s) >= 256 {
			nc = cap(s) + (cap(s)+3*256)/4
		}
		if nc < n+len(add) {
			nc = n + len(add)
		}
		if nc < 8 {
			nc = 8
		}
		r := make([]Value, nc)
		for i := range s {
			r[i] = cell(s[i], e.epoch)
		}
		for i := range add {
			r[n+i] = cell(add[i], e.epoch)
		}
		if et := in.t2.elem; et != nil && nc > n+len(add) {
			fillZero(r[n+len(add):], et, e.epoch)
		}
		return Value{X: r[:n+len(add)]}
	case "copy":
		d := args[0].sl()
		var s []Value
		switch x := args[1].X.(type) {
		case []Value:
			s = x
		case string, *SymStr:
			s = strBytes(args[1])
		}
		n := min(len(d), len(s))
		if n > 0 {
			tmp := append([]Value(nil), s[:n]...)
			for i := 0; i < n; i++ {
				e.storeCell(&d[i], tmp[i])
			}
		}
		return vInt(n)
	case "delete":
		e.mapDelete(args[0], args[1], in.t2)
		return Value{}
	case "clear":
		if m, ok := args[0].X.(*Map); ok {
			for _, en := range append([]*mapEnt(nil), m.ents...) {
				if !en.dead {
					e.mapDelete(args[0], en.k, in.t2)
				}
			}
		} else {
			for i := range args[0].sl() {
				e.storeCell(&args[0].sl()[i], zero(in.t2.elem, 0))
			}
		}
		return Value{}
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			var lt bool
			if in.t2.k == kInt {
				if r.X == nil && x.X == nil {
					if in.t2.sg {
						lt = sx(x.N, in.t2.w) < sx(r.N, in.t2.w)
					} else {
						lt = x.N < r.N
					}
				} else {
					a, b := e.toTerm(x, in.t2.w), e.toTerm(r, in.t2.w)
					c := e.tc.Ult(a, b)
					if in.t2.sg {
						c = e.tc.Slt(a, b)
					}
					if in.name == "max" {
						r = fromTerm(e.tc.Ite(c, b, a))
					} else {
						r = fromTerm(e.tc.Ite(c, a, b))
					}
					continue
				}
			} else {
				panic(unsupported("min/max on %s", in.t2.str))
			}
			if lt == (in.name == "min") {
				r = x
			}
		}
		return r
	case "recover":
		if n := len(e.panFrames); n > 0 {
			f := e.panFrames[n-1]
			if f.pan != nil {
				v := f.pan.v
				f.pan = nil
				if v.X == nil {
					return Value{X: &Iface{rtErrType, vStr("nil panic")}}
				}
				return v
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].X == nil {
			e.nilDeref()
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := e.intOf(args[1])
		if n == 0 {
			return vStr("")
		}
		p := args[0].X.(*Value)
		return mkStr(unsafe.Slice(p, n))
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return Value{}
		}
		n := make([]Value, len(b))
		for i := range b {
			n[i] = cell(b[i], e.epoch)
		}
		return Value{X: &n[0]}
	case "SliceData":
		s := args[0].sl()
		if cap(s) == 0 {
			return Value{}
		}
		return Value{X: unsafe.SliceData(s)}
	case "Slice":
		n := e.intOf(args[1])
		if args[0].X == nil {
			return Value{X: []Value(nil)}
		}
		return Value{X: unsafe.Slice(args[0].X.(*Value), n)}
	}
	panic(unsupported("builtin %s in %s", in.name, e.where()))
}

func (P *Program) lookup(pkg, name string) *Fn {
	p := P.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported("package %s not loaded", pkg))
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported("%s.%s not found", pkg, name))
	}
	return P.fn(f)
}

// describe renders a value for messages.
func (e *Exec) describe(v Value) string {
	switch x := v.X.(type) {
	case *Iface:
		switch x.T.k {
		case kString:
			return e.modelStr(x.V)
		case kInt, kBool:
			return fmt.Sprint(x.V.N)
		case kPtr:
			if c, ok := x.V.X.(*Value); ok {
				if a, ok := c.X.(Agg); ok && len(a) > 0 {
					switch a[0].X.(type) {
					case string, *SymStr:
						return x.T.str + ": " + e.modelStr(a[0])
					}
				}
			}
		}
		return x.T.str
	case string, *SymStr:
		return e.modelStr(v)
	}
	return fmt.Sprintf("%T", v.X)
}

// modelStr evaluates a string under the current model.
func (e *Exec) modelStr(v Value) string {
	if s, ok := v.X.(string); ok {
		return s
	}
	b := strBytes(v)
	r := make([]byte, len(b))
	for i := range b {
		if t, ok := b[i].X.(*Term); ok {
			r[i] = byte(e.tc.eval(t))
		} else {
			r[i] = byte(b[i].N)
		}
	}
	return string(r)
}
