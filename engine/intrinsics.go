package main

// Models of runtime- and environment-level functions. Everything not listed
// here is executed from its own source through go/ssa.

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type intrinsic func(e *Exec, fn *Fn, args []Value) Value
type intrEnt struct {
	f    intrinsic
	pure bool
}
type prefixEnt struct {
	prefix string
	f      intrinsic
}

var skipInit = map[string]bool{
	"github.com/sirupsen/logrus": true, "github.com/davecgh/go-spew/spew": true, "net/http": true, "net": true, "os": false,
	"runtime": true, "internal/cpu": true, "internal/godebug": true, "syscall": false, "time": true, "reflect": true, "fmt": true,
	"internal/poll": true, "crypto/rand": true, "math/rand": true, "internal/godebugs": true, "log": true, "context": true,
	"crypto/tls": true, "verif/harness/rt": true, "internal/reflectlite": true, "encoding/json": true, "flag": true,
}

var intrinsics map[string]intrEnt
var prefixIntrinsics []prefixEnt

func zeroRet(e *Exec, fn *Fn, args []Value) Value {
	if fn.ret == nil {
		return Value{}
	}
	return zero(fn.ret, e.epoch)
}
func ident(e *Exec, fn *Fn, args []Value) Value { return args[0] }

func init() {
	p := func(f intrinsic) intrEnt { return intrEnt{f, true} }
	n := func(f intrinsic) intrEnt { return intrEnt{f, false} }
	intrinsics = map[string]intrEnt{
		"syscall.Getrlimit":    n(zeroRet),
		"syscall.runtime_envs": n(zeroRet), "os.runtime_args": n(zeroRet), "os.NewFile": n(zeroRet), "os.runtime_beforeExit": n(zeroRet),
		"internal/bytealg.IndexByte":       p(func(e *Exec, fn *Fn, a []Value) Value { return e.indexByte(a[0].sl(), a[1]) }),
		"internal/bytealg.IndexByteString": p(func(e *Exec, fn *Fn, a []Value) Value { return e.indexByte(strBytes(a[0]), a[1]) }),
		"internal/bytealg.Count":           p(func(e *Exec, fn *Fn, a []Value) Value { return e.countByte(a[0].sl(), a[1]) }),
		"internal/bytealg.CountString":     p(func(e *Exec, fn *Fn, a []Value) Value { return e.countByte(strBytes(a[0]), a[1]) }),
		"internal/bytealg.Index":           p(func(e *Exec, fn *Fn, a []Value) Value { return e.index(a[0].sl(), a[1].sl()) }),
		"internal/bytealg.IndexString":     p(func(e *Exec, fn *Fn, a []Value) Value { return e.index(strBytes(a[0]), strBytes(a[1])) }),
		"strings.Index":                    p(func(e *Exec, fn *Fn, a []Value) Value { return e.index(strBytes(a[0]), strBytes(a[1])) }),
		"internal/stringslite.Index":       p(func(e *Exec, fn *Fn, a []Value) Value { return e.index(strBytes(a[0]), strBytes(a[1])) }),
		"bytes.Index":                      p(func(e *Exec, fn *Fn, a []Value) Value { return e.index(a[0].sl(), a[1].sl()) }),
		"strings.IndexAny":                 p(indexAny),
		"internal/bytealg.Compare":         p(func(e *Exec, fn *Fn, a []Value) Value { return e.compare(a[0].sl(), a[1].sl()) }),
		"internal/bytealg.CompareString":   p(func(e *Exec, fn *Fn, a []Value) Value { return e.compare(strBytes(a[0]), strBytes(a[1])) }),
		"internal/bytealg.Equal": p(func(e *Exec, fn *Fn, a []Value) Value {
			return fromTerm(e.strEq(mkStr(a[0].sl()), mkStr(a[1].sl())))
		}),
		"bytes.Equal": p(func(e *Exec, fn *Fn, a []Value) Value {
			return fromTerm(e.strEq(mkStr(a[0].sl()), mkStr(a[1].sl())))
		}),
		"internal/bytealg.MakeNoZero": n(func(e *Exec, fn *Fn, a []Value) Value {
			k := e.intOf(a[0])
			s := make([]Value, k)
			fillZero(s, byteType, e.epoch)
			return Value{X: s}
		}),
		"strings.Clone":              p(ident),
		"internal/stringslite.Clone": p(ident),
		"internal/abi.NoEscape":      p(ident),
		"internal/abi.Escape":        p(ident),
		"(*strings.Builder).copyCheck": p(func(e *Exec, fn *Fn, a []Value) Value {
			return Value{}
		}),
		"(*sync.Mutex).Lock":      n(func(e *Exec, fn *Fn, a []Value) Value { return e.lock(fn, a, 1) }),
		"(*sync.Mutex).Unlock":    n(func(e *Exec, fn *Fn, a []Value) Value { return e.lock(fn, a, -1) }),
		"(*sync.Mutex).TryLock":   n(func(e *Exec, fn *Fn, a []Value) Value { e.lock(fn, a, 1); return vBool(true) }),
		"(*sync.RWMutex).Lock":    n(func(e *Exec, fn *Fn, a []Value) Value { return e.lock(fn, a, 1) }),
		"(*sync.RWMutex).Unlock":  n(func(e *Exec, fn *Fn, a []Value) Value { return e.lock(fn, a, -1) }),
		"(*sync.RWMutex).RLock":   n(func(e *Exec, fn *Fn, a []Value) Value { return Value{} }),
		"(*sync.RWMutex).RUnlock": n(func(e *Exec, fn *Fn, a []Value) Value { return Value{} }),
		"(*sync.Once).Do":         n(onceDo),
		"(*sync.Pool).Get":        n(poolGet),
		"(*sync.Pool).Put":        n(zeroRet),
		"(*sync/atomic.Value).Load": n(func(e *Exec, fn *Fn, a []Value) Value {
			return e.load(Value{X: &a[0].X.(*Value).X.(Agg)[0]}, fn.ret)
		}),
		"(*sync/atomic.Value).Store": n(func(e *Exec, fn *Fn, a []Value) Value {
			e.exempt++
			e.storeCell(&a[0].X.(*Value).X.(Agg)[0], a[1])
			e.exempt--
			return Value{}
		}),
		"errors.Is":   n(func(e *Exec, fn *Fn, a []Value) Value { return vBool(e.errIs(a[0], a[1])) }),
		"errors.As":   n(func(e *Exec, fn *Fn, a []Value) Value { return vBool(e.errAs(a[0], a[1])) }),
		"fmt.Sprintf": n(func(e *Exec, fn *Fn, a []Value) Value { return e.sprintf(a[0], a[1].sl()) }),
		"fmt.Errorf":  n(func(e *Exec, fn *Fn, a []Value) Value { return e.errorf(a[0], a[1].sl()) }),
		"fmt.Fprintf": n(func(e *Exec, fn *Fn, a []Value) Value { return e.writeStr(a[0], e.sprintf(a[1], a[2].sl())) }),
		"fmt.Sprint":  n(func(e *Exec, fn *Fn, a []Value) Value { return e.sprint(a[0].sl(), false) }),
		"fmt.Sprintln": n(func(e *Exec, fn *Fn, a []Value) Value {
			return strConcat(e.sprint(a[0].sl(), true), vStr("\n"))
		}),
		"fmt.Fprint": n(func(e *Exec, fn *Fn, a []Value) Value { return e.writeStr(a[0], e.sprint(a[1].sl(), false)) }),
		"fmt.Fprintln": n(func(e *Exec, fn *Fn, a []Value) Value {
			return e.writeStr(a[0], strConcat(e.sprint(a[1].sl(), true), vStr("\n")))
		}),
		"fmt.Printf":  n(zeroRet),
		"fmt.Println": n(zeroRet),
		"fmt.Print":   n(zeroRet),
		"strconv.Itoa": n(func(e *Exec, fn *Fn, a []Value) Value {
			return e.itoa(a[0], 64, true)
		}),
		"strconv.FormatInt": n(func(e *Exec, fn *Fn, a []Value) Value {
			if a[0].X == nil {
				return vStr(strconv.FormatInt(int64(a[0].N), e.intOf(a[1])))
			}
			if e.intOf(a[1]) != 10 {
				return e.callBody(fn, a)
			}
			return e.itoa(a[0], 64, true)
		}),
		"unicode.ToLower":                   p(func(e *Exec, fn *Fn, a []Value) Value { return e.caseMap(a[0], &lowerRuns, unicode.ToLower) }),
		"unicode.ToUpper":                   p(func(e *Exec, fn *Fn, a []Value) Value { return e.caseMap(a[0], &upperRuns, unicode.ToUpper) }),
		"sort.Slice":                        n(sortSlice),
		"sort.SliceStable":                  n(sortSlice),
		"regexp.Compile":                    n(regexpCompile),
		"(*internal/godebug.Setting).Value": n(func(e *Exec, fn *Fn, a []Value) Value { return vStr("") }),
		"internal/godebug.New": n(func(e *Exec, fn *Fn, a []Value) Value {
			c := new(Value)
			*c = zero(fn.ret.elem, e.epoch)
			return Value{X: c}
		}),
		"time.Now":   n(zeroRet),
		"os.Getenv":  n(func(e *Exec, fn *Fn, a []Value) Value { return vStr("") }),
		"os.TempDir": n(func(e *Exec, fn *Fn, a []Value) Value { return vStr("/tmp") }),
	}
	prefixIntrinsics = []prefixEnt{
		{"github.com/sirupsen/logrus.", zeroRet},
		{"(*github.com/sirupsen/logrus.", zeroRet},
		{"github.com/davecgh/go-spew/", zeroRet},
		{"(*internal/godebug.Setting)", zeroRet},
		{"runtime.", zeroRet},
		{"runtime/debug.", zeroRet},
		{"internal/race.", zeroRet},
		{"internal/msan.", zeroRet},
		{"internal/asan.", zeroRet},
		{"sync/atomic.Load", atomicLoad},
		{"sync/atomic.Store", atomicStore},
		{"sync/atomic.Add", atomicAdd},
		{"sync/atomic.CompareAndSwap", atomicCAS},
		{"sync/atomic.Swap", atomicSwap},
		{"internal/runtime/atomic.Load", atomicLoad},
	}
	for k, v := range osIntrinsics {
		intrinsics[k] = intrEnt{v, false}
	}
	for k, v := range rtIntrinsics {
		intrinsics[rtPkg+"."+k] = intrEnt{v, false}
	}
}

// callBody runs the SSA body of a function that also has an intrinsic.
func (e *Exec) callBody(fn *Fn, a []Value) Value {
	fn.compile(e.P)
	if len(fn.blocks) == 0 {
		panic(unsupported("no body: %s", fn.name))
	}
	return e.callPlain(fn, a, nil)
}

func (e *Exec) lock(fn *Fn, a []Value, d int) Value {
	e.exempt += d
	if e.exempt < 0 {
		e.exempt = 0
	}
	return Value{}
}

func onceDo(e *Exec, fn *Fn, a []Value) Value {
	x := e.exempt
	e.exempt = x + 1
	e.callBody(fn, a)
	e.exempt = x
	return Value{}
}
func poolGet(e *Exec, fn *Fn, a []Value) Value {
	ag := a[0].X.(*Value).X.(Agg)
	f := ag[len(ag)-1]
	if f.X == nil {
		return Value{}
	}
	return e.callValue(f, nil)
}
func atomicLoad(e *Exec, fn *Fn, a []Value) Value {
	if fn.ret == nil {
		panic(unsupported("atomic %s", fn.name))
	}
	return e.load(a[0], fn.ret)
}
func atomicStore(e *Exec, fn *Fn, a []Value) Value {
	e.exempt++
	e.store(a[0], a[1])
	e.exempt--
	return Value{}
}
func atomicAdd(e *Exec, fn *Fn, a []Value) Value {
	v := e.load(a[0], fn.ret)
	v = Value{N: (e.num(v) + e.num(a[1])) & mask(fn.ret.w)}
	e.exempt++
	e.store(a[0], v)
	e.exempt--
	return v
}
func atomicCAS(e *Exec, fn *Fn, a []Value) Value {
	c := a[0].X.(*Value)
	if c.N == a[1].N && sameVal(*c, Value{N: a[1].N, X: a[1].X}) {
		e.exempt++
		e.storeCell(c, a[2])
		e.exempt--
		return vBool(true)
	}
	return vBool(false)
}
func atomicSwap(e *Exec, fn *Fn, a []Value) Value {
	v := e.load(a[0], fn.ret)
	e.exempt++
	e.store(a[0], a[1])
	e.exempt--
	return v
}

func (e *Exec) indexByte(b []Value, c Value) Value {
	if c.X == nil {
		sym := false
		for i := range b {
			if b[i].X != nil {
				sym = true
				break
			}
			if b[i].N == c.N {
				return vInt(i)
			}
		}
		if !sym {
			return Value{N: ^uint64(0)}
		}
	}
	ct := e.toTerm(c, 8)
	for i := range b {
		if e.branch(e.tc.Eq(e.toTerm(b[i], 8), ct)) {
			return vInt(i)
		}
	}
	return Value{N: ^uint64(0)}
}
func (e *Exec) countByte(b []Value, c Value) Value {
	ct := e.toTerm(c, 8)
	n := 0
	for i := range b {
		if b[i].X == nil && c.X == nil {
			if b[i].N == c.N {
				n++
			}
			continue
		}
		if e.branch(e.tc.Eq(e.toTerm(b[i], 8), ct)) {
			n++
		}
	}
	return vInt(n)
}
func (e *Exec) matchAt(a, b []Value, i int) *Term {
	r := e.tc.Bool(true)
	for j := range b {
		x, y := a[i+j], b[j]
		if x.X == nil && y.X == nil {
			if x.N != y.N {
				return e.tc.Bool(false)
			}
			continue
		}
		r = e.tc.And(r, e.tc.Eq(e.toTerm(x, 8), e.toTerm(y, 8)))
	}
	return r
}
func (e *Exec) index(a, b []Value) Value {
	for i := 0; i+len(b) <= len(a); i++ {
		if e.branch(e.matchAt(a, b, i)) {
			return vInt(i)
		}
	}
	return Value{N: ^uint64(0)}
}
func (e *Exec) compare(a, b []Value) Value {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		x, y := e.toTerm(a[i], 8), e.toTerm(b[i], 8)
		if e.branch(e.tc.Eq(x, y)) {
			continue
		}
		if e.branch(e.tc.Ult(x, y)) {
			return Value{N: ^uint64(0)}
		}
		return vInt(1)
	}
	switch {
	case len(a) < len(b):
		return Value{N: ^uint64(0)}
	case len(a) > len(b):
		return vInt(1)
	}
	return vInt(0)
}
func indexAny(e *Exec, fn *Fn, a []Value) Value {
	cs, ok := a[1].X.(string)
	if s, c := a[0].X.(string); ok && c {
		return vInt(strings.IndexAny(s, cs))
	}
	if ok {
		for i := 0; i < len(cs); i++ {
			if cs[i] >= 0x80 {
				ok = false
			}
		}
	}
	if !ok {
		return e.callBody(fn, a)
	}
	b := strBytes(a[0])
	for i := range b {
		t := e.toTerm(b[i], 8)
		c := e.tc.Bool(false)
		for j := 0; j < len(cs); j++ {
			c = e.tc.Or(c, e.tc.Eq(t, e.tc.Const(uint64(cs[j]), 8)))
		}
		if e.branch(c) {
			return vInt(i)
		}
	}
	return Value{N: ^uint64(0)}
}

// itoa renders a (possibly symbolic) integer in base 10, forking on sign and
// digit count.
func (e *Exec) itoa(v Value, w uint8, sg bool) Value {
	t, ok := v.X.(*Term)
	if !ok {
		if sg {
			return vStr(strconv.FormatInt(sx(v.N, w), 10))
		}
		return vStr(strconv.FormatUint(v.N, 10))
	}
	tc := e.tc
	var out []Value
	if sg && e.branch(tc.Slt(t, tc.Const(0, w))) {
		out = append(out, Value{N: '-'})
		t = tc.Neg(t)
	}
	p := uint64(10)
	nd := 1
	for nd < 20 {
		if p > mask(w) {
			break
		}
		if e.branch(tc.Ult(t, tc.Const(p, w))) {
			break
		}
		nd++
		if nd == 20 {
			break
		}
		p *= 10
	}
	digs := make([]Value, nd)
	for i := nd - 1; i >= 0; i-- {
		d := tc.Bin(OpUrem, t, tc.Const(10, w))
		t = tc.Bin(OpUdiv, t, tc.Const(10, w))
		digs[i] = fromTerm(tc.Bin(OpAdd, tc.Resize(d, 8, false), tc.Const('0', 8)))
	}
	return mkStr(append(out, digs...))
}

type caseRun struct {
	lo   uint32
	kind uint8 // 0 delta, 1 alternate-even-up.., stored as explicit delta by parity
	d0   int32
	d1   int32
}

var lowerRuns, upperRuns []caseRun

func buildRuns(f func(rune) rune) []caseRun {
	// runs by (delta for even, delta for odd)
	var r []caseRun
	get := func(i rune) (int32, int32) {
		a, b := i&^1, i|1
		return int32(f(a) - a), int32(f(b) - b)
	}
	for i := rune(0); i <= 0x10FFFF; i += 2 {
		d0, d1 := get(i)
		if len(r) == 0 || r[len(r)-1].d0 != d0 || r[len(r)-1].d1 != d1 {
			r = append(r, caseRun{lo: uint32(i), d0: d0, d1: d1})
		}
	}
	r = append(r, caseRun{lo: 0x110000})
	return r
}

var runsOnce = make(chan struct{}, 1)

func (e *Exec) caseMap(v Value, runs *[]caseRun, f func(rune) rune) Value {
	t, ok := v.X.(*Term)
	if !ok {
		return Value{N: uint64(uint32(f(rune(int32(v.N)))))}
	}
	runsOnce <- struct{}{}
	if *runs == nil {
		*runs = buildRuns(f)
	}
	rs := *runs
	<-runsOnce
	tc := e.tc
	odd := tc.Eq(tc.Bin(OpBAnd, t, tc.Const(1, 32)), tc.Const(1, 32))
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return tc.Bin(OpAdd, t, tc.Ite(odd, tc.Const(uint64(uint32(rs[lo].d1)), 32), tc.Const(uint64(uint32(rs[lo].d0)), 32)))
		}
		m := (lo + hi) / 2
		return tc.Ite(tc.Ult(t, tc.Const(uint64(rs[m].lo), 32)), build(lo, m), build(m, hi))
	}
	// when the rune is a zero-extended byte only the low runs matter
	hi := len(rs)
	if t.op == OpZext && t.a.w == 8 {
		hi = 1
		for hi < len(rs) && rs[hi].lo <= 0xff {
			hi++
		}
	}
	return fromTerm(build(0, hi))
}

func sortSlice(e *Exec, fn *Fn, a []Value) Value {
	s := a[0].X.(*Iface).V.sl()
	swap := func(i, j int) {
		x, y := copyAgg(s[i]), copyAgg(s[j])
		e.storeCell(&s[i], y)
		e.storeCell(&s[j], x)
	}
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !e.truth(e.callValue(a[1], []Value{vInt(j), vInt(j - 1)})) {
				break
			}
			swap(j, j-1)
		}
	}
	return Value{}
}

func regexpCompile(e *Exec, fn *Fn, a []Value) Value {
	s, ok := a[0].X.(string)
	if !ok || e.initing > 0 {
		return e.callBody(fn, a)
	}
	if e.spec > 0 || e.loc != nil {
		panic(localAbort{"regexp"})
	}
	if v, ok := e.h.x.regexCache[s]; ok {
		return v
	}
	savEpoch, savFreeze, savSteps := e.epoch, e.freezeEpoch, e.steps
	e.epoch, e.freezeEpoch = 0, 0
	e.initing++
	v := e.callBody(fn, a)
	e.initing--
	e.epoch, e.freezeEpoch, e.steps = savEpoch, savFreeze, savSteps
	e.h.x.regexCache[s] = v
	return v
}

// ---------- errors ----------

func comparableT(t *Type) bool { return types.Comparable(t.t) }

func (e *Exec) findMethod(t *Type, name string) *types.Func {
	e.P.gmu.Lock()
	defer e.P.gmu.Unlock()
	ms := e.P.prog.MethodSets.MethodSet(t.t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name {
			return f
		}
	}
	return nil
}

func (e *Exec) invokeByName(v Value, name string, args []Value) (Value, bool) {
	i, _ := v.X.(*Iface)
	if i == nil {
		return Value{}, false
	}
	m := e.findMethod(i.T, name)
	if m == nil {
		return Value{}, false
	}
	return e.invoke(v, m, args), true
}

func (e *Exec) errIs(err, target Value) bool {
	et, _ := err.X.(*Iface)
	tt, _ := target.X.(*Iface)
	if et == nil || tt == nil {
		return et == tt
	}
	if et.T == tt.T && comparableT(et.T) && e.branch(e.eq(et.T, et.V, tt.V)) {
		return true
	}
	if m := e.findMethod(et.T, "Is"); m != nil && m.Type().(*types.Signature).Params().Len() == 1 {
		if e.truth(e.invoke(err, m, []Value{target})) {
			return true
		}
	}
	return e.unwrapEach(et, err, func(x Value) bool { return e.errIs(x, target) })
}
func (e *Exec) unwrapEach(et *Iface, err Value, f func(Value) bool) bool {
	m := e.findMethod(et.T, "Unwrap")
	if m == nil {
		return false
	}
	r := e.invoke(err, m, nil)
	switch x := r.X.(type) {
	case nil:
		return false
	case *Iface:
		return f(r)
	case []Value:
		for _, y := range x {
			if f(Value{X: y.X}) {
				return true
			}
		}
	}
	return false
}
func (e *Exec) errAs(err, target Value) bool {
	et, _ := err.X.(*Iface)
	tt, _ := target.X.(*Iface)
	if et == nil || tt == nil {
		return false
	}
	want := tt.T.elem
	if want.k == kIface {
		if e.implements(et.T, want) {
			e.store(tt.V, err)
			return true
		}
	} else if et.T == want {
		e.store(tt.V, et.V)
		return true
	}
	return e.unwrapEach(et, err, func(x Value) bool { return e.errAs(x, target) })
}

func (e *Exec) namedType(pkg, name string) *Type {
	p := e.P.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported("package %s", pkg))
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("type %s.%s", pkg, name))
	}
	return typ(o.Type())
}
func (e *Exec) newPtr(t *Type, fields ...Value) Value {
	c := new(Value)
	*c = zero(t, e.epoch)
	for i, f := range fields {
		a := c.X.(Agg)
		a[i] = cell(f, e.epoch)
	}
	return Value{X: c}
}
func (e *Exec) ptrIface(t *Type, p Value) Value {
	return Value{X: &Iface{typ(types.NewPointer(t.t)), p}}
}

func (e *Exec) errorf(f Value, args []Value) Value {
	s := e.sprintf(f, args)
	if fs, ok := f.X.(string); ok && strings.Contains(fs, "%w") {
		for _, a := range args {
			if i, _ := a.X.(*Iface); i != nil && e.findMethod(i.T, "Error") != nil {
				t := e.namedType("fmt", "wrapError")
				return e.ptrIface(t, e.newPtr(t, s, Value{X: a.X}))
			}
		}
	}
	t := e.namedType("errors", "errorString")
	return e.ptrIface(t, e.newPtr(t, s))
}

func (e *Exec) writeStr(w, s Value) Value {
	b := strBytes(s)
	sl := make([]Value, len(b))
	for i := range b {
		sl[i] = cell(b[i], e.epoch)
	}
	r, ok := e.invokeByName(w, "Write", []Value{{X: sl}})
	if !ok {
		panic(unsupported("Fprintf to %T", w.X))
	}
	return r
}

func (e *Exec) sprint(args []Value, sp bool) Value {
	r := vStr("")
	for i, a := range args {
		if i > 0 && sp {
			r = strConcat(r, vStr(" "))
		}
		r = strConcat(r, e.fmtV('v', "", a))
	}
	return r
}

func (e *Exec) sprintf(f Value, args []Value) Value {
	fs, conc := f.X.(string)
	fb := []Value(nil)
	n := len(fs)
	if !conc {
		fb = strBytes(f)
		n = len(fb)
	}
	// is: whether byte i of the format is c; at: byte i, split over its values.
	is := func(i int, c byte) bool {
		if conc {
			return fs[i] == c
		}
		if t, ok := fb[i].X.(*Term); ok {
			return e.branch(e.tc.Eq(t, e.tc.Const(uint64(c), 8)))
		}
		return byte(fb[i].N) == c
	}
	at := func(i int) byte {
		if conc {
			return fs[i]
		}
		return byte(e.num(fb[i]))
	}
	sub := func(i, j int) Value {
		if conc {
			return vStr(fs[i:j])
		}
		return mkStr(fb[i:j])
	}
	r := vStr("")
	ai := 0
	for i := 0; i < n; {
		j := i
		for j < n && !is(j, '%') {
			j++
		}
		r = strConcat(r, sub(i, j))
		if j >= n {
			break
		}
		i = j + 1
		k := i
		flags := ""
		for k < n && !is(k, '%') && strings.IndexByte("+-# 0123456789.*[]", at(k)) >= 0 {
			flags += string(at(k))
			k++
		}
		if strings.ContainsAny(flags, "*[]") {
			panic(unsupported("format flags %q", flags))
		}
		if k >= n {
			r = strConcat(r, vStr("%!(NOVERB)"))
			break
		}
		verb := rune(at(k))
		i = k + 1
		if verb >= utf8.RuneSelf {
			b := []byte{byte(verb)}
			for i < n && !utf8.FullRune(b) {
				b = append(b, at(i))
				i++
			}
			var sz int
			verb, sz = utf8.DecodeRune(b)
			i = k + sz
		}
		if verb == '%' {
			r = strConcat(r, vStr("%"))
			continue
		}
		if ai >= len(args) {
			r = strConcat(r, vStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		r = strConcat(r, e.fmtV(verb, flags, args[ai]))
		ai++
	}
	if ai < len(args) {
		r = strConcat(r, vStr("%!(EXTRA "))
		for k, a := range args[ai:] {
			if k > 0 {
				r = strConcat(r, vStr(", "))
			}
			r = strConcat(r, e.fmtTyped(a))
		}
		r = strConcat(r, vStr(")"))
	}
	return r
}

// fmtTyped: an operand the format does not use properly, as type=value.
func (e *Exec) fmtTyped(a Value) Value {
	i, _ := a.X.(*Iface)
	if i == nil {
		return vStr("<nil>")
	}
	return strConcat(vStr(i.T.str+"="), e.fmtV('v', "", a))
}

func (e *Exec) fmtV(verb rune, flags string, a Value) Value {
	i, _ := a.X.(*Iface)
	if i == nil {
		if verb != 'v' && verb != 'T' {
			return vStr("%!" + string(verb) + "(<nil>)")
		}
		return vStr("<nil>")
	}
	if strings.Contains(flags, "#") {
		return vStr("<" + i.T.str + ">")
	}
	if verb == 'T' {
		return vStr(i.T.str)
	}
	if verb != 'd' && verb != 'p' {
		if m := e.findMethod(i.T, "Error"); m != nil {
			return e.invoke(a, m, nil)
		}
		if m := e.findMethod(i.T, "String"); m != nil && m.Type().(*types.Signature).Params().Len() == 0 {
			return e.invoke(a, m, nil)
		}
	}
	v := i.V
	if ok := map[kind]string{kString: "vsqxX", kInt: "vdcqxXobOU", kBool: "vt"}[i.T.k]; ok != "" && !strings.ContainsRune(ok, verb) {
		return strConcat(strConcat(vStr("%!"+string(verb)+"("), e.fmtTyped(a)), vStr(")"))
	}
	switch i.T.k {
	case kString:
		if flags != "" || verb == 'x' || verb == 'X' {
			b := strBytes(v)
			c := make([]byte, len(b))
			for k := range b {
				c[k] = byte(e.num(b[k]))
			}
			return vStr(fmt.Sprintf("%"+flags+string(verb), string(c)))
		}
		if verb == 'q' {
			if s, ok := v.X.(string); ok {
				return vStr(strconv.Quote(s))
			}
			return strConcat(strConcat(vStr("\""), v), vStr("\""))
		}
		return v
	case kInt:
		if verb == 'c' {
			return e.convert(i.T, typ(types.Typ[types.String]), v)
		}
		if verb == 'q' {
			return vStr(fmt.Sprintf("%q", rune(e.num(v))))
		}
		if verb != 'd' && verb != 'v' || flags != "" {
			if !i.T.sg {
				return vStr(fmt.Sprintf("%"+flags+string(verb), e.num(v)))
			}
			return vStr(fmt.Sprintf("%"+flags+string(verb), sx(e.num(v), i.T.w)))
		}
		return e.itoa(v, i.T.w, i.T.sg)
	case kBool:
		if e.truth(v) {
			return vStr("true")
		}
		return vStr("false")
	case kFloat:
		return vStr(fmt.Sprintf("%"+flags+string(verb), math.Float64frombits(v.N)))
	case kSlice:
		if i.T.elem.k == kString || i.T.elem.k == kInt {
			if i.T.elem.w == 8 && verb == 's' {
				return mkStr(v.sl())
			}
			r := vStr("[")
			for k, x := range v.sl() {
				if k > 0 {
					r = strConcat(r, vStr(" "))
				}
				r = strConcat(r, e.fmtV(verb, flags, Value{X: &Iface{i.T.elem, Value{N: x.N, X: x.X}}}))
			}
			return strConcat(r, vStr("]"))
		}
	}
	return vStr("<" + i.T.str + ">")
}
