package main

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
)

const rtPkg = "verif/harness/rt"

type observed struct {
	label string
	v     Value
}

// Violation is a solver counterexample (an assignment of the harness inputs).
type Violation struct {
	Harness string            `json:"harness"`
	Tier    string            `json:"tier"`
	Kind    string            `json:"kind"` // assert, panic, hang, frozen
	Msg     string            `json:"msg"`
	At      string            `json:"at"`
	Stack   []string          `json:"stack,omitempty"`
	Finding string            `json:"finding,omitempty"`
	Vars    map[string]uint64 `json:"vars"`
	path    int64
}

type sample struct {
	Vars map[string]uint64 `json:"vars"`
	Obs  []string          `json:"obs"`
}

// explorer holds what is shared by the workers of one harness run.
type explorer struct {
	name, tier string
	st         *Stats
	mu         sync.Mutex
	cond       *sync.Cond
	stack      []*pathItem
	active     int
	stop       bool
	stopWhy    string
	viol       []*Violation
	violN      map[string]int
	incon      map[string]int
	samples    []sample
	lost       []sample // models of paths the encoding could not follow to the end
	nlost      int
	nsample    int
	maxPaths   int64
	reach      map[string]int64
	obsN       int64
}

// worker-persistent extras
type execExtra struct {
	regexCache map[string]Value
}

// harnessState is the per-path state of the harness API.
type harnessState struct {
	x        *execExtra
	X        *explorer
	names    map[string]int
	mapOrder bool
	finding  string
	fs       *modelFS
	obs      []observed
	nperm    int
	asserts  int
	viol     bool
	tier     string
}

func (h *harnessState) inconclusive(why string) {
	if h.X == nil {
		return
	}
	h.X.mu.Lock()
	if len(h.X.incon) < 60 {
		h.X.incon[why]++
	} else {
		h.X.incon["(other)"]++
	}
	h.X.mu.Unlock()
}

func (h *harnessState) fresh(name string) string {
	k := h.names[name]
	h.names[name] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

func (e *Exec) modelVars(m map[string]uint64) map[string]uint64 {
	r := map[string]uint64{}
	for i, v := range e.tc.vars {
		r[v.name] = e.tc.model[i]
		if x, ok := m[v.name]; ok {
			r[v.name] = x
		}
	}
	return r
}

func (e *Exec) report(kind, msg, at string, stk []string, m map[string]uint64) {
	h := e.h
	h.viol = true
	v := &Violation{Harness: h.X.name, Tier: h.X.tier, Kind: kind, Msg: msg, At: at, Stack: stk, Vars: e.modelVars(m), Finding: h.finding}
	X := h.X
	X.mu.Lock()
	defer X.mu.Unlock()
	key := kind + "|" + msg + "|" + h.finding
	X.violN[key]++
	if X.violN[key] <= 8 {
		X.viol = append(X.viol, v)
	}
	if h.finding == "" && !X.stop && X.violN[key] >= 8 {
		X.stop = true
		X.stopWhy = "violations"
		X.cond.Broadcast()
	}
}

func (h *harnessState) frozenWrite(e *Exec) {
	fr := e.frames[len(e.frames)-1]
	if strings.HasPrefix(fr.fn.pkg, "verif/harness") {
		return
	}
	e.freezeEpoch = 0 // report once per path
	e.report("frozen", "state shared between transactions is written while a request is processed", e.where(), e.stackTrace(), nil)
}

func (e *Exec) assertTerm(c Value, msg string) {
	X := e.h.X
	X.st.asserts.Add(1)
	e.h.asserts++
	t, sym := c.X.(*Term)
	if !sym {
		X.st.assertsConcrete.Add(1)
		if c.N == 1 {
			X.st.assertsDischarged.Add(1)
			return
		}
		// the path condition alone decides: confirm it with the solver
		e.report("assert", msg, e.where(), nil, nil)
		panic(pathEnd{"violated"})
	}
	if k, ok := e.lookupKnown(t); ok && k {
		X.st.assertsConcrete.Add(1)
		X.st.assertsDischarged.Add(1)
		return
	}
	X.st.assertsSolver.Add(1)
	neg := e.tc.Not(t)
	res, m := e.S.check(e.tc, e.pc, neg)
	switch res {
	case rUnsat:
		X.st.assertsDischarged.Add(1)
		e.setKnown(t, true)
		return
	case rSat:
		e.report("assert", msg, e.where(), nil, m)
	default:
		e.h.inconclusive("solver unknown on an assertion: " + msg)
	}
	// continue on the part of the path where it holds, if any
	r2, m2 := e.S.check(e.tc, e.pc, t)
	if r2 != rSat {
		panic(pathEnd{"violated"})
	}
	e.adopt(m2)
	e.learn(t, true, false)
}

// adopt merges a model that satisfies pc ∧ the new constraint.
func (e *Exec) adopt(m map[string]uint64) {
	for i, v := range e.tc.vars {
		if x, ok := m[v.name]; ok {
			e.tc.model[i] = x
		}
	}
	e.tc.gen++
}

func (e *Exec) assume(c Value) {
	t, sym := c.X.(*Term)
	if !sym {
		if c.N == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if k, ok := e.lookupKnown(t); ok {
		if !k {
			panic(pathEnd{"assume"})
		}
		return
	}
	if e.tc.eval(t) != 1 {
		if len(e.decs) < len(e.prefix) {
			// still replaying: the item's model satisfies later constraints too
			panic("replay divergence: assumption false under the path model")
		}
		r, m := e.S.check(e.tc, e.pc, t)
		if r != rSat {
			if r == rUnknown {
				e.h.inconclusive("solver unknown on an assumption")
			}
			panic(pathEnd{"assume"})
		}
		e.adopt(m)
	}
	e.learn(t, true, false)
}

func (e *Exec) freshVar(name string, w uint8, def uint64) Value {
	return Value{X: e.tc.Var(e.h.fresh(name), w, e.initVal(def))}
}

// initVal is the value a new variable gets: the path item's model if it has
// one, otherwise the default.
func (e *Exec) initVal(def uint64) uint64 {
	if n := len(e.tc.vars); n < len(e.itemModel()) {
		return e.itemModel()[n]
	}
	return def
}
func (e *Exec) itemModel() []uint64 { return e.curItem.model }

func (e *Exec) choose(name string, n int) Value {
	if n <= 0 {
		panic(unsupported("Choose(%d)", n))
	}
	if n == 1 {
		e.h.fresh(name)
		return vInt(0)
	}
	w := uint8(8)
	if n > 256 {
		w = 64
	}
	v := e.freshVar(name, w, 0)
	t := v.X.(*Term)
	e.assume(fromTerm(e.tc.Ult(t, e.tc.Const(uint64(n), w))))
	return vInt(int(e.concretize(t)))
}

func (h *harnessState) permute(e *Exec, l []*mapEnt) []*mapEnt {
	if e.loc != nil || e.spec > 0 {
		return l
	}
	r := append([]*mapEnt(nil), l...)
	for i := 0; i < len(r)-1; i++ {
		h.nperm++
		j := i + int(e.choose(fmt.Sprintf("$maporder.%d", h.nperm), len(r)-i).N)
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (e *Exec) obsStr(v Value) string {
	i, _ := v.X.(*Iface)
	if i == nil {
		return "<nil>"
	}
	num := func(v Value, w uint8, sg bool) string {
		n := v.N
		if t, ok := v.X.(*Term); ok {
			n = e.tc.eval(t)
		}
		if sg {
			return fmt.Sprint(sx(n, w))
		}
		return fmt.Sprint(n)
	}
	switch i.T.k {
	case kString:
		return fmt.Sprintf("%q", e.modelStr(i.V))
	case kInt:
		return num(i.V, i.T.w, i.T.sg)
	case kBool:
		if num(i.V, 1, false) == "1" {
			return "true"
		}
		return "false"
	case kSlice:
		var p []string
		for _, x := range i.V.sl() {
			p = append(p, e.obsStr(Value{X: &Iface{i.T.elem, Value{N: x.N, X: x.X}}}))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return i.T.str
}

var rtIntrinsics = map[string]intrinsic{
	"Byte": func(e *Exec, fn *Fn, a []Value) Value { return e.freshVar(a[0].X.(string), 8, 'a') },
	"Bool": func(e *Exec, fn *Fn, a []Value) Value {
		v := e.freshVar(a[0].X.(string), 8, 0).X.(*Term)
		e.assume(fromTerm(e.tc.Ult(v, e.tc.Const(2, 8))))
		return fromTerm(e.tc.Eq(v, e.tc.Const(1, 8)))
	},
	"Int64": func(e *Exec, fn *Fn, a []Value) Value { return e.freshVar(a[0].X.(string), 64, 0) },
	"Int": func(e *Exec, fn *Fn, a []Value) Value {
		lo, hi := a[1], a[2]
		v := e.freshVar(a[0].X.(string), 64, lo.N)
		t := v.X.(*Term)
		e.assume(fromTerm(e.tc.And(e.tc.Sle(e.toTerm(lo, 64), t), e.tc.Sle(t, e.toTerm(hi, 64)))))
		return v
	},
	"Choose": func(e *Exec, fn *Fn, a []Value) Value { return e.choose(a[0].X.(string), e.intOf(a[1])) },
	"Str": func(e *Exec, fn *Fn, a []Value) Value {
		return mkStr(e.freshBytes(a[0].X.(string), e.intOf(a[1])))
	},
	"Bytes": func(e *Exec, fn *Fn, a []Value) Value {
		b := e.freshBytes(a[0].X.(string), e.intOf(a[1]))
		for i := range b {
			b[i].E = e.epoch
		}
		return Value{X: b}
	},
	"Alpha": func(e *Exec, fn *Fn, a []Value) Value {
		b := e.freshBytes(a[0].X.(string), e.intOf(a[1]))
		al := a[2].X.(string)
		for i := range b {
			c := e.tc.Bool(false)
			for j := 0; j < len(al); j++ {
				c = e.tc.Or(c, e.tc.Eq(b[i].X.(*Term), e.tc.Const(uint64(al[j]), 8)))
			}
			e.assume(fromTerm(c))
		}
		return mkStr(b)
	},
	"Assume": func(e *Exec, fn *Fn, a []Value) Value { e.assume(a[0]); return Value{} },
	"Assert": func(e *Exec, fn *Fn, a []Value) Value { e.assertTerm(a[0], e.modelStr(a[1])); return Value{} },
	"Tier": func(e *Exec, fn *Fn, a []Value) Value {
		if e.h.tier == "thorough" {
			return vInt(1)
		}
		return vInt(0)
	},
	"Freeze": func(e *Exec, fn *Fn, a []Value) Value {
		e.epoch++
		e.freezeEpoch = e.epoch
		return Value{}
	},
	"CheckFrozen": func(e *Exec, fn *Fn, a []Value) Value {
		e.h.asserts++
		e.h.X.st.asserts.Add(1)
		e.h.X.st.assertsConcrete.Add(1)
		e.h.X.st.assertsDischarged.Add(1)
		e.freezeEpoch = 0
		return Value{}
	},
	"Steps":    func(e *Exec, fn *Fn, a []Value) Value { e.maxSteps = int64(a[0].N) * 1000000; return Value{} },
	"MapOrder": func(e *Exec, fn *Fn, a []Value) Value { e.h.mapOrder = a[0].N == 1; return Value{} },
	"Finding":  func(e *Exec, fn *Fn, a []Value) Value { e.h.finding = a[0].X.(string); return Value{} },
	"Observe": func(e *Exec, fn *Fn, a []Value) Value {
		v := a[1]
		if i, ok := v.X.(*Iface); ok && i.T.k == kSlice {
			s := append([]Value(nil), i.V.sl()...)
			v = Value{X: &Iface{i.T, Value{X: s}}}
		}
		e.h.obs = append(e.h.obs, observed{a[0].X.(string), v})
		return Value{}
	},
	"TempDir": func(e *Exec, fn *Fn, a []Value) Value {
		e.h.fs.dirs["/scratch"] = true
		return vStr("/scratch")
	},
	"FSLimit": func(e *Exec, fn *Fn, a []Value) Value {
		e.h.fs.limit = int(int64(e.num(a[0])))
		return Value{}
	},
	"MakeFile": func(e *Exec, fn *Fn, a []Value) Value {
		e.h.fs.files["/scratch/file"] = &modelFile{name: "/scratch/file", closed: true}
		return vStr("/scratch/file")
	},
	"BreakTempDir": func(e *Exec, fn *Fn, a []Value) Value {
		delete(e.h.fs.dirs, "/scratch")
		return Value{}
	},
	"FixTempDir": func(e *Exec, fn *Fn, a []Value) Value {
		e.h.fs.dirs["/scratch"] = true
		return Value{}
	},
	"FilesIn": func(e *Exec, fn *Fn, a []Value) Value {
		dir, n := path.Clean(e.modelStr(a[0])), 0
		for name := range e.h.fs.files {
			if path.Dir(path.Clean(name)) == dir {
				n++
			}
		}
		return vInt(n)
	},
	"FileCount": func(e *Exec, fn *Fn, a []Value) Value { return vInt(len(e.h.fs.files)) },
	"Reach": func(e *Exec, fn *Fn, a []Value) Value {
		X := e.h.X
		X.mu.Lock()
		X.reach[a[0].X.(string)]++
		X.mu.Unlock()
		return Value{}
	},
	// Native-only helpers.
	"Native": func(e *Exec, fn *Fn, a []Value) Value { return vBool(false) },
}

func (e *Exec) freshBytes(name string, n int) []Value {
	name = e.h.fresh(name)
	b := make([]Value, n)
	for i := range b {
		b[i] = Value{X: e.tc.Var(fmt.Sprintf("%s.%d", name, i), 8, e.initVal('a'))}
	}
	return b
}

// runPath executes one path of the harness.
func (e *Exec) runPath(X *explorer, h *Fn, it *pathItem) {
	e.tc = newTC()
	e.pc = e.pc[:0]
	e.known = map[*Term]bool{}
	e.knownLog = e.knownLog[:0]
	e.prefix, e.decs = it.prefix, make([]dec, 0, len(it.prefix)+16)
	e.loc, e.spec = nil, 0
	e.epoch, e.pathEpoch, e.freezeEpoch, e.exempt = 2, 2, 0, 0
	e.trail = e.trail[:0]
	e.steps, e.depth, e.sp = 0, 0, 0
	e.maxSteps = pathSteps
	e.frames, e.panFrames = e.frames[:0], e.panFrames[:0]
	e.frameFree = e.frameFree[:0]
	e.initing = 0
	e.curItem = it
	hs := &harnessState{x: e.extra, X: X, names: map[string]int{}, fs: newModelFS(), tier: X.tier}
	e.h = hs
	e.enqueue = func(n *pathItem) {
		X.mu.Lock()
		X.stack = append(X.stack, n)
		X.mu.Unlock()
		X.cond.Signal()
	}
	X.st.paths.Add(1)
	done, lost := false, false
	func() {
		defer func() {
			if done {
				return
			}
			lost = true
			switch r := recover().(type) {
			case pathEnd:
				lost = false
				if r.why == "assume" {
					X.st.pathsAssume.Add(1)
				}
			case *targetPanic:
				lost = false
				e.report("panic", r.msg, r.at, r.stk, nil)
			case budgetEnd:
				if r.why == "steps" {
					e.report("hang", "no termination within the step budget", e.where(), e.stackTrace(), nil)
				} else {
					hs.inconclusive("budget: " + r.why + " in " + e.where())
				}
			case unsupportedErr:
				hs.inconclusive("not encoded: " + r.msg)
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "unsupported:", r.msg, strings.Join(e.stackTrace(), "\n   "))
				}
			case specAbort, localAbort, localInfeasible:
				hs.inconclusive(fmt.Sprintf("engine: stray %T in %s", r, e.where()))
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "engine panic:", r, strings.Join(e.stackTrace(), "\n   "))
					if os.Getenv("GOSYM_DEBUG") == "2" {
						panic(r)
					}
				}
				hs.inconclusive(fmt.Sprintf("engine: %.200v in %s", r, e.where()))
			}
		}()
		e.call(h, nil, nil)
		done = true
	}()
	if lost && !hs.viol {
		X.mu.Lock()
		X.nlost++
		if k := X.nlost; len(X.lost) < 300 && (k <= 100 || k%17 == 0) {
			X.lost = append(X.lost, sample{Vars: e.modelVars(nil)})
		}
		X.mu.Unlock()
	}
	if done {
		X.st.pathsDone.Add(1)
		X.mu.Lock()
		X.obsN += int64(len(hs.obs))
		if hs.asserts > 0 {
			X.reach["$asserted"]++
		}
		k := X.nsample
		X.nsample++
		want := !hs.viol && (k < 200 || k%37 == 0) && len(X.samples) < 600
		X.mu.Unlock()
		if want {
			s := sample{Vars: e.modelVars(nil), Obs: []string{}}
			for _, o := range hs.obs {
				s.Obs = append(s.Obs, o.label+"="+e.obsStr(o.v))
			}
			// with a chosen map order too: what it asserts holds for every order
			X.mu.Lock()
			X.samples = append(X.samples, s)
			X.mu.Unlock()
		}
	}
	X.st.steps.Add(e.steps)
	X.st.decisions.Add(int64(len(e.decs)))
	// undo
	for i := len(e.trail) - 1; i >= 0; i-- {
		t := &e.trail[i]
		if t.undo != nil {
			t.undo()
		} else {
			t.c.N, t.c.X = t.n, t.x
		}
	}
	e.trail = e.trail[:0]
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// pathSteps bounds the steps of one path, unless the harness asks for more.
const pathSteps = 4_000_000
