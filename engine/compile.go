package main

// Compilation of go/ssa functions (built from /repo's current source on every
// run) into a compact register form.

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	oNop opcode = iota
	oAlloc
	oBin
	oUn
	oLoad
	oCall
	oCallBuiltin
	oCallDyn
	oInvoke
	oMove
	oConvert
	oDefer
	oExtract
	oField
	oFieldAddr
	oIf
	oIndex
	oIndexAddr
	oJump
	oLookup
	oMakeClosure
	oMakeIface
	oMakeMap
	oMakeSlice
	oMapUpdate
	oNext
	oPanic
	oPhi
	oRange
	oReturn
	oRunDefers
	oSlice
	oSliceToArr
	oStore
	oTypeAssert
	oUnsupported
)

const globalBase = -1 << 24

type inst struct {
	op      opcode
	commaOk bool
	sg      bool
	w       uint8
	tok     token.Token
	dst     int32
	a, b, c int32
	d       int32
	idx     int
	args    []int32
	t, t2   *Type
	fn      *Fn
	meth    *types.Func
	name    string
	pos     token.Pos
	in      ssa.Instruction
}

type phi struct {
	dst   int32
	edges []int32
	t     *Type
	merge bool // ite-mergeable type
}

type block struct {
	idx    int
	phis   []phi
	code   []inst
	succ   [2]*block
	predIx [2]int // index of this block among succ[i]'s preds
	npred  int
	pure   bool // can be speculated (ends in If or Jump)
	nin    int
}

type Fn struct {
	ssa    *ssa.Function
	name   string
	pkg    string
	intr   intrinsic
	inPure bool // intrinsic usable in pure code
	once   sync.Once
	blocks []*block
	nregs  int
	consts []Value
	params []int32
	free   []int32
	hasDef bool
	rec    *block
	repo   bool
	ret    *Type
	sig    *types.Signature

	effOnce   sync.Once
	effFree   bool // no stores outside its own frame, no dynamic calls
	mergeable bool
}

type Program struct {
	prog    *ssa.Program
	fset    *token.FileSet
	fns     sync.Map // *ssa.Function -> *Fn
	gmu     sync.Mutex
	globals []*ssa.Global
	gidx    map[*ssa.Global]int
	repoMod string
	repoPkg map[*ssa.Package]bool
	purMu   sync.Mutex
}

// linknames: bodyless declarations bound to functions of other packages.
var linknames = map[string][2]string{
	"mime/multipart.readMIMEHeader": {"net/textproto", "readMIMEHeader"},
}

func (P *Program) fn(f *ssa.Function) *Fn {
	if x, ok := P.fns.Load(f); ok {
		return x.(*Fn)
	}
	if l, ok := linknames[f.String()]; ok && len(f.Blocks) == 0 {
		if p := P.prog.ImportedPackage(l[0]); p != nil && p.Func(l[1]) != nil {
			return P.fn(p.Func(l[1]))
		}
	}
	n := &Fn{ssa: f, name: f.String(), sig: f.Signature}
	org := f
	if f.Origin() != nil {
		org = f.Origin()
	}
	if org.Pkg != nil {
		n.pkg = org.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		n.pkg = o.Pkg().Path()
	}
	n.repo = strings.HasPrefix(n.pkg, P.repoMod)
	iname := n.name
	if org != f {
		iname = org.String()
	}
	if it, ok := intrinsics[iname]; ok {
		n.intr = it.f
		n.inPure = it.pure
	} else {
		for _, p := range prefixIntrinsics {
			if strings.HasPrefix(iname, p.prefix) {
				n.intr = p.f
				break
			}
		}
	}
	switch r := f.Signature.Results(); r.Len() {
	case 0:
	case 1:
		n.ret = typ(r.At(0).Type())
	default:
		n.ret = typ(r)
	}
	x, _ := P.fns.LoadOrStore(f, n)
	return x.(*Fn)
}

func (P *Program) global(g *ssa.Global) int {
	P.gmu.Lock()
	defer P.gmu.Unlock()
	if i, ok := P.gidx[g]; ok {
		return i
	}
	i := len(P.globals)
	P.globals = append(P.globals, g)
	P.gidx[g] = i
	return i
}

func constValue(c *ssa.Const) Value {
	t := typ(c.Type())
	if c.Value == nil {
		return zero(t, 0)
	}
	switch t.k {
	case kBool:
		return vBool(constant.BoolVal(c.Value))
	case kInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & mask(t.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & mask(t.w)}
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		if t.w == 32 {
			f = float64(float32(f))
		}
		return Value{N: math.Float64bits(f)}
	case kString:
		return vStr(constant.StringVal(c.Value))
	case kPtr:
		return Value{}
	}
	return Value{X: &badConst{c.String()}}
}

type badConst struct{ s string }

func (f *Fn) compile(P *Program) {
	f.once.Do(func() { f.doCompile(P) })
}

func mergeKind(t *Type) bool {
	return t != nil && (t.k == kBool || (t.k == kInt && (t.w == 8 || t.w == 32)))
}

func (f *Fn) doCompile(P *Program) {
	sf := f.ssa
	if len(sf.Blocks) == 0 {
		return
	}
	regs := map[ssa.Value]int32{}
	newReg := func(v ssa.Value) int32 {
		r, ok := regs[v]
		if !ok {
			r = int32(len(regs))
			regs[v] = r
		}
		return r
	}
	cidx := map[ssa.Value]int32{}
	addConst := func(key ssa.Value, v Value) int32 {
		if i, ok := cidx[key]; ok {
			return i
		}
		f.consts = append(f.consts, v)
		i := -int32(len(f.consts))
		cidx[key] = i
		return i
	}
	for _, p := range sf.Params {
		f.params = append(f.params, newReg(p))
	}
	for _, p := range sf.FreeVars {
		f.free = append(f.free, newReg(p))
	}
	op := func(v ssa.Value) int32 {
		switch v := v.(type) {
		case nil:
			return math.MinInt32
		case *ssa.Const:
			return addConst(v, constValue(v))
		case *ssa.Global:
			return int32(globalBase - P.global(v))
		case *ssa.Function:
			return addConst(v, Value{X: P.fn(v)})
		case *ssa.Builtin:
			return addConst(v, Value{X: &badConst{v.String()}})
		}
		return newReg(v)
	}
	bm := map[*ssa.BasicBlock]*block{}
	for _, b := range sf.Blocks {
		bm[b] = &block{idx: b.Index, npred: len(b.Preds)}
	}
	ops := func(vs []ssa.Value) []int32 {
		r := make([]int32, len(vs))
		for i, v := range vs {
			r[i] = op(v)
		}
		return r
	}
	for _, b := range sf.Blocks {
		nb := bm[b]
		pure := true
		for i, s := range b.Succs {
			nb.succ[i] = bm[s]
			for j, p := range s.Preds {
				if p == b {
					// for both edges to one successor pick distinct slots
					if i == 1 && b.Succs[0] == s && nb.predIx[0] == j {
						continue
					}
					nb.predIx[i] = j
					break
				}
			}
		}
		for _, in := range b.Instrs {
			var n inst
			n.in = in
			n.pos = in.Pos()
			n.dst = -1
			if v, ok := in.(ssa.Value); ok {
				n.dst = newReg(v)
				n.t = typ(v.Type())
				n.w, n.sg = n.t.w, n.t.sg
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				nb.phis = append(nb.phis, phi{n.dst, ops(in.Edges), n.t, mergeKind(n.t)})
				continue
			case *ssa.Alloc:
				n.op = oAlloc
				n.t2 = n.t.elem
				pure = false
			case *ssa.BinOp:
				n.op = oBin
				n.tok = in.Op
				n.a, n.b = op(in.X), op(in.Y)
				n.t2 = typ(in.X.Type())
				if n.t2.k == kIface != (typ(in.Y.Type()).k == kIface) {
					n.op = oUnsupported
				}
				if in.Op == token.SHL || in.Op == token.SHR {
					yt := typ(in.Y.Type())
					n.idx = int(yt.w)
					n.commaOk = yt.sg
				}
			case *ssa.UnOp:
				n.a = op(in.X)
				n.tok = in.Op
				n.op = oUn
				if in.Op == token.MUL {
					n.op = oLoad
				}
				if in.Op == token.ARROW {
					n.op = oUnsupported
					pure = false
				}
			case *ssa.Call:
				n.compileCall(P, op, ops, &in.Call)
				if n.op == oCallBuiltin && (n.name == "len" || n.name == "cap") {
				} else if n.op == oCall && (n.fn.intr == nil || n.fn.inPure) {
					// decided lazily: needs n.fn's purity
				} else {
					pure = false
				}
			case *ssa.Defer:
				n.compileCall(P, op, ops, &in.Call)
				n.idx = int(n.op)
				n.op = oDefer
				f.hasDef = true
				pure = false
			case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan, *ssa.MultiConvert:
				n.op = oUnsupported
				pure = false
			case *ssa.ChangeInterface:
				n.op = oMove
				n.a = op(in.X)
			case *ssa.ChangeType:
				n.op = oMove
				n.a = op(in.X)
			case *ssa.Convert:
				n.op = oConvert
				n.a = op(in.X)
				n.t2 = typ(in.X.Type())
				if n.t.k != kInt || n.t2.k != kInt {
					pure = false
				}
			case *ssa.Extract:
				n.op = oExtract
				n.a = op(in.Tuple)
				n.idx = in.Index
			case *ssa.Field:
				n.op = oField
				n.a = op(in.X)
				n.idx = in.Field
			case *ssa.FieldAddr:
				n.op = oFieldAddr
				n.a = op(in.X)
				n.idx = in.Field
			case *ssa.If:
				n.op = oIf
				n.a = op(in.Cond)
			case *ssa.Jump:
				n.op = oJump
			case *ssa.Index:
				n.op = oIndex
				n.a, n.b = op(in.X), op(in.Index)
				n.t2 = typ(in.X.Type())
				n.idx = int(typ(in.Index.Type()).w)
				n.commaOk = typ(in.Index.Type()).sg
			case *ssa.IndexAddr:
				n.op = oIndexAddr
				n.a, n.b = op(in.X), op(in.Index)
				n.t2 = typ(in.X.Type())
				n.idx = int(typ(in.Index.Type()).w)
				n.commaOk = typ(in.Index.Type()).sg
			case *ssa.Lookup:
				n.op = oLookup
				n.a, n.b = op(in.X), op(in.Index)
				n.t2 = typ(in.X.Type())
				n.commaOk = in.CommaOk
				if n.t2.k == kString {
					n.idx = int(typ(in.Index.Type()).w)
				}
				if n.t2.k == kMap {
					pure = false
				}
			case *ssa.MakeClosure:
				n.op = oMakeClosure
				n.fn = P.fn(in.Fn.(*ssa.Function))
				n.args = ops(in.Bindings)
				pure = false
			case *ssa.MakeInterface:
				n.op = oMakeIface
				n.a = op(in.X)
				n.t2 = typ(in.X.Type())
			case *ssa.MakeMap:
				n.op = oMakeMap
				pure = false
			case *ssa.MakeSlice:
				n.op = oMakeSlice
				n.a, n.b = op(in.Len), op(in.Cap)
				pure = false
			case *ssa.MapUpdate:
				n.op = oMapUpdate
				n.a, n.b, n.c = op(in.Map), op(in.Key), op(in.Value)
				n.t2 = typ(in.Map.Type())
				pure = false
			case *ssa.Next:
				n.op = oNext
				n.a = op(in.Iter)
				n.commaOk = in.IsString
				pure = false
			case *ssa.Panic:
				n.op = oPanic
				n.a = op(in.X)
				pure = false
			case *ssa.Range:
				n.op = oRange
				n.a = op(in.X)
				n.t2 = typ(in.X.Type())
				pure = false
			case *ssa.Return:
				n.op = oReturn
				n.args = ops(in.Results)
				pure = false
			case *ssa.RunDefers:
				n.op = oRunDefers
				pure = false
			case *ssa.Slice:
				n.op = oSlice
				n.a, n.b, n.c, n.d = op(in.X), op(in.Low), op(in.High), op(in.Max)
				n.t2 = typ(in.X.Type())
				if n.t2.k != kString {
					pure = false
				}
			case *ssa.SliceToArrayPointer:
				n.op = oSliceToArr
				n.a = op(in.X)
				pure = false
			case *ssa.Store:
				n.op = oStore
				n.a, n.b = op(in.Addr), op(in.Val)
				pure = false
			case *ssa.TypeAssert:
				n.op = oTypeAssert
				n.a = op(in.X)
				n.commaOk = in.CommaOk
				n.t2 = typ(in.AssertedType)
				pure = false
			default:
				n.op = oUnsupported
				pure = false
			}
			nb.code = append(nb.code, n)
		}
		nb.pure = pure && len(nb.phis) == 0 && len(nb.code) <= 40
		nb.nin = len(nb.code)
		f.blocks = append(f.blocks, nb)
	}
	if sf.Recover != nil {
		f.rec = bm[sf.Recover]
	}
	f.nregs = len(regs)
}

func (n *inst) compileCall(P *Program, op func(ssa.Value) int32, ops func([]ssa.Value) []int32, c *ssa.CallCommon) {
	n.args = ops(c.Args)
	if c.IsInvoke() {
		n.op = oInvoke
		n.a = op(c.Value)
		n.meth = c.Method
		return
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		n.op = oCallBuiltin
		n.name = v.Name()
		if len(c.Args) > 0 {
			n.t2 = typ(c.Args[0].Type())
		}
	case *ssa.Function:
		n.op = oCall
		n.fn = P.fn(v)
	default:
		n.op = oCallDyn
		n.a = op(c.Value)
	}
}

// effectFree: executing the function changes nothing outside its own frame.
func (P *Program) effectFree(f *Fn) bool {
	P.purMu.Lock()
	defer P.purMu.Unlock()
	return P.effectFreeL(f, map[*Fn]bool{})
}
func (P *Program) effectFreeL(f *Fn, seen map[*Fn]bool) bool {
	if f.intr != nil {
		return f.inPure
	}
	if seen[f] {
		return false // recursion: give up
	}
	seen[f] = true
	defer delete(seen, f)
	res := false
	done := true
	f.effOnce.Do(func() { done = false })
	if done {
		return f.effFree
	}
	res = P.effCompute(f.ssa, seen)
	f.effFree = res
	f.mergeable = res && mergeKind(f.ret)
	return res
}

func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
}

func (P *Program) effCompute(f *ssa.Function, seen map[*Fn]bool) bool {
	if len(f.Blocks) == 0 || len(f.Blocks) > 60 || len(f.FreeVars) > 0 || f.Recover != nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.DebugRef, *ssa.Alloc, *ssa.BinOp, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Extract, *ssa.Field, *ssa.FieldAddr,
				*ssa.If, *ssa.Jump, *ssa.Index, *ssa.IndexAddr, *ssa.Lookup, *ssa.MakeInterface, *ssa.Phi, *ssa.Return,
				*ssa.Convert, *ssa.Slice, *ssa.TypeAssert:
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					return false
				}
			case *ssa.Next:
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
			case *ssa.Store:
				if !localAddr(in.Addr) {
					return false
				}
			case *ssa.Panic:
			case *ssa.Call:
				if in.Call.IsInvoke() {
					return false
				}
				switch v := in.Call.Value.(type) {
				case *ssa.Builtin:
					switch v.Name() {
					case "len", "cap", "min", "max":
					default:
						return false
					}
				case *ssa.Function:
					if !P.effectFreeL(P.fn(v), seen) {
						return false
					}
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}
