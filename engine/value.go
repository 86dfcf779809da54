package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Value is a Go value during symbolic execution.
//
//	bool, integers     N (masked to width) or X=*Term
//	floats             N = bits
//	string             X = string | *SymStr
//	pointer            X = *Value (nil: X==nil) | *SymPtr
//	slice              X = []Value (nil slice: nil []Value or X==nil)
//	array, struct, tuple  X = Agg
//	map                X = *Map
//	interface          X = *Iface (nil: X==nil)
//	func               X = *Fn | *Closure (nil: X==nil)
//
// E is the allocation epoch when the Value is a memory cell.
type Value struct {
	N uint64
	X any
	E uint32
}
type Agg []Value

type SymStr struct{ b []Value }

type Iface struct {
	T *Type
	V Value
}
type Closure struct {
	fn  *Fn
	env []Value
}

// SymPtr is &base[idx] (then fields path) with a symbolic index known to be in range.
type SymPtr struct {
	base []Value
	idx  *Term
	path []int
}

type mapEnt struct {
	k, v Value
	dead bool
}
type Map struct {
	ents []*mapEnt
	idx  map[any]*mapEnt
	nsym int // live entries with symbolic keys
	live int
	E    uint32
	t    *Type
}

type kind uint8

const (
	kInvalid kind = iota
	kBool
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kSlice
	kArray
	kStruct
	kMap
	kIface
	kFunc
	kChan
	kTuple
)

// Type is a canonical type: identical Go types share one *Type.
type Type struct {
	t      types.Type
	id     int
	k      kind
	w      uint8
	sg     bool
	elem   *Type
	key    *Type
	fields []*Type
	n      int
	named  bool
	str    string
}

var (
	typeMu  sync.Mutex
	typeTab typeutil.Map
	typeN   int
)

func typ(t types.Type) *Type {
	typeMu.Lock()
	defer typeMu.Unlock()
	return typLocked(t)
}

func typLocked(t types.Type) *Type {
	t = types.Unalias(t)
	if x := typeTab.At(t); x != nil {
		return x.(*Type)
	}
	typeN++
	r := &Type{t: t, id: typeN, str: t.String()}
	typeTab.Set(t, r)
	if _, ok := t.(*types.Named); ok {
		r.named = true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			r.k = kBool
		case u.Info()&types.IsInteger != 0:
			r.k = kInt
			r.w, r.sg = intInfo(u)
		case u.Info()&types.IsFloat != 0:
			r.k = kFloat
			r.w = 64
			if u.Kind() == types.Float32 {
				r.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			r.k = kComplex
		case u.Info()&types.IsString != 0:
			r.k = kString
		case u.Kind() == types.UnsafePointer:
			r.k = kPtr
		case u.Kind() == types.UntypedNil:
			r.k = kPtr
		}
	case *types.Pointer:
		r.k = kPtr
		r.elem = typLocked(u.Elem())
	case *types.Slice:
		r.k = kSlice
		r.elem = typLocked(u.Elem())
	case *types.Array:
		r.k = kArray
		r.elem = typLocked(u.Elem())
		r.n = int(u.Len())
	case *types.Struct:
		r.k = kStruct
		for i := 0; i < u.NumFields(); i++ {
			r.fields = append(r.fields, typLocked(u.Field(i).Type()))
		}
		r.n = u.NumFields()
	case *types.Map:
		r.k = kMap
		r.key = typLocked(u.Key())
		r.elem = typLocked(u.Elem())
	case *types.Interface:
		r.k = kIface
	case *types.Signature:
		r.k = kFunc
	case *types.Chan:
		r.k = kChan
		r.elem = typLocked(u.Elem())
	case *types.Tuple:
		r.k = kTuple
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, typLocked(u.At(i).Type()))
		}
		r.n = u.Len()
	case *types.TypeParam:
		r.k = kInvalid
	}
	return r
}

func intInfo(b *types.Basic) (uint8, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	panic("intInfo " + b.String())
}

func zero(t *Type, ep uint32) Value {
	switch t.k {
	case kString:
		return Value{X: "", E: ep}
	case kArray:
		a := make(Agg, t.n)
		fillZero(a, t.elem, ep)
		return Value{X: a, E: ep}
	case kStruct, kTuple:
		a := make(Agg, t.n)
		for i, f := range t.fields {
			a[i] = zero(f, ep)
		}
		return Value{X: a, E: ep}
	case kInvalid, kComplex:
		panic(unsupported("zero of %s", t.str))
	}
	return Value{E: ep}
}
func fillZero(a []Value, t *Type, ep uint32) {
	switch t.k {
	case kArray, kStruct:
		for i := range a {
			a[i] = zero(t, ep)
		}
	default:
		z := zero(t, ep)
		for i := range a {
			a[i] = z
		}
	}
}

// cell makes a fresh memory cell image of v (deep-copying aggregates).
func cell(v Value, ep uint32) Value {
	if a, ok := v.X.(Agg); ok {
		n := make(Agg, len(a))
		for i := range a {
			n[i] = cell(a[i], ep)
		}
		return Value{X: n, E: ep}
	}
	v.E = ep
	return v
}

func copyAgg(v Value) Value {
	if a, ok := v.X.(Agg); ok {
		n := make(Agg, len(a))
		for i := range a {
			if _, ok := a[i].X.(Agg); ok {
				n[i] = copyAgg(a[i])
			} else {
				n[i] = a[i]
			}
		}
		return Value{X: n}
	}
	return v
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) unsupportedErr { return unsupportedErr{fmt.Sprintf(f, a...)} }

func vInt(i int) Value         { return Value{N: uint64(i)} }
func vU(n uint64) Value        { return Value{N: n} }
func vBool(b bool) Value       { return Value{N: b2u(b)} }
func vStr(s string) Value      { return Value{X: s} }
func vTuple(vs ...Value) Value { return Value{X: Agg(vs)} }

func (v Value) term() *Term { t, _ := v.X.(*Term); return t }
func (v Value) sl() []Value {
	s, _ := v.X.([]Value)
	return s
}

func strLen(v Value) int {
	switch s := v.X.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case nil:
		return 0
	}
	panic(fmt.Sprintf("strLen of %T", v.X))
}
func strAt(v Value, i int) Value {
	switch s := v.X.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

// strBytes returns the bytes of a string as Values (not to be modified).
func strBytes(v Value) []Value {
	switch s := v.X.(type) {
	case string:
		r := make([]Value, len(s))
		for i := range r {
			r[i].N = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	case nil:
		return nil
	}
	panic("strBytes")
}

// mkStr builds a string value from byte values (copied).
func mkStr(b []Value) Value {
	sym := false
	for i := range b {
		if b[i].X != nil {
			sym = true
			break
		}
	}
	if !sym {
		bs := make([]byte, len(b))
		for i := range b {
			bs[i] = byte(b[i].N)
		}
		return Value{X: string(bs)}
	}
	n := make([]Value, len(b))
	for i := range b {
		n[i] = Value{N: b[i].N, X: b[i].X}
	}
	return Value{X: &SymStr{n}}
}
func strSlice(v Value, lo, hi int) Value {
	switch s := v.X.(type) {
	case string:
		return Value{X: s[lo:hi]}
	case *SymStr:
		if lo == 0 && hi == len(s.b) {
			return v
		}
		b := s.b[lo:hi:hi]
		for i := range b {
			if b[i].X != nil {
				return Value{X: &SymStr{b}}
			}
		}
		return mkStr(b)
	}
	panic("strSlice")
}
func strConcat(a, b Value) Value {
	as, ok1 := a.X.(string)
	bs, ok2 := b.X.(string)
	if ok1 && ok2 {
		return Value{X: as + bs}
	}
	if ok1 && as == "" {
		return b
	}
	if ok2 && bs == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return Value{X: &SymStr{r}}
}
func isSymScalar(v Value) bool { _, ok := v.X.(*Term); return ok }

// hasSym reports whether a shallow value (scalar, string, byte slice) is symbolic.
func hasSym(v Value) bool {
	switch x := v.X.(type) {
	case *Term, *SymStr, *SymPtr:
		return true
	case []Value:
		n := len(x)
		if n > 256 {
			n = 256
		}
		for i := 0; i < n; i++ {
			switch x[i].X.(type) {
			case *Term, *SymStr:
				return true
			}
		}
	case Agg:
		for i := range x {
			if hasSym(x[i]) {
				return true
			}
		}
	}
	return false
}
