package main

// Bit-vector / boolean terms: hash-consed DAG with local simplification,
// concrete evaluation under a model, and SMT-LIB2 printing.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpEq  // any -> bool
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte // bool, x, y
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpSdiv
	OpUrem
	OpSrem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpExtract // n = lo; w = width
	OpZext
	OpSext
	OpConcat
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpSdiv: "bvsdiv", OpUrem: "bvurem", OpSrem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat",
}

// Term is immutable once built. Width 0 means Bool.
type Term struct {
	op      Op
	w       uint8
	id      int32
	a, b, c *Term
	n       uint64
	h1, h2  uint64
	vars    []uint64
	ev      uint64
	evGen   uint32
}

type VarInfo struct {
	name string
	w    uint8
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c *Term
	n       uint64
}

// TC is a term context (one per explored path).
type TC struct {
	tab   map[termKey]*Term
	vars  []VarInfo
	vterm []*Term
	gen   uint32
	model []uint64
	next  int32
}

func newTC() *TC { return &TC{tab: make(map[termKey]*Term, 256), gen: 1} }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}
func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func hashStr(s string) (uint64, uint64) {
	a, b := uint64(14695981039346656037), uint64(0xabcdef1234567)
	for i := 0; i < len(s); i++ {
		a = (a ^ uint64(s[i])) * 1099511628211
		b = mix(b, uint64(s[i])+1)
	}
	return a, b
}

func unionBits(a, b []uint64) []uint64 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) < len(b) {
		a, b = b, a
	}
	sub := true
	for i, x := range b {
		if x&^a[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	r := append([]uint64(nil), a...)
	for i, x := range b {
		r[i] |= x
	}
	return r
}
func intersects(a, b []uint64) bool {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

func (tc *TC) mk(op Op, w uint8, a, b, c *Term, n uint64) *Term {
	k := termKey{op, w, a, b, c, n}
	if t, ok := tc.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, n: n, id: tc.next}
	tc.next++
	if op == OpVar {
		v := tc.vars[n]
		t.h1, t.h2 = hashStr(v.name)
		t.h1 = mix(t.h1, uint64(w))
		bs := make([]uint64, n/64+1)
		bs[n/64] = 1 << (n % 64)
		t.vars = bs
	} else {
		h1, h2 := mix(uint64(op)+1, uint64(w)), mix(uint64(op)*31+7, uint64(w)+3)
		h1, h2 = mix(h1, n), mix(h2, n*5+1)
		for _, x := range []*Term{a, b, c} {
			if x != nil {
				h1, h2 = mix(h1, x.h1), mix(h2, x.h2)
				t.vars = unionBits(t.vars, x.vars)
			} else {
				h1, h2 = mix(h1, 17), mix(h2, 19)
			}
		}
		t.h1, t.h2 = h1, h2
	}
	tc.tab[k] = t
	return t
}

func (tc *TC) Const(v uint64, w uint8) *Term { return tc.mk(OpConst, w, nil, nil, nil, v&mask2(w)) }
func mask2(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}
func (tc *TC) Bool(b bool) *Term {
	if b {
		return tc.Const(1, 0)
	}
	return tc.Const(0, 0)
}
func (tc *TC) Var(name string, w uint8, val uint64) *Term {
	for i, v := range tc.vars {
		if v.name == name {
			return tc.vterm[i]
		}
	}
	tc.vars = append(tc.vars, VarInfo{name, w})
	tc.model = append(tc.model, val&mask2(w))
	t := tc.mk(OpVar, w, nil, nil, nil, uint64(len(tc.vars)-1))
	tc.vterm = append(tc.vterm, t)
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.n == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.n == 0 }

func (tc *TC) Not(a *Term) *Term {
	if a.isConst() {
		return tc.Bool(a.n == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return tc.mk(OpNot, 0, a, nil, nil, 0)
}
func (tc *TC) And(a, b *Term) *Term {
	if a.isConst() {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.n == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return tc.Bool(false)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OpAnd, 0, a, b, nil, 0)
}
func (tc *TC) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.n == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.n == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return tc.Bool(true)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OpOr, 0, a, b, nil, 0)
}
func (tc *TC) Eq(a, b *Term) *Term {
	if a == b {
		return tc.Bool(true)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tc.Bool(a.n == b.n)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.n == 1 {
				return a
			}
			return tc.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OpZext:
			if b.n > mask(a.a.w) {
				return tc.Bool(false)
			}
			return tc.Eq(a.a, tc.Const(b.n, a.a.w))
		case OpSext:
			lo := b.n & mask(a.a.w)
			if uint64(sx(lo, a.a.w))&mask(a.w) != b.n {
				return tc.Bool(false)
			}
			return tc.Eq(a.a, tc.Const(lo, a.a.w))
		case OpIte:
			if a.b.isConst() || a.c.isConst() {
				return tc.Ite(a.a, tc.Eq(a.b, b), tc.Eq(a.c, b))
			}
		case OpAdd:
			if a.b.isConst() {
				return tc.Eq(a.a, tc.Const(b.n-a.b.n, a.w))
			}
		case OpBXor:
			if a.b.isConst() {
				return tc.Eq(a.a, tc.Const(b.n^a.b.n, a.w))
			}
		}
	} else {
		if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return tc.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tc.mk(OpEq, 0, a, b, nil, 0)
}
func (tc *TC) Ult(a, b *Term) *Term {
	if a == b {
		return tc.Bool(false)
	}
	if a.isConst() && b.isConst() {
		return tc.Bool(a.n < b.n)
	}
	if b.isConst() {
		if b.n == 0 {
			return tc.Bool(false)
		}
		if a.op == OpZext {
			if b.n > mask(a.a.w) {
				return tc.Bool(true)
			}
			return tc.Ult(a.a, tc.Const(b.n, a.a.w))
		}
		if b.n == 1 {
			return tc.Eq(a, tc.Const(0, a.w))
		}
	}
	if a.isConst() {
		if a.n == mask(a.w) {
			return tc.Bool(false)
		}
		if b.op == OpZext {
			if a.n >= mask(b.a.w) {
				return tc.Bool(false)
			}
			return tc.Ult(tc.Const(a.n, b.a.w), b.a)
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return tc.Ult(a.a, b.a)
	}
	return tc.mk(OpUlt, 0, a, b, nil, 0)
}
func (tc *TC) Ule(a, b *Term) *Term { return tc.Not(tc.Ult(b, a)) }
func (tc *TC) Slt(a, b *Term) *Term {
	if a == b {
		return tc.Bool(false)
	}
	if a.isConst() && b.isConst() {
		return tc.Bool(sx(a.n, a.w) < sx(b.n, b.w))
	}
	if a.op == OpZext && b.isConst() {
		s := sx(b.n, b.w)
		if s <= 0 {
			return tc.Bool(false)
		}
		return tc.Ult(a, b)
	}
	if b.op == OpZext && a.isConst() {
		s := sx(a.n, a.w)
		if s < 0 {
			return tc.Bool(true)
		}
		return tc.Ult(a, b)
	}
	if a.op == OpZext && b.op == OpZext {
		return tc.Ult(a, b)
	}
	return tc.mk(OpSlt, 0, a, b, nil, 0)
}
func (tc *TC) Sle(a, b *Term) *Term { return tc.Not(tc.Slt(b, a)) }
func (tc *TC) Ite(c, x, y *Term) *Term {
	if c.isConst() {
		if c.n == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if c.op == OpNot {
		return tc.Ite(c.a, y, x)
	}
	if x.w == 0 {
		if x.isConst() {
			if x.n == 1 {
				return tc.Or(c, y)
			}
			return tc.And(tc.Not(c), y)
		}
		if y.isConst() {
			if y.n == 1 {
				return tc.Or(tc.Not(c), x)
			}
			return tc.And(c, x)
		}
	}
	if y.op == OpIte && y.b == x {
		return tc.Ite(tc.Or(c, y.a), x, y.c)
	}
	return tc.mk(OpIte, x.w, c, x, y, 0)
}

func foldBV(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSdiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OpSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAshr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	}
	panic("foldBV")
}

// Bin builds a binary bit-vector operation (not a comparison).
func (tc *TC) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return tc.Const(foldBV(op, w, a.n, b.n), w)
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case OpAdd:
			if b.n == 0 {
				return a
			}
			if a.op == OpAdd && a.b.isConst() {
				return tc.Bin(OpAdd, a.a, tc.Const(a.b.n+b.n, w))
			}
		case OpSub:
			return tc.Bin(OpAdd, a, tc.Const(-b.n, w))
		case OpBOr, OpBXor, OpShl, OpLshr, OpAshr:
			if b.n == 0 {
				return a
			}
			if op == OpBOr && b.n == mask(w) {
				return b
			}
			if (op == OpShl || op == OpLshr) && b.n >= uint64(w) {
				return tc.Const(0, w)
			}
		case OpBAnd:
			if b.n == 0 {
				return b
			}
			if b.n == mask(w) {
				return a
			}
			if a.op == OpZext && b.n&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		case OpMul:
			if b.n == 0 {
				return b
			}
			if b.n == 1 {
				return a
			}
			if bits.OnesCount64(b.n) == 1 {
				return tc.Bin(OpShl, a, tc.Const(uint64(bits.TrailingZeros64(b.n)), w))
			}
		case OpUdiv:
			if b.n == 1 {
				return a
			}
			if bits.OnesCount64(b.n) == 1 {
				return tc.Bin(OpLshr, a, tc.Const(uint64(bits.TrailingZeros64(b.n)), w))
			}
		case OpUrem:
			if bits.OnesCount64(b.n) == 1 {
				return tc.Bin(OpBAnd, a, tc.Const(b.n-1, w))
			}
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return tc.Const(0, w)
		case OpBAnd, OpBOr:
			return a
		}
	}
	return tc.mk(op, w, a, b, nil, 0)
}
func (tc *TC) BNot(a *Term) *Term {
	if a.isConst() {
		return tc.Const(^a.n, a.w)
	}
	return tc.mk(OpBNot, a.w, a, nil, nil, 0)
}
func (tc *TC) Neg(a *Term) *Term {
	if a.isConst() {
		return tc.Const(-a.n, a.w)
	}
	return tc.mk(OpNeg, a.w, a, nil, nil, 0)
}

// Resize converts a to width w, sign- or zero-extending or truncating.
func (tc *TC) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return tc.Const(uint64(sx(a.n, a.w)), w)
		}
		return tc.Const(a.n, w)
	}
	if w < a.w {
		if a.op == OpZext || a.op == OpSext {
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return tc.Resize(a.a, w, false)
			}
			return tc.Resize(a.a, w, a.op == OpSext)
		}
		if a.op == OpIte && (a.b.isConst() || a.c.isConst()) {
			return tc.Ite(a.a, tc.Resize(a.b, w, false), tc.Resize(a.c, w, false))
		}
		return tc.mk(OpExtract, w, a, nil, nil, 0)
	}
	if a.op == OpZext {
		return tc.mk(OpZext, w, a.a, nil, nil, 0)
	}
	if signed {
		return tc.mk(OpSext, w, a, nil, nil, 0)
	}
	return tc.mk(OpZext, w, a, nil, nil, 0)
}

// eval evaluates t under the current model.
func (tc *TC) eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.n
	}
	if t.evGen == tc.gen {
		return t.ev
	}
	var r uint64
	switch t.op {
	case OpVar:
		r = tc.model[t.n]
	case OpNot:
		r = 1 - tc.eval(t.a)
	case OpAnd:
		r = tc.eval(t.a) & tc.eval(t.b)
	case OpOr:
		r = tc.eval(t.a) | tc.eval(t.b)
	case OpEq:
		r = b2u(tc.eval(t.a) == tc.eval(t.b))
	case OpUlt:
		r = b2u(tc.eval(t.a) < tc.eval(t.b))
	case OpUle:
		r = b2u(tc.eval(t.a) <= tc.eval(t.b))
	case OpSlt:
		r = b2u(sx(tc.eval(t.a), t.a.w) < sx(tc.eval(t.b), t.b.w))
	case OpSle:
		r = b2u(sx(tc.eval(t.a), t.a.w) <= sx(tc.eval(t.b), t.b.w))
	case OpIte:
		if tc.eval(t.a) == 1 {
			r = tc.eval(t.b)
		} else {
			r = tc.eval(t.c)
		}
	case OpBNot:
		r = ^tc.eval(t.a) & mask(t.w)
	case OpNeg:
		r = -tc.eval(t.a) & mask(t.w)
	case OpExtract:
		r = (tc.eval(t.a) >> t.n) & mask(t.w)
	case OpZext:
		r = tc.eval(t.a)
	case OpSext:
		r = uint64(sx(tc.eval(t.a), t.a.w)) & mask(t.w)
	default:
		r = foldBV(t.op, t.w, tc.eval(t.a), tc.eval(t.b))
	}
	t.ev, t.evGen = r, tc.gen
	return r
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// printer emits SMT-LIB with let-free define-fun sharing.
type printer struct {
	sb    strings.Builder
	names map[*Term]string
	vars  []*Term
	pre   string
}

func (p *printer) ref(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	var s string
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.n == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			s = fmt.Sprintf("#x%0*x", int(t.w/4), t.n)
		} else {
			s = fmt.Sprintf("#b%0*b", int(t.w), t.n)
		}
		return s
	case OpVar:
		n := fmt.Sprintf("v%d", t.n)
		p.names[t] = n
		p.vars = append(p.vars, t)
		fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", n, sortOf(t.w))
		return n
	case OpExtract:
		s = fmt.Sprintf("((_ extract %d %d) %s)", t.n+uint64(t.w)-1, t.n, p.ref(t.a))
	case OpZext:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case OpSext:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	default:
		a := p.ref(t.a)
		if t.c != nil {
			b := p.ref(t.b)
			s = fmt.Sprintf("(%s %s %s %s)", opNames[t.op], a, b, p.ref(t.c))
		} else if t.b != nil {
			s = fmt.Sprintf("(%s %s %s)", opNames[t.op], a, p.ref(t.b))
		} else {
			s = fmt.Sprintf("(%s %s)", opNames[t.op], a)
		}
	}
	n := fmt.Sprintf("t%d", len(p.names))
	fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, sortOf(t.w), s)
	p.names[t] = n
	return n
}
func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
