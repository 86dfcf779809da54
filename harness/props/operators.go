package props

import (
	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"

	"verif/harness/rt"
)

type cmpOp struct {
	name string
	mk   func(string) (modsecurity.Operator, error)
	want func(c int) bool // c: sign of value - argument
}

var cmpOps = []cmpOp{
	{"eq", operators.NewOperatorEq, func(c int) bool { return c == 0 }},
	{"ge", operators.NewOperatorGe, func(c int) bool { return c >= 0 }},
	{"gt", operators.NewOperatorGt, func(c int) bool { return c > 0 }},
	{"le", operators.NewOperatorLe, func(c int) bool { return c <= 0 }},
	{"lt", operators.NewOperatorLt, func(c int) bool { return c < 0 }},
}

// refSmallInt parses [+-]digits after trimming ASCII blanks; anything else is 0.
func refSmallInt(s string) int {
	i, j := 0, len(s)
	for i < j && isSpaceByte(s[i]) {
		i++
	}
	for j > i && isSpaceByte(s[j-1]) {
		j--
	}
	s = s[i:j]
	neg := false
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return 0
	}
	v := 0
	for k := 0; k < len(s); k++ {
		if s[k] < '0' || s[k] > '9' {
			return 0
		}
		v = v*10 + int(s[k]-'0')
	}
	if neg {
		v = -v
	}
	return v
}

func sign(a, b int) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

var cmpArgs = []struct {
	s string
	v int
}{{"0", 0}, {"7", 7}, {"-5", -5}, {"42", 42}, {" 10 ", 10}, {"-100", -100}, {"100", 100}}

// HCompare: the five operators on arbitrary short text against the reference.
func HCompare() {
	arg := cmpArgs[rt.Choose("arg", len(cmpArgs))]
	s := rt.StrUpTo("s", rt.Bound(3, 4))
	for i := 0; i < len(s); i++ {
		rt.Assume(noBlankLead(s[i]))
	}
	v := refSmallInt(s)
	for _, o := range cmpOps {
		op, err := o.mk(arg.s)
		rt.Assert(err == nil, "a numeric argument must be accepted")
		rt.Assert(op.Match(nil, s) == o.want(sign(v, arg.v)), o.name+": wrong comparison")
	}
}

// HCompareLimits: arbitrary int64 operands around the limits of the type, written
// in decimal.
func HCompareLimits() {
	neg := rt.Choose("neg", 2) == 1
	digits := "92233720368547758" + rt.Alpha("d", 2, "0123456789")
	extra := rt.Choose("extra", 3)
	if extra > 0 {
		digits += rt.Alpha("e", extra, "0123456789")
	}
	s := digits
	if neg {
		s = "-" + s
	}
	// compare |value| with 9223372036854775807/8 by digit strings
	args := []struct {
		s   string
		neg bool
		mag string
	}{
		{"9223372036854775807", false, "9223372036854775807"},
		{"-9223372036854775808", true, "9223372036854775808"},
		{"0", false, "0"},
		{"9223372036854775800", false, "9223372036854775800"},
		{"-9223372036854775806", true, "9223372036854775806"},
	}
	arg := args[rt.Choose("arg", len(args))]
	// an operand beyond the 64-bit range counts as the nearest representable one
	mag := digits
	lim := "9223372036854775807"
	if neg {
		lim = "9223372036854775808"
	}
	if cmpDigits(mag, lim) > 0 {
		mag = lim
	}
	var c int
	switch {
	case neg && !arg.neg:
		c = -1
	case !neg && arg.neg:
		c = 1
	case neg:
		c = cmpDigits(arg.mag, mag)
	default:
		c = cmpDigits(mag, arg.mag)
	}
	for _, o := range cmpOps {
		op, err := o.mk(arg.s)
		rt.Assert(err == nil, "a numeric argument must be accepted")
		rt.Assert(op.Match(nil, s) == o.want(c), o.name+": wrong comparison near the limits of the number range")
	}
}

func cmpDigits(a, b string) int {
	if len(a) != len(b) {
		return sign(len(a), len(b))
	}
	for i := 0; i < len(a); i++ {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	return 0
}

// HCompareArg: the argument is a decimal integer or the operator is refused.
func HCompareArg() {
	s := rt.StrUpTo("s", 3)
	for i := 0; i < len(s); i++ {
		rt.Assume(noBlankLead(s[i]))
	}
	num := false
	i, j := 0, len(s)
	for i < j && isSpaceByte(s[i]) {
		i++
	}
	for j > i && isSpaceByte(s[j-1]) {
		j--
	}
	d := s[i:j]
	if len(d) > 0 && (d[0] == '+' || d[0] == '-') {
		d = d[1:]
	}
	num = len(d) > 0
	for k := 0; k < len(d); k++ {
		if d[k] < '0' || d[k] > '9' {
			num = false
		}
	}
	for _, o := range cmpOps {
		op, err := o.mk(s)
		rt.Assert((err == nil) == num, o.name+": argument accepted or refused wrongly")
		if err == nil {
			w := refSmallInt(s)
			rt.Assert(op.Match(nil, "5") == o.want(sign(5, w)), o.name+": argument misread")
		}
	}
}

type rxCase struct {
	re   string
	want func(s string) bool
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

func lowerASCII(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

var rxCases = []rxCase{
	{"cmd", func(s string) bool { return contains(s, "cmd") }},
	{"b\n", func(s string) bool { return contains(s, "b\n") }},
	{" a", func(s string) bool { return contains(s, " a") }},
	{"^ab", func(s string) bool { return len(s) >= 2 && s[:2] == "ab" }},
	{"b$", func(s string) bool { return len(s) >= 1 && s[len(s)-1] == 'b' }},
	{"^a+$", func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] != 'a' {
				return false
			}
		}
		return len(s) > 0
	}},
	{"(?i)ed", func(s string) bool { return contains(lowerASCII(s), "ed") }},
	{"[0-9]{2}", func(s string) bool {
		for i := 0; i+2 <= len(s); i++ {
			if s[i] >= '0' && s[i] <= '9' && s[i+1] >= '0' && s[i+1] <= '9' {
				return true
			}
		}
		return false
	}},
	{"x|yz", func(s string) bool { return contains(s, "x") || contains(s, "yz") }},
	{"", func(s string) bool { return true }},
	{"^$", func(s string) bool { return s == "" }},
	{"a*", func(s string) bool { return true }},
	{"^(ab)?$", func(s string) bool { return s == "" || s == "ab" }},
	{"^..$", func(s string) bool {
		n := 0
		for _, r := range s {
			if r == '\n' {
				return false
			}
			n++
		}
		return n == 2
	}},
}

// HRx: a search with the given expression anywhere in the value.
func HRx() {
	c := rxCases[rt.Choose("re", len(rxCases))]
	op, err := operators.NewOperatorRx(c.re)
	rt.Assert(err == nil && op != nil, "a valid expression must be accepted")
	s := rt.StrUpTo("s", rt.Bound(3, 4))
	rt.Assert(op.Match(nil, s) == c.want(s), "rx "+c.re+": wrong match")
}

// HRxBad: an invalid expression is refused.
func HRxBad() {
	bad := []string{"(", "[a", "a**", "\\", "*", "(?P<n", "a{2,1}"}
	op, err := operators.NewOperatorRx(bad[rt.Choose("re", len(bad))])
	rt.Assert(err != nil && op == nil, "an invalid expression must be refused")
}
