package props

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/transforms"
	"github.com/senghoo/modsecurity-go/utils"

	"verif/harness/rt"
)

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func refURLDecode(s string) (string, int) {
	var r []byte
	bad := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '%' {
			if i+2 < len(s) && hexv(s[i+1]) >= 0 && hexv(s[i+2]) >= 0 {
				r = append(r, byte(hexv(s[i+1])*16+hexv(s[i+2])))
				i += 2
				continue
			}
			bad++
		}
		if c == '+' {
			c = ' '
		}
		r = append(r, c)
	}
	return string(r), bad
}

// HURLDecode: arbitrary strings against the reference decoder.
func HURLDecode() {
	s := rt.StrUpTo("s", rt.Bound(4, 6))
	got := transforms.NewTransUrlDecode().Trans(nil, s)
	rt.Observe("got", got)
	want, bad := refURLDecode(s)
	rt.Assert(got == want, "urlDecode differs from the reference decoder")
	u, n := utils.UrlDecode(s)
	rt.Assert(u == want, "UrlDecode differs from the reference decoder")
	rt.Assert(n == bad, "UrlDecode miscounts malformed escapes")
}

const hexDigits = "0123456789abcdefABCDEF"

// HURLRoundTrip: whatever is percent-encoded (any hex case, any choice of bytes to
// encode) decodes to the original.
func HURLRoundTrip() {
	n := rt.Bound(3, 5)
	p := rt.Str("p", n)
	upper := rt.Bool("upper")
	var enc []byte
	for i := 0; i < n; i++ {
		c := p[i]
		raw := rt.Choose("raw", 2) == 1
		if raw {
			rt.Assume(c != '%' && c != '+')
			enc = append(enc, c)
			continue
		}
		if c == ' ' && rt.Bool("plus") {
			enc = append(enc, '+')
			continue
		}
		enc = append(enc, '%', hexOf(c>>4, upper), hexOf(c&15, upper))
	}
	for _, tr := range []modsecurity.Trans{transforms.NewTransUrlDecode(), transforms.NewTransUrlDecodeUni()} {
		rt.Assert(tr.Trans(nil, string(enc)) == p, tr.Name()+" does not invert percent-encoding")
	}
}

func hexOf(v byte, upper bool) byte {
	if v < 10 {
		return '0' + v
	}
	if upper {
		return 'A' + v - 10
	}
	return 'a' + v - 10
}

// HURLDecodeUni: text around one %u escape, against the reference.
func HURLDecodeUni() {
	pre := rt.StrUpTo("pre", rt.Bound(0, 1))
	u := rt.Alpha("u", 1, "uU")
	var h string
	switch k := rt.Choose("k", rt.Bound(6, 7)); k {
	case 5: // cut short
		h = "0041"[:rt.Choose("cut", 4)]
	case 4: // any code point
		h = rt.Str("h", 4)
		for i := 0; i < 4; i++ {
			rt.Assume(hexv(h[i]) >= 0)
		}
	case 6: // any bytes
		h = rt.Str("h", 4)
	default: // one arbitrary byte among hex digits
		h = "0041"[:k] + rt.Str("h", 1) + "0041"[k+1:]
	}
	post := rt.StrUpTo("post", rt.Bound(1, 1))
	s := pre + "%" + u + h + post
	got := transforms.NewTransUrlDecodeUni().Trans(nil, s)
	rt.Observe("got", got)
	want, ok := refURLDecodeUni(s)
	rt.Assume(ok)
	rt.Assert(got == want, "urlDecodeUni differs from the reference decoder")
}

// HURLDecodeUniShort: arbitrary short strings.
func HURLDecodeUniShort() {
	s := rt.StrUpTo("s", rt.Bound(4, 6))
	want, ok := refURLDecodeUni(s)
	rt.Assume(ok)
	got := transforms.NewTransUrlDecodeUni().Trans(nil, s)
	rt.Assert(got == want, "urlDecodeUni differs from the reference decoder")
	u, n := utils.UrlDecodeUni(s)
	rt.Observe("n", n)
	rt.Assert(u == want, "UrlDecodeUni differs from the reference decoder")
}

// refURLDecodeUni reports ok=false for the %uFFxx code points outside the
// full-width ASCII block, whose decoding is left open.
func refURLDecodeUni(s string) (string, bool) {
	var r []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '%' {
			if i+2 < len(s) && hexv(s[i+1]) >= 0 && hexv(s[i+2]) >= 0 {
				r = append(r, byte(hexv(s[i+1])*16+hexv(s[i+2])))
				i += 2
				continue
			}
			if i+5 < len(s) && (s[i+1] == 'u' || s[i+1] == 'U') &&
				hexv(s[i+2]) >= 0 && hexv(s[i+3]) >= 0 && hexv(s[i+4]) >= 0 && hexv(s[i+5]) >= 0 {
				v := hexv(s[i+2])*4096 + hexv(s[i+3])*256 + hexv(s[i+4])*16 + hexv(s[i+5])
				if v >= 0xff00 {
					if v < 0xff01 || v > 0xff5e {
						return "", false
					}
					v = v - 0xff00 + 0x20
				}
				i += 5
				switch {
				case v < 0x80:
					r = append(r, byte(v))
				case v < 0x800:
					r = append(r, byte(0xc0+v/64), byte(0x80+v%64))
				case v >= 0xd800 && v <= 0xdfff:
					r = append(r, 0xef, 0xbf, 0xbd)
				default:
					r = append(r, byte(0xe0+v/4096), byte(0x80+v/64%64), byte(0x80+v%64))
				}
				continue
			}
		}
		if c == '+' {
			c = ' '
		}
		r = append(r, c)
	}
	return string(r), true
}

// HNulls: removeNulls and replaceNulls touch NUL bytes and nothing else.
func HNulls() {
	s := rt.StrUpTo("s", rt.Bound(4, 6))
	var rem, rep []byte
	for i := 0; i < len(s); i++ {
		if s[i] != 0 {
			rem = append(rem, s[i])
			rep = append(rep, s[i])
		} else {
			rep = append(rep, ' ')
		}
	}
	a := transforms.NewTransRemoveNulls().Trans(nil, s)
	b := transforms.NewTransReplaceNulls().Trans(nil, s)
	rt.Observe("rem", a)
	rt.Observe("rep", b)
	rt.Assert(a == string(rem), "removeNulls must drop the NUL bytes and keep every other byte")
	rt.Assert(b == string(rep), "replaceNulls must turn NUL bytes into spaces and keep every other byte")
}

func isSpaceByte(c byte) bool { return c == ' ' || c >= '\t' && c <= '\r' }

// HWhitespace: removeWhitespace and compressWhitespace.
func HWhitespace() {
	s := rt.StrUpTo("s", rt.Bound(4, 5))
	var rem, com []byte
	sp := false
	for i := 0; i < len(s); i++ {
		if isSpaceByte(s[i]) {
			if !sp {
				com = append(com, ' ')
			}
			sp = true
			continue
		}
		sp = false
		rem = append(rem, s[i])
		com = append(com, s[i])
	}
	a := transforms.NewTransRemoveWhitespace().Trans(nil, s)
	b := transforms.NewTransCompressWhitespace().Trans(nil, s)
	rt.Observe("rem", a)
	rt.Observe("com", b)
	rt.Assert(a == string(rem), "removeWhitespace must drop the whitespace and keep every other byte")
	rt.Assert(b == string(com), "compressWhitespace must turn each run of whitespace into one space and keep every other byte")
}

// HLowercase: ASCII letters are lowered, characters by their Unicode lower case,
// bytes that are not valid UTF-8 are kept.
func HLowercase() {
	s := rt.StrUpTo("s", rt.Bound(2, 3))
	switch rt.Choose("with", 3) { // the replacement character is a character like any other
	case 1:
		s = "\xef\xbf\xbd" + s + "\xef\xbf\xbdA"
	case 2:
		s = "\xc0A\xef\xbf\xbd" + s
	}
	want := refLower(s)
	got := transforms.NewTransLowerCase().Trans(nil, s)
	rt.Observe("got", got)
	rt.Assert(got == string(want), "lowercase differs from the reference")
}

// HLowercaseFold: strings that differ only in ASCII case become equal, and lowering
// again changes nothing.
func HLowercaseFold() {
	n := rt.Bound(3, 5)
	s := rt.Str("s", n)
	var o []byte
	for i := 0; i < n; i++ {
		rt.Assume(s[i] < 0x80)
		c := s[i]
		if (c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z') && rt.Bool("flip") {
			c ^= 0x20
		}
		o = append(o, c)
	}
	tr := transforms.NewTransLowerCase()
	a := tr.Trans(nil, s)
	rt.Assert(a == tr.Trans(nil, string(o)), "lowercase distinguishes ASCII case")
	rt.Assert(a == tr.Trans(nil, a), "lowercase is not idempotent")
}

// HNone: the identity.
func HNone() {
	s := rt.StrUpTo("s", 6)
	rt.Assert(transforms.NewTransNone().Trans(nil, s) == s, "none must not change its input")
}

// refLower lowers the characters of a text and keeps what is none.
func refLower(s string) []byte {
	var want []byte
	for i := 0; i < len(s); {
		if s[i] < 0x80 {
			c := s[i]
			if c >= 'A' && c <= 'Z' {
				c += 32
			}
			want = append(want, c)
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			want = append(want, s[i])
			i++
			continue
		}
		var tmp [4]byte
		k := utf8.EncodeRune(tmp[:], unicode.ToLower(r))
		want = append(want, tmp[:k]...)
		i += n
	}
	return want
}

// HLowerLong: texts of many characters with something else among them.
func HLowerLong() {
	n := []int{5, 40, 600, 1500, 5000}[rt.Choose("n", 5)]
	mids := []string{"", "\xff", "\xc3", "\xc3\x89", "\xef\xbf\xbd", "\xed\xa0\x80", "\xe1\xba\x9e", "\xc4\xb0", "\xc7\x85", "\xf0\x90\x90\x80", "\xf5A", "\x80Z\xff"}
	mid := mids[rt.Choose("mid", len(mids))]
	fill := []string{"aB", "\xc3\x84z", "A"}[rt.Choose("filler", 3)]
	at := []int{0, n / 2, n}[rt.Choose("place", 3)]
	s := strings.Repeat(fill, at) + mid + rt.Alpha("c", 1, "aZ\xff\x80") + strings.Repeat(fill, n-at)
	got := transforms.NewTransLowerCase().Trans(nil, s)
	rt.Assert(got == string(refLower(s)), "lowercase of a long text differs from the reference")
}
