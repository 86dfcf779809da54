package props

import (
	"bytes"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
	"github.com/senghoo/modsecurity-go/modsecurity/transforms"
	"github.com/senghoo/modsecurity-go/modsecurity/variables"

	"verif/harness/rt"
)

// around puts s between stretches of filler.
func around(s string) string {
	pre := []int{0, 1, 7, 31, 64, 300}[rt.Choose("pre", 6)]
	post := []int{0, 1, 30, 257}[rt.Choose("post", 4)]
	f := []string{"x", "0", "\xc3\xa9", "%41", "zA 9+"}[rt.Choose("filler", 5)]
	return strings.Repeat(f, pre) + s + strings.Repeat(f, post)
}

// HTransLong: the byte-wise transformations on long texts.
func HTransLong() {
	n := rt.Bound(2, 3)
	mid := rt.Str("mid", n)
	s := around(mid)
	want := []byte{}
	var tr modsecurity.Trans
	switch rt.Choose("tr", 6) {
	case 0:
		tr = transforms.NewTransUrlDecode()
		w, bad := refURLDecode(s)
		_ = bad
		want = []byte(w)
	case 1:
		tr = transforms.NewTransRemoveNulls()
		for i := 0; i < len(s); i++ {
			if s[i] != 0 {
				want = append(want, s[i])
			}
		}
	case 2:
		tr = transforms.NewTransReplaceNulls()
		for i := 0; i < len(s); i++ {
			c := s[i]
			if c == 0 {
				c = ' '
			}
			want = append(want, c)
		}
	case 3:
		tr = transforms.NewTransRemoveWhitespace()
		for i := 0; i < len(s); i++ {
			if !isSpaceByte(s[i]) {
				want = append(want, s[i])
			}
		}
	case 4:
		tr = transforms.NewTransCompressWhitespace()
		sp := false
		for i := 0; i < len(s); i++ {
			b := isSpaceByte(s[i])
			if !b {
				want = append(want, s[i])
			} else if !sp {
				want = append(want, ' ')
			}
			sp = b
		}
	case 5:
		tr = transforms.NewTransLowerCase()
		rt.Assume(mid[0] < 0x80)
		want = refLower(s)
	}
	rt.Assert(tr.Trans(nil, s) == string(want), tr.Name()+" of a long text differs from the reference")
	rt.Assert(transforms.NewTransNone().Trans(nil, s) == s, "none must not change its input")
}

// HUniLong: urlDecodeUni on long texts.
func HUniLong() {
	h := []string{"0041", "4f60", "FF21", "d800", "07ff"}[rt.Choose("h", 5)]
	b := []byte(h)
	b[rt.Choose("at", 4)] = rt.Str("d", 1)[0]
	s := around("%u" + string(b) + rt.Alpha("t", 1, "%4\xff"))
	want, ok := refURLDecodeUni(s)
	rt.Assume(ok)
	rt.Assert(transforms.NewTransUrlDecodeUni().Trans(nil, s) == want, "urlDecodeUni of a long text differs from the reference")
}

// HCompareLong: numbers with leading zeros, signs and blanks, of any length.
func HCompareLong() {
	zeros := strings.Repeat("0", []int{0, 1, 18, 40}[rt.Choose("zeros", 4)])
	sg := []string{"", "-", "+"}[rt.Choose("sign", 3)]
	d := rt.Alpha("d", 1+rt.Choose("n", 3), "0123456789")
	pre, post := []string{"", " ", "\t\n "}[rt.Choose("pre", 3)], []string{"", "\r\n", "x", " 1", ".0", "e1", "_0"}[rt.Choose("post", 7)]
	s := pre + sg + zeros + d + post
	v := 0
	if post == "" || post == "\r\n" {
		for i := 0; i < len(d); i++ {
			v = v*10 + int(d[i]-'0')
		}
		if sg == "-" {
			v = -v
		}
	}
	arg := []struct {
		s string
		v int
	}{{"0", 0}, {"-007", -7}, {"+42", 42}, {"255", 255}, {"00000000000000000000000000100", 100}}[rt.Choose("arg", 5)]
	for _, o := range cmpOps {
		op, err := o.mk(arg.s)
		rt.Assert(err == nil, "a numeric argument must be accepted")
		rt.Assert(op.Match(nil, s) == o.want(sign(v, arg.v)), o.name+": wrong comparison")
	}
}

// HRxLong: long values; the match may stand anywhere.
func HRxLong() {
	c := rxCases[rt.Choose("re", len(rxCases))]
	pre := []int{0, 1, 40, 200}[rt.Choose("pre", 4)]
	post := []int{0, 1, 70}[rt.Choose("post", 3)]
	f := []string{"q", "\n", "\xff"}[rt.Choose("filler", 3)]
	s := strings.Repeat(f, pre) + rt.Str("mid", 2) + strings.Repeat(f, post)
	op, err := operators.NewOperatorRx(c.re)
	rt.Assert(err == nil && op != nil, "a valid expression must be accepted")
	rt.Assert(op.Match(nil, s) == c.want(s), "rx "+c.re+": wrong match in a long value")
}

// ---- variables ----

// manyPairs is a list of n pairs with some names repeated, one of which is arbitrary.
func manyPairs() []pair {
	n := []int{2, 7, 12, 24}[rt.Choose("n", 4)]
	at := []int{0, n / 2, n - 1}[rt.Choose("at", 3)]
	mod := []int{1, 3, 100}[rt.Choose("mod", 3)]
	long := strings.Repeat("v", []int{0, 3, 100}[rt.Choose("long", 3)])
	var ps []pair
	for i := 0; i < n; i++ {
		p := pair{"n" + strconv.Itoa(i%mod), long + strconv.Itoa(i/2)}
		if i == at {
			p = pair{rt.Alpha("k", 2, "n01ab"), long + rt.Alpha("v", 2, "v01ab")}
		}
		ps = append(ps, p)
	}
	return ps
}

// fillMany is fill with room for long bodies and several Cookie lines.
func fillMany(c int, ps []pair) *modsecurity.Transaction {
	t := newTxLimits(modsecurity.NewSecRuleSet(), 8192, 16384, 64)
	t.ProcessRequestURL(&url.URL{Path: "/"}, "POST", "HTTP/1.1")
	form := func(ps []pair) string {
		s := ""
		for _, p := range ps {
			if s != "" {
				s += "&"
			}
			s += p.k + "=" + p.v
		}
		return s
	}
	switch c {
	case colArgsGet:
		t.ProcessRequestURL(&url.URL{Path: "/", RawQuery: form(ps)}, "GET", "HTTP/1.1")
	case colArgsPost:
		t.ProcessRequestHeader(formHeader())
		t.AppendRequestBody([]byte(form(ps)))
	case colReqHeaders:
		t.ProcessRequestHeader(headerOf(ps))
	case colResHeaders:
		t.ProcessResponseHeaders(200, "HTTP/1.1", headerOf(ps))
	case colCookies:
		lines := []string{""}
		for i, p := range ps {
			if i > 0 && i%5 == 0 {
				lines = append(lines, "")
			} else if i > 0 {
				lines[len(lines)-1] += ";" + []string{"", " "}[i%2]
			}
			lines[len(lines)-1] += p.k + "=" + p.v
		}
		t.ProcessRequestHeader(http.Header{"Cookie": lines})
	case colArgs:
		t.ProcessRequestURL(&url.URL{Path: "/", RawQuery: form(ps[:len(ps)/2])}, "POST", "HTTP/1.1")
		t.ProcessRequestHeader(formHeader())
		t.AppendRequestBody([]byte(form(ps[len(ps)/2:])))
	}
	return t
}

func manyCollections(cols ...int) {
	c := cols[rt.Choose("col", len(cols))]
	ps := manyPairs()
	t := fillMany(c, ps)
	vals := valuesOf(ps)
	for i := 0; i < 2; i++ {
		rt.Assert(sameBag(colVar(c).Fetch(t), vals), "a collection must yield every value once")
		rt.Assert(sameSet(colNames(c).Fetch(t), keysOf(ps)), "the names of a collection must be those of its members")
	}
	rt.Assert(one(variables.NewCountVariable(colVar(c)).Fetch(t), strconv.Itoa(len(ps))), "a count must be the number of values")
	rt.Assert(!t.Abort && t.RequestBodyError == nil, "a well-formed request is no error")
}

// HArgsGetMany: query collections with many members, long values and repeated names.
func HArgsGetMany() {
	manyCollections(colArgsGet, colArgs)
}

// HArgsPostMany: body collections with many members, long values and repeated names.
func HArgsPostMany() {
	manyCollections(colArgsPost, colArgs)
}

// HCookiesMany: cookie collections with many members, long values and repeated names.
func HCookiesMany() {
	manyCollections(colCookies)
}

// HHeadersMany: header collections with many members, long values and repeated names.
func HHeadersMany() {
	manyCollections(colReqHeaders, colResHeaders)
}

// HFilterMany: several selectors of both kinds on collections of many members.
func HFilterMany() {
	c := rt.Choose("col", colCount)
	var ps []pair
	n := []int{4, 9, 20}[rt.Choose("n", 3)]
	base := []string{"a", "b", "ab", "ba", "bb", "cab", "abc", "B", "", "a1", "user", "pass", "token-id", "x", "y", "z", "/b", "a/", "a.", "/"}
	if c == colReqHeaders || c == colResHeaders || c == colCookies {
		base[8] = "q"
	}
	for i := 0; i < n; i++ {
		ps = append(ps, pair{base[i], strconv.Itoa(i) + [...]string{"", ", v", ",", "=, \"x"}[i%4]})
	}
	ps = append(ps, pair{rt.Alpha("k", 2, "abcx"), "o"}, pair{"a", "again"}, pair{"a\nb", "n"}, pair{"a-b", "p"}, pair{"a*", "q"})
	v, names, counted := colVar(c), colNames(c), variables.NewCountVariable(colVar(c))
	sets := [][]int{{}, {0}, {1, 3}, {2, 0, 4}, {4, 5, 3, 2, 1}, {6, 10}, {7}, {8, 12}, {9, 11, 13}, {14}, {17, 14}, {16}, {15, 14}}
	k := rt.Choose("inc", len(sets))
	inc, exc := sets[k], sets[[]int{0, (k + 2) % len(sets), (k + 5) % len(sets)}[rt.Choose("exc", 3)]]
	swap := rt.Choose("swap", 2) == 1
	if swap {
		for _, k := range exc {
			v.Exclude(selectors[k].s)
			names.Exclude(selectors[k].s)
			counted.Exclude(selectors[k].s)
		}
	}
	for _, k := range inc {
		v.Include(selectors[k].s)
		names.Include(selectors[k].s)
		counted.Include(selectors[k].s)
	}
	if !swap {
		for _, k := range exc {
			v.Exclude(selectors[k].s)
			names.Exclude(selectors[k].s)
			counted.Exclude(selectors[k].s)
		}
	}
	t := fillMany(c, ps)
	var want []pair
	for _, p := range ps {
		in := len(inc) == 0
		for _, k := range inc {
			in = in || selectors[k].hits(p.k)
		}
		for _, k := range exc {
			in = in && !selectors[k].hits(p.k)
		}
		if in {
			want = append(want, p)
		}
	}
	for i := 0; i < 2; i++ {
		rt.Assert(sameBag(v.Fetch(t), valuesOf(want)), "selectors must pick the values of the members they name")
		rt.Assert(sameSet(names.Fetch(t), keysOf(want)), "selectors must pick the names of the members they name")
		rt.Assert(one(counted.Fetch(t), strconv.Itoa(len(want))), "a count must be the number of selected values")
	}
}

// HMultipartMany: many fields, long values, a file among them, in memory and in a file.
func HMultipartMany() {
	n := []int{1, 5, 11}[rt.Choose("n", 3)]
	at := rt.Choose("at", n)
	size := []int{0, 60, 300}[rt.Choose("size", 3)]
	file := rt.Choose("file", 3)
	var ps []pair
	body := ""
	boundary := []string{"B", "----WebKitFormBoundary7MA4YWxkTrZu0gW"}[rt.Choose("boundary", 2)]
	for i := 0; i < n; i++ {
		if file > 0 && i == n/2 {
			name := []string{"", "up", "f0"}[file]
			body += "--" + boundary + "\r\nContent-Disposition: form-data; name=\"" + name + "\"; filename=\"x.txt\"\r\nContent-Type: text/plain\r\n\r\nf0=evil\r\n"
		}
		p := pair{"f" + strconv.Itoa(i%7), strings.Repeat("v", size) + strconv.Itoa(i)}
		if i == at {
			v := rt.Str("v", 1)
			rt.Assume(v[0] != '\r' && v[0] != '-')
			p.v += v
		}
		body += "--" + boundary + "\r\nContent-Disposition: form-data; name=\"" + p.k + "\"\r\n\r\n" + p.v + "\r\n"
		ps = append(ps, p)
	}
	body += "--" + boundary + "--\r\n"
	t := newTxLimits(modsecurity.NewSecRuleSet(), []int64{100, 100000}[rt.Choose("mem", 2)], 200000, 64)
	t.ProcessRequestURL(&url.URL{Path: "/p"}, "POST", "HTTP/1.1")
	t.ProcessRequestHeader(http.Header{"Content-Type": {"multipart/form-data; boundary=" + boundary}})
	for len(body) > 0 {
		k := 97
		if k > len(body) {
			k = len(body)
		}
		rt.Assert(t.AppendRequestBody([]byte(body[:k])) == nil, "the body must be accepted")
		body = body[k:]
	}
	for i := 0; i < 2; i++ {
		rt.Assert(sameBag(variables.NewVariableArgsPost().Fetch(t), valuesOf(ps)), "ARGS_POST must yield the fields")
		rt.Assert(sameSet(variables.NewVariableArgsPostNames().Fetch(t), keysOf(ps)), "ARGS_POST_NAMES must yield the field names")
	}
	rt.Assert(sameBag(variables.NewVariableArgs().Fetch(t), valuesOf(ps)), "ARGS must include the fields")
	rt.Assert(!t.Abort && t.RequestBodyError == nil, "a well-formed body is no error")
}

// HURILong: long paths and queries.
func HURILong() {
	seg := []string{"a", "file.name.tar.gz", "%2e%2e", "x y"}
	p := ""
	for i, n := 0, []int{0, 1, 3, 9}[rt.Choose("n", 4)]; i < n; i++ {
		p += "/" + seg[i%len(seg)]
	}
	p += rt.Str("mid", 2) + []string{"", "/", "tail", "/t", "//"}[rt.Choose("tail", 5)]
	q := strings.Repeat("k=v&", []int{0, 2, 30}[rt.Choose("qn", 3)]) + rt.Str("q", 1)
	t := newTx(modsecurity.NewSecRuleSet())
	t.ProcessRequestURL(&url.URL{Scheme: "http", Host: "h", Path: p, RawQuery: q}, "GET", "HTTP/1.1")
	rt.Assert(one(variables.NewVariableRequestFilename().Fetch(t), p), "REQUEST_FILENAME must be the decoded path")
	rt.Assert(one(variables.NewVariableQueryString().Fetch(t), q), "QUERY_STRING must be the raw query")
	rt.Assert(one(variables.NewVariableRequestBasename().Fetch(t), refBasename(p)), "REQUEST_BASENAME must be the last path component")
}

// HBodyGateLong: bodies around larger limits, arriving in pieces.
func HBodyGateLong() {
	lim := []int{16, 100, 1000}[rt.Choose("lim", 3)]
	size := lim + rt.Choose("over", 3) - 1
	body := "a=" + strings.Repeat("x", size-3) + rt.Alpha("last", 1, "yz")
	piece := []int{1 + lim/3, lim, lim + 1}[rt.Choose("piece", 3)]
	rs := modsecurity.NewSecRuleSet()
	seen := ""
	r := modsecurity.NewSecRule()
	at := allPhases[2+rt.Choose("at", len(allPhases)-2)]
	r.Phase = at
	r.AppendVariables([]func() modsecurity.Variable{variables.NewVariableArgsPost, variables.NewVariableRequestBody}[rt.Choose("var", 2)]())
	r.SetOperator(funcOp(func(_ *modsecurity.Transaction, s string) bool { seen += s; return false }))
	after := 0
	rs.AddRules(r, ruleIf(at, true, &funcAct{modsecurity.ActionGroupNonDisruptive, func(*modsecurity.Transaction) { after++ }}))
	t := newTxLimits(rs, int64(lim), 5000, 64)
	t.ProcessRequestURL(&url.URL{Path: "/p"}, "PUT", "HTTP/1.1")
	t.ProcessRequestHeader(formHeader())
	for b := body; len(b) > 0; {
		k := piece
		if k > len(b) {
			k = len(b)
		}
		rt.Assert(t.AppendRequestBody([]byte(b[:k])) == nil, "the body must be accepted")
		b = b[k:]
	}
	for _, p := range allPhases[2:] {
		if p <= at {
			callPhase(t, p)
		}
	}
	i := t.Result()
	if size > lim {
		rt.Assert(i.Disruptive && i.Status == 413 && t.Abort, "a body beyond the memory limit must abort with 413")
		rt.Assert(seen == "" && after == 0, "a body beyond the memory limit must not be examined in part")
		return
	}
	rt.Assert(!i.Disruptive && after == 1 && (seen == body || seen == body[2:]), "a body within the memory limit must be inspected in full")
}

// ---- buffers ----

// HBufMany: many writes of mixed sizes around both limits, read back in pieces.
func HBufMany() {
	mem := []int{0, 1, 64, 100, 513, 1500}[rt.Choose("mem", 6)]
	file := []int{100, 600, 2000, 5000}[rt.Choose("file", 4)]
	sizes := [][]int{{1, 63, 1, 35, 1, 412, 1, 100}, {64, 36, 500}, {99, 2, 0, 498, 1, 1}, {33, 33, 33, 33, 33, 33, 33, 33, 33, 33, 33, 33, 33, 33, 33, 33, 33, 33, 33, 33}, {700}, {4096, 904}}[rt.Choose("sizes", 6)]
	b := newTxLimits(modsecurity.NewSecRuleSet(), int64(mem), int64(file), 8).Request.Body
	var want []byte
	at := rt.Choose("at", len(sizes))
	for i, n := range sizes {
		p := bytes.Repeat([]byte{byte('a' + i)}, n)
		if i == at && n > 0 {
			p[n-1] = rt.Str("c", 1)[0]
		}
		k, err := b.Write(p)
		if len(want)+n > file {
			rt.Assert(k == 0 && err == modsecurity.ErrOutOfFileLimit, "a write beyond the body limit must be refused")
			continue
		}
		rt.Assert(k == n && err == nil, "a write within the body limit must be accepted")
		want = append(want, p...)
		for j := range p { // the caller's to reuse
			p[j] = '!'
		}
	}
	rt.Assert(b.Len() == int64(len(want)), "Len must be the number of bytes accepted")
	step := []int{7, 64, 512, 4096}[rt.Choose("step", 4)]
	var got []byte
	tmp := make([]byte, step)
	for i := 0; ; i++ {
		n, err := b.Read(tmp)
		got = append(got, tmp[:n]...)
		if err == io.EOF {
			break
		}
		rt.Assert(err == nil && i <= len(want)+1, "reading must reach the end")
	}
	rt.Assert(string(got) == string(want), "reading must return what was written")
	_, err := b.Seek(0, io.SeekStart)
	var w bytes.Buffer
	n, err2 := b.WriteTo(&w)
	rt.Assert(err == nil && err2 == nil && n == int64(len(want)) && w.String() == string(want), "after seeking to the start, all must be read again")
	_, err = b.Write([]byte("x"))
	rt.Assert(err == modsecurity.ErrBufferReaded, "a body being read takes no more")
	rt.Assert(b.Close() == nil && rt.FileCount() == 0, "closing must remove the temporary file")
}
