package props

import (
	"net/http"
	"net/url"

	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/variables"

	"verif/harness/rt"
)

type pair struct{ k, v string }

// sameBag: a and b hold the same strings, each as often.
func sameBag(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
next:
	for _, x := range a {
		for j, y := range b {
			if !used[j] && x == y {
				used[j] = true
				continue next
			}
		}
		return false
	}
	return true
}

func sameSet(a, b []string) bool {
	for _, x := range a {
		if !member(x, b) {
			return false
		}
	}
	for _, y := range b {
		if !member(y, a) {
			return false
		}
	}
	return true
}

func member(x string, l []string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func keysOf(ps []pair) []string {
	var r []string
	for _, p := range ps {
		if !member(p.k, r) {
			r = append(r, p.k)
		}
	}
	return r
}

func valuesOf(ps []pair) []string {
	var r []string
	for _, p := range ps {
		r = append(r, p.v)
	}
	return r
}

const unreserved = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~"

// encByte writes c raw when the caller asks for it and it may be, else percent-encoded.
func encByte(out []byte, c byte, raw bool) []byte {
	if raw {
		rt.Assume(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '*' || c == '/' || c >= 0x80)
		return append(out, c)
	}
	return append(out, '%', hexOf(c>>4, true), hexOf(c&15, true))
}

// encodeForm writes pairs as application/x-www-form-urlencoded.
func encodeForm(ps []pair, raw bool) string {
	var out []byte
	for i, p := range ps {
		if i > 0 {
			out = append(out, '&')
		}
		for j := 0; j < len(p.k); j++ {
			out = encByte(out, p.k[j], raw)
		}
		out = append(out, '=')
		for j := 0; j < len(p.v); j++ {
			out = encByte(out, p.v[j], raw)
		}
	}
	return string(out)
}

// the selectable collections
const (
	colArgsGet = iota
	colArgsPost
	colReqHeaders
	colResHeaders
	colCookies
	colArgs
	colCount
)

func colVar(c int) modsecurity.Variable {
	switch c {
	case colArgsGet:
		return variables.NewVariableArgsGet()
	case colArgsPost:
		return variables.NewVariableArgsPost()
	case colReqHeaders:
		return variables.NewVariableRequestHeaders()
	case colResHeaders:
		return variables.NewVariableResponseHeaders()
	case colCookies:
		return variables.NewVariableRequestCookies()
	}
	return variables.NewVariableArgs()
}

func colNames(c int) modsecurity.Variable {
	switch c {
	case colArgsGet:
		return variables.NewVariableArgsGetNames()
	case colArgsPost:
		return variables.NewVariableArgsPostNames()
	case colReqHeaders:
		return variables.NewVariableRequestHeadersNames()
	case colResHeaders:
		return variables.NewVariableResponseHeadersNames()
	case colCookies:
		return variables.NewVariableRequestCookiesNames()
	}
	return variables.NewVariableArgsNames()
}

func headerOf(ps []pair) http.Header {
	h := http.Header{}
	for _, p := range ps {
		h[p.k] = append(h[p.k], p.v)
	}
	return h
}

func formHeader() http.Header {
	return http.Header{"Content-Type": {"application/x-www-form-urlencoded"}}
}

// fill makes a transaction whose collection c holds the pairs (lower-case names and
// values only).
func fill(c int, ps []pair) *modsecurity.Transaction {
	t := newTx(modsecurity.NewSecRuleSet())
	t.ProcessRequestURL(&url.URL{Path: "/"}, "POST", "HTTP/1.1")
	switch c {
	case colArgsGet:
		t.ProcessRequestURL(&url.URL{Path: "/", RawQuery: encodeForm(ps, true)}, "GET", "HTTP/1.1")
	case colArgsPost:
		t.ProcessRequestHeader(formHeader())
		t.AppendRequestBody([]byte(encodeForm(ps, true)))
	case colReqHeaders:
		t.ProcessRequestHeader(headerOf(ps))
	case colResHeaders:
		t.ProcessResponseHeaders(200, "HTTP/1.1", headerOf(ps))
	case colCookies:
		line := ""
		for i, p := range ps {
			if i > 0 {
				line += "; "
			}
			line += p.k + "=" + p.v
		}
		t.ProcessRequestHeader(http.Header{"Cookie": {line}})
	case colArgs:
		t.ProcessRequestURL(&url.URL{Path: "/", RawQuery: encodeForm(ps[:1], true)}, "POST", "HTTP/1.1")
		t.ProcessRequestHeader(formHeader())
		t.AppendRequestBody([]byte(encodeForm(ps[1:], true)))
	}
	return t
}

var selectors = []struct {
	s    string
	hits func(k string) bool
}{
	{"a", func(k string) bool { return k == "a" }},
	{"b", func(k string) bool { return k == "b" }},
	{"/a/", func(k string) bool { return contains(k, "a") }},
	{"/^b/", func(k string) bool { return len(k) > 0 && k[0] == 'b' }},
	{"ab", func(k string) bool { return k == "ab" }},
	{"/b$/", func(k string) bool { return len(k) > 0 && k[len(k)-1] == 'b' }},
	{"/^$/", func(k string) bool { return k == "" }},
	{"/z*/", func(string) bool { return true }},
	{"//b/", func(k string) bool { return contains(k, "/b") }},
	{"/a\\//", func(k string) bool { return contains(k, "a/") }},
	{"a.", func(k string) bool { return k == "a." }},
	{"/", func(k string) bool { return k == "/" }},
	{"a/", func(k string) bool { return k == "a/" }},
	{"/b", func(k string) bool { return k == "/b" }},
	{"", func(k string) bool { return k == "" }},
	{"B", func(k string) bool { return k == "B" }},
	{"a*", func(k string) bool { return k == "a*" }},
	{"/^a.b$/", func(k string) bool { return len(k) == 3 && k[0] == 'a' && k[1] != '\n' && k[2] == 'b' }},
}

// HFilter: which members of a collection its selectors pick.
func HFilter() {
	c := rt.Choose("col", colCount)
	var ps []pair
	for i := 0; i < 2; i++ {
		ps = append(ps, pair{rt.Alpha("k", 1+rt.Choose("klen", 2), "abc"), string(rune('1' + i))})
	}
	t := fill(c, ps)
	names := rt.Choose("names", 2) == 1
	v := colVar(c)
	if names {
		v = colNames(c)
	}
	var inc, exc []int
	for i, n := 0, rt.Choose("nsel", rt.Bound(3, 4)); i < n; i++ {
		k := rt.Choose("sel", rt.Bound(4, 6))
		if rt.Choose("exclude", 2) == 0 {
			rt.Assert(v.Include(selectors[k].s) == nil, "a selector must be accepted")
			inc = append(inc, k)
		} else {
			rt.Assert(v.Exclude(selectors[k].s) == nil, "a selector must be accepted")
			exc = append(exc, k)
		}
	}
	var want []pair
	for _, p := range ps {
		ok := len(inc) == 0
		for _, i := range inc {
			ok = ok || selectors[i].hits(p.k)
		}
		for _, i := range exc {
			ok = ok && !selectors[i].hits(p.k)
		}
		if ok {
			want = append(want, p)
		}
	}
	got := v.Fetch(t)
	if names && c == colArgs {
		rt.Assert(sameSet(got, keysOf(want)), v.Name()+": wrong members selected")
	} else if names {
		rt.Assert(sameBag(got, keysOf(want)), v.Name()+": wrong members selected")
	} else {
		rt.Assert(sameBag(got, valuesOf(want)), v.Name()+": wrong members selected")
	}
}

// anyPairs: up to n pairs of arbitrary bytes.
func anyPairs(n, klen, vlen int) []pair {
	var ps []pair
	for i, m := 0, rt.Choose("pairs", n+1); i < m; i++ {
		ps = append(ps, pair{rt.Str("k", rt.Choose("klen", klen+1)), rt.Str("v", rt.Choose("vlen", vlen+1))})
	}
	return ps
}

// HArgsGet: the query arguments, whatever bytes they hold, however they are encoded.
func HArgsGet() {
	ps := anyPairs(rt.Bound(2, 3), 1, rt.Bound(1, 2))
	q := encodeForm(ps, rt.Choose("raw", 2) == 1)
	t := newTx(modsecurity.NewSecRuleSet())
	t.ProcessRequestURL(&url.URL{Path: "/p", RawQuery: q}, "GET", "HTTP/1.1")
	got := variables.NewVariableArgsGet().Fetch(t)
	rt.Observe("n", len(got))
	rt.Assert(sameBag(got, valuesOf(ps)), "ARGS_GET must yield the decoded query arguments")
	rt.Assert(sameBag(variables.NewVariableArgsGetNames().Fetch(t), keysOf(ps)), "ARGS_GET_NAMES must yield the decoded names")
	rt.Assert(sameBag(variables.NewVariableArgs().Fetch(t), valuesOf(ps)), "ARGS must include the query arguments")
	rt.Assert(sameSet(variables.NewVariableArgsNames().Fetch(t), keysOf(ps)), "ARGS_NAMES must include the query argument names")
	rt.Assert(len(variables.NewVariableArgsPost().Fetch(t)) == 0, "ARGS_POST must not include the query arguments")
	qs := variables.NewVariableQueryString().Fetch(t)
	rt.Assert(len(qs) == 1 && qs[0] == q, "QUERY_STRING must be the raw query")
}

var bodyMethods = []string{"POST", "PUT", "PATCH"}
var otherMethods = []string{"GET", "HEAD", "DELETE", "", "post"}
var formTypes = []string{"application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-URLEncoded",
	" application/x-www-form-urlencoded ; a=1; a=2", "application/x-www-form-urlencoded;charset", "application/x-www-form-urlencoded; =;\xff"}

// appendPieces appends the body in up to three pieces.
func appendPieces(t *modsecurity.Transaction, body string) error {
	i := rt.Choose("cut", len(body)+1)
	for _, p := range []string{body[:i], body[i:]} {
		if err := t.AppendRequestBody([]byte(p)); err != nil {
			return err
		}
	}
	return nil
}

// HArgsPost: the arguments of an urlencoded body that fits in memory.
func HArgsPost() {
	ps := anyPairs(rt.Bound(2, 3), 1, 1)
	body := encodeForm(ps, rt.Choose("raw", 2) == 1)
	m := rt.Choose("method", 2)
	t := newTxLimits(modsecurity.NewSecRuleSet(), int64(len(body)), 64, 64)
	t.ProcessRequestURL(&url.URL{Path: "/p", RawQuery: "q=1"}, bodyMethods[m], "HTTP/1.1")
	t.ProcessRequestHeader(http.Header{"Content-Type": {formTypes[rt.Choose("ct", len(formTypes))]}})
	rt.Assert(appendPieces(t, body) == nil, "a body within the limits must be accepted")
	for i := 0; i < 2; i++ {
		got := variables.NewVariableArgsPost().Fetch(t)
		rt.Assert(sameBag(got, valuesOf(ps)), "ARGS_POST must yield the decoded arguments")
		rt.Assert(sameBag(variables.NewVariableArgsPostNames().Fetch(t), keysOf(ps)), "ARGS_POST_NAMES must yield the decoded names")
		rb := variables.NewVariableRequestBody().Fetch(t)
		if len(body) > 0 {
			rt.Assert(len(rb) == 1 && rb[0] == body, "REQUEST_BODY must be the raw body")
		} else {
			rt.Assert(len(rb) == 0, "REQUEST_BODY must be empty for an empty body")
		}
	}
	rt.Assert(sameBag(variables.NewVariableArgs().Fetch(t), append([]string{"1"}, valuesOf(ps)...)), "ARGS must include query and body arguments")
	rt.Assert(!t.Abort && t.RequestBodyError == nil, "a well-formed body is no error")
}

func hexVal(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

// refForm: the pairs of a query string or an urlencoded body, and whether any of
// its escapes is malformed.
func refForm(q string) (ps []pair, bad bool) {
	var k, v []byte
	inValue, any := false, false
	flush := func() {
		if any {
			ps = append(ps, pair{string(k), string(v)})
		}
		k, v, inValue, any = nil, nil, false, false
	}
	for i := 0; i < len(q); i++ {
		c := q[i]
		if c == '&' {
			flush()
			continue
		}
		any = true
		if c == '=' && !inValue {
			inValue = true
			continue
		}
		if c == '+' {
			c = ' '
		} else if c == '%' {
			ok := false
			if i+2 < len(q) {
				h, ok1 := hexVal(q[i+1])
				l, ok2 := hexVal(q[i+2])
				if ok1 && ok2 {
					ok = true
					c = h<<4 | l
					i += 2
				}
			}
			bad = bad || !ok
		}
		if inValue {
			v = append(v, c)
		} else {
			k = append(k, c)
		}
	}
	flush()
	return ps, bad
}

// HQueryRaw: any text at all as the query string.
func HQueryRaw() {
	q := rt.Str("q", rt.Choose("len", rt.Bound(7, 8)))
	ps, _ := refForm(q)
	t := newTx(modsecurity.NewSecRuleSet())
	t.ProcessRequestURL(&url.URL{Path: "/p", RawQuery: q}, "GET", "HTTP/1.1")
	rt.Assert(sameBag(variables.NewVariableArgsGet().Fetch(t), valuesOf(ps)), "ARGS_GET must yield every query argument")
	rt.Assert(sameBag(variables.NewVariableArgsGetNames().Fetch(t), keysOf(ps)), "ARGS_GET_NAMES must yield every query argument name")
	rt.Assert(sameBag(variables.NewVariableArgs().Fetch(t), valuesOf(ps)), "ARGS must include every query argument")
}

// HBodyRaw: any text at all as an urlencoded body.
func HBodyRaw() {
	body := rt.Str("body", rt.Choose("len", rt.Bound(5, 6))+1)
	ps, bad := refForm(body)
	t := newTx(modsecurity.NewSecRuleSet())
	t.ProcessRequestURL(&url.URL{Path: "/p"}, "POST", "HTTP/1.1")
	t.ProcessRequestHeader(formHeader())
	rt.Assert(appendPieces(t, body) == nil, "a body within the limits must be accepted")
	for i := 0; i < 2; i++ {
		rt.Assert(sameBag(variables.NewVariableArgsPostNames().Fetch(t), keysOf(ps)), "ARGS_POST_NAMES must yield every body argument name")
		rt.Assert(sameBag(variables.NewVariableArgsPost().Fetch(t), valuesOf(ps)), "ARGS_POST must yield every body argument")
	}
	rb := variables.NewVariableRequestBody().Fetch(t)
	rt.Assert(len(rb) == 1 && rb[0] == body, "REQUEST_BODY must be the raw body")
	rt.Assert((t.RequestBodyError != nil) == bad, "malformed escapes of a body, and nothing else, are a request body error")
	rt.Assert(!t.Abort, "inspecting a body must not end the transaction")
}

// HArgsPostBad: malformed pieces among well-formed arguments of a query or an
// urlencoded body hide nothing, and every fetch answers the same.
func HArgsPostBad() {
	bad := []struct{ s, k, v string }{{"x=%", "x", "%"}, {"x=%4", "x", "%4"}, {"x=%zz", "x", "%zz"}, {"%q=1", "%q", "1"}, {"a;b=2", "a;b", "2"}, {"%", "%", ""}, {";", ";", ""}, {"a=1;b=%3c", "a", "1;b=<"}, {"=x", "", "x"}}
	good := anyPairs(2, 1, 1)
	at := rt.Choose("at", len(good)+1)
	b := bad[rt.Choose("bad", len(bad))]
	text := encodeForm(good[:at], false)
	if at > 0 {
		text += "&"
	}
	text += b.s
	if at < len(good) {
		text += "&"
	}
	text += encodeForm(good[at:], false)
	all := append([]pair{{b.k, b.v}}, good...)
	t := newTx(modsecurity.NewSecRuleSet())
	query := rt.Choose("query", 2) == 1
	names, values := variables.NewVariableArgsPostNames(), variables.NewVariableArgsPost()
	if query {
		names, values = variables.NewVariableArgsGetNames(), variables.NewVariableArgsGet()
		t.ProcessRequestURL(&url.URL{Path: "/p", RawQuery: text}, "GET", "HTTP/1.1")
	} else {
		t.ProcessRequestURL(&url.URL{Path: "/p"}, "POST", "HTTP/1.1")
		t.ProcessRequestHeader(formHeader())
		t.AppendRequestBody([]byte(text))
	}
	for i := 0; i < 3; i++ {
		if rt.Choose("names", 2) == 1 {
			rt.Assert(sameBag(names.Fetch(t), keysOf(all)), "a malformed argument must not hide names")
		} else {
			rt.Assert(sameBag(values.Fetch(t), valuesOf(all)), "a malformed argument must not hide values")
		}
	}
	_, broken := refForm(b.s)
	rt.Assert(query || (t.RequestBodyError != nil) == broken, "a malformed body, and nothing else, is recorded as an error")
}

// HBodyGate: without body access, for other methods or other content types, the body
// yields nothing; beyond the memory limit the transaction is aborted with 413.
func HBodyGate() {
	e := modsecurity.NewEngine()
	e.TmpPath = rt.TempDir()
	e.RequestBodyInMem = int64(rt.Choose("mem", 4))
	e.RequestBodyAccess = rt.Choose("access", 2) == 1
	rs := modsecurity.NewSecRuleSet()
	ran := 0
	which := rt.Choose("var", 5)
	v := []func() modsecurity.Variable{variables.NewVariableArgsPost, variables.NewVariableArgsPostNames, variables.NewVariableRequestBody, variables.NewVariableArgs, variables.NewVariableArgsNames}[which]()
	r := modsecurity.NewSecRule()
	r.Phase = modsecurity.PhaseRequestBody
	r.AppendVariables(v)
	r.SetOperator(funcOp(func(*modsecurity.Transaction, string) bool { ran++; return true }))
	rs.AddRules(r, ruleIf(modsecurity.PhaseRequestBody, true, &funcAct{modsecurity.ActionGroupNonDisruptive, func(*modsecurity.Transaction) { ran += 10 }}))
	t, err := modsecurity.NewTransaction(e, rs)
	rt.Assert(err == nil, "a transaction must be created")
	methods := append(append([]string(nil), bodyMethods...), otherMethods...)
	mi := rt.Choose("method", len(methods))
	t.ProcessRequestURL(&url.URL{Path: "/p"}, methods[mi], "HTTP/1.1")
	cts := []string{"", "text/plain", "application/x-www-form-urlencodedx", "application/x-www-form-urlencoded"}
	ci := rt.Choose("ct", len(cts))
	h := http.Header{}
	if cts[ci] != "" {
		h.Set("Content-Type", cts[ci])
	}
	t.ProcessRequestHeader(h)
	n := rt.Choose("n", 4)
	body := "a=1"[:n]
	t.AppendRequestBody([]byte(body))
	t.ProcessRequestBody()
	i := t.Result()
	open := e.RequestBodyAccess && mi < len(bodyMethods) && ci == 3 && n > 0
	switch {
	case !open:
		if ci == 2 {
			return // the type of the body is left open
		}
		rt.Assert(ran == 10 && !i.Disruptive, "a body that is not inspected must yield nothing")
	case n > int(e.RequestBodyInMem):
		rt.Assert(i.Disruptive && i.Status == 413 && t.Abort, "a body beyond the memory limit must abort with 413")
		rt.Assert(ran == 0, "no rule may match once a body beyond the memory limit was inspected")
	default:
		rt.Assert(ran == 11 && !i.Disruptive, "a body that is inspected must yield its contents")
	}
}

// partText: bytes that may stand in a quoted part name.
func partText(name string, n int) string {
	s := rt.Str(name, n)
	for i := 0; i < n; i++ {
		rt.Assume(s[i] >= ' ' && s[i] != 0x7f && s[i] != '"' && s[i] != '\\')
	}
	return s
}

// multipartBody writes the pairs as form-data parts.
func multipartBody(ps []pair, boundary, nl string) string {
	b := ""
	for _, p := range ps {
		b += "--" + boundary + nl + "Content-Disposition: form-data; name=\"" + p.k + "\"" + nl + nl + p.v + nl
	}
	return b + "--" + boundary + "--" + nl
}

func multipartTx(body, boundary string, mem int64) *modsecurity.Transaction {
	t := newTxLimits(modsecurity.NewSecRuleSet(), mem, 1000, 64)
	t.ProcessRequestURL(&url.URL{Path: "/p"}, "POST", "HTTP/1.1")
	t.ProcessRequestHeader(http.Header{"Content-Type": {"multipart/form-data; boundary=" + boundary}})
	rt.Assert(t.AppendRequestBody([]byte(body)) == nil, "the body must be accepted")
	return t
}

// HMultipart: the fields of a form-data body, kept in memory or in a file.
func HMultipart() {
	var ps []pair
	for i, n := 0, 1+rt.Choose("parts", 2); i < n; i++ {
		v := rt.Str("v", rt.Choose("vlen", rt.Bound(3, 4)))
		rt.Assume(len(v) < 3 || v[0] != '-')
		k := partText("k", 1)
		if i == 0 {
			k += []string{"", "41", "\xc3\xa9"}[rt.Choose("more", 3)]
		}
		ps = append(ps, pair{k, v})
	}
	boundary := []string{"B", "B-", "--", "-B--", "a'b()+_,./:=?c"}[rt.Choose("boundary", 5)]
	body := multipartBody(ps, boundary, "\r\n")
	mem := []int64{20, 400}[rt.Choose("mem", 2)]
	if rt.Choose("quoted", 2) == 1 || len(boundary) > 4 {
		boundary = "\"" + boundary + "\""
	}
	t := multipartTx(body, boundary, mem)
	if rt.Choose("first", 2) == 1 {
		t.Request.Body.Read(make([]byte, 7))
	}
	for i := 0; i < 2; i++ {
		rt.Assert(sameBag(variables.NewVariableArgsPost().Fetch(t), valuesOf(ps)), "ARGS_POST must yield the fields")
		rt.Assert(sameBag(variables.NewVariableArgsPostNames().Fetch(t), keysOf(ps)), "ARGS_POST_NAMES must yield the field names")
	}
	rt.Assert(!t.Abort && t.RequestBodyError == nil, "a well-formed body is no error")
	rt.Assert(len(variables.NewVariableRequestBody().Fetch(t)) == 0, "REQUEST_BODY must not yield a multipart body")
}

// HMultipartBad: a damaged form-data body yields no fields, is recorded as an error,
// and every fetch answers the same.
func HMultipartBad() {
	full := multipartBody([]pair{{"a", "1"}}, "B", "\r\n")
	body, boundary := full, "B"
	how := rt.Choose("how", 4)
	switch how {
	case 0: // cut short
		body = full[:1+rt.Choose("cut", len(full)-6)]
	case 1: // one byte of it replaced
		i := rt.Choose("at", len(full))
		body = full[:i] + rt.Str("c", 1) + full[i+1:]
	case 2:
		body = rt.Str("s", 1+rt.Choose("n", rt.Bound(2, 3)))
	case 3: // no one boundary
		boundary = []string{"B; boundary=C", "B; boundary", "", ";", "B B"}[rt.Choose("param", 5)]
	}
	t := multipartTx(body, boundary, 400)
	var first []string
	order := rt.Choose("order", 2)
	for i := 0; i < 2; i++ {
		var a, b []string
		if order == i {
			a, b = variables.NewVariableArgsPostNames().Fetch(t), variables.NewVariableArgsPost().Fetch(t)
		} else {
			b, a = variables.NewVariableArgsPost().Fetch(t), variables.NewVariableArgsPostNames().Fetch(t)
		}
		if i == 0 {
			first = b
		}
		rt.Assert(sameBag(b, first), "every fetch must answer the same")
		rt.Assert(how != 3 || t.RequestBodyError != nil, "a body without a boundary must be an error")
		if t.RequestBodyError != nil {
			rt.Assert(len(a) == 0 && len(b) == 0, "a damaged body must yield no fields")
		}
	}
	variables.NewVariableArgs().Fetch(t)
	variables.NewVariableArgsNames().Fetch(t)
}
