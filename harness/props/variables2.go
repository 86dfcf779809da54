package props

import (
	"net/http"
	"net/url"

	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/variables"

	"verif/harness/rt"
)

func one(l []string, want string) bool { return len(l) == 1 && l[0] == want }

// refCookies splits Cookie header lines into pairs.
func refCookies(lines []string) []pair {
	var r []pair
	for _, l := range lines {
		for len(l) >= 0 {
			i := 0
			for i < len(l) && l[i] != ';' {
				i++
			}
			c := l[:i]
			a, b := 0, len(c)
			for a < b && isSpaceByte(c[a]) {
				a++
			}
			for b > a && isSpaceByte(c[b-1]) {
				b--
			}
			c = c[a:b]
			if c != "" {
				j := 0
				for j < len(c) && c[j] != '=' {
					j++
				}
				if j < len(c) {
					r = append(r, pair{c[:j], c[j+1:]})
				} else {
					r = append(r, pair{c, ""})
				}
			}
			if i == len(l) {
				break
			}
			l = l[i+1:]
		}
	}
	return r
}

// HCookies: arbitrary Cookie header lines.
func HCookies() {
	var lines []string
	for i, n := 0, rt.Choose("lines", 3); i < n; i++ {
		s := rt.StrUpTo("line", rt.Bound(4-2*i, 5-2*i))
		for j := 0; j < len(s); j++ {
			rt.Assume(s[j] < 0x80 || n == 1 && len(s) <= 3 && noBlankLead(s[j]))
		}
		lines = append(lines, s)
	}
	h := http.Header{}
	if len(lines) > 0 {
		h["Cookie"] = lines
	}
	t := newTx(modsecurity.NewSecRuleSet())
	t.ProcessRequestHeader(h)
	want := refCookies(lines)
	rt.Assert(sameBag(variables.NewVariableRequestCookies().Fetch(t), valuesOf(want)), "REQUEST_COOKIES must yield every cookie value")
	rt.Assert(sameBag(variables.NewVariableRequestCookiesNames().Fetch(t), keysOf(want)), "REQUEST_COOKIES_NAMES must yield every cookie name")
}

func refBasename(p string) string {
	e := len(p)
	for e > 0 && (p[e-1] == '/' || p[e-1] == '\\') {
		e--
	}
	b := e
	for b > 0 && p[b-1] != '/' && p[b-1] != '\\' {
		b--
	}
	if b == e {
		return "/"
	}
	return p[b:e]
}

// HURIParts: path, base name and query of any URL.
func HURIParts() {
	p, q := rt.StrUpTo("path", rt.Bound(4, 6)), rt.StrUpTo("query", 2)
	t := newTx(modsecurity.NewSecRuleSet())
	t.ProcessRequestURL(&url.URL{Scheme: "http", Host: "h", Path: p, RawQuery: q}, "GET", "HTTP/1.1")
	rt.Assert(one(variables.NewVariableRequestFilename().Fetch(t), p), "REQUEST_FILENAME must be the decoded path")
	rt.Assert(one(variables.NewVariableQueryString().Fetch(t), q), "QUERY_STRING must be the raw query")
	rt.Assert(one(variables.NewVariableRequestBasename().Fetch(t), refBasename(p)), "REQUEST_BASENAME must be the last path component")
}

// HRequestURI: REQUEST_URI is the request target as sent, without scheme, user and host,
// whatever bytes that a server takes it holds, escaped or not.
func HRequestURI() {
	target := "/" + rt.StrUpTo("target", rt.Bound(3, 4))
	pre := []string{"", "http://h", "http://u:p@h:8080", "https://h"}[rt.Choose("pre", 4)]
	u, err := url.ParseRequestURI(pre + target)
	rt.Assume(err == nil)
	if pre != "" && (len(target) == 1 || target[1] == '?') && rt.Choose("root", 2) == 0 {
		target = target[1:] // no path at all
		u, err = url.ParseRequestURI(pre + target)
		rt.Assume(err == nil)
	}
	before := *u
	t := newTx(modsecurity.NewSecRuleSet())
	t.ProcessRequestURL(u, "GET", "HTTP/1.1")
	got := variables.NewVariableRequestURI().Fetch(t)
	rt.Assert(one(got, target), "REQUEST_URI must be the request target without scheme, user and host")
	rt.Assert(u.Scheme == before.Scheme && u.Host == before.Host && u.User == before.User && u.Path == before.Path, "REQUEST_URI must not change the URL")
}

// HScalars: each scalar variable yields its part of the transaction.
func HScalars() {
	t := newTx(modsecurity.NewSecRuleSet())
	ip, m, proto, rproto := rt.StrUpTo("ip", 2), rt.StrUpTo("method", 2), rt.StrUpTo("proto", 2), rt.StrUpTo("rproto", 2)
	port := rt.StrUpTo("port", 1)
	if len(m) > 1 { // told again, the last holds
		t.ProcessConnection("x", "1", "y", "2")
		t.ProcessRequestURL(&url.URL{Path: "/x"}, "PUT", "p")
		t.ProcessResponseHeaders(299, "r", http.Header{"Content-Length": {"12"}})
	}
	t.ProcessConnection(ip, port, "d", "e")
	t.ProcessRequestURL(&url.URL{Path: "/"}, m, proto)
	codes := []int{100, 200, 204, 304, 404, 500, 599, 0, 999, 1000, 12345}
	texts := []string{"100", "200", "204", "304", "404", "500", "599", "0", "999", "1000", "12345"}
	ci := rt.Choose("code", len(codes))
	h := http.Header{}
	cl := rt.StrUpTo("cl", 2)
	if cl != "" {
		h["Content-Length"] = []string{cl}
	} else {
		cl = "0"
	}
	t.ProcessResponseHeaders(codes[ci], rproto, h)
	rt.Assert(one(variables.NewVariableRemoteAddr().Fetch(t), ip), "REMOTE_ADDR must be the client address")
	rt.Assert(one(variables.NewVariableRequestMethod().Fetch(t), m), "REQUEST_METHOD must be the method")
	rt.Assert(one(variables.NewVariableRequestProtocol().Fetch(t), proto), "REQUEST_PROTOCOL must be the protocol of the request")
	rt.Assert(one(variables.NewVariableResponseProtocol().Fetch(t), rproto), "RESPONSE_PROTOCOL must be the protocol of the response")
	rt.Assert(one(variables.NewVariableResponseStatus().Fetch(t), texts[ci]), "RESPONSE_STATUS must be the status of the response")
	rt.Assert(one(variables.NewVariableResponseContentLength().Fetch(t), cl), "RESPONSE_CONTENT_LENGTH must be the Content-Length, or 0")
}

// HContentType: the media type of the response, lower-cased and without parameters.
func HContentType() {
	a, b := rt.Alpha("a", 1+rt.Choose("na", 2), "abzAZ09"), rt.Alpha("b", 1, "xX+-.")
	typ := lowerASCII(a) + "/" + lowerASCII(b)
	sent := a + "/" + b
	switch rt.Choose("form", 9) {
	case 1:
		sent += "; charset=utf-8"
	case 2:
		sent = " " + sent + " "
	case 3:
		sent += ";q=\"a;b\""
	case 4:
		sent += ";"
	case 5:
		sent, typ = "", "application/octet-stream"
	case 6:
		sent += ";q=1;q=2"
	case 7:
		sent += "; q"
	case 8:
		sent += " ;" + rt.Str("junk", 2)
	}
	h := http.Header{}
	if sent != "" {
		h["Content-Type"] = []string{sent}
	}
	t := newTx(modsecurity.NewSecRuleSet())
	t.ProcessResponseHeaders(200, "HTTP/1.1", h)
	rt.Assert(one(variables.NewVariableResponseContentType().Fetch(t), typ), "RESPONSE_CONTENT_TYPE must be the media type")
}

// HHeaders: all header values and names, in both directions; with no URL too.
func HHeaders() {
	var ps []pair
	for i, n := 0, rt.Choose("n", 3); i < n; i++ {
		ps = append(ps, pair{[]string{"A", "B", "X-C"}[rt.Choose("k", 3)], rt.StrUpTo("v", rt.Bound(1, 2))})
	}
	t := newTx(modsecurity.NewSecRuleSet())
	if rt.Choose("url", 2) == 1 {
		t.ProcessRequestURL(&url.URL{Path: "/"}, "GET", "HTTP/1.1")
	}
	h := headerOf(ps)
	if rt.Choose("dir", 2) == 0 {
		t.ProcessRequestHeader(h)
		rt.Assert(sameBag(variables.NewVariableRequestHeaders().Fetch(t), valuesOf(ps)), "REQUEST_HEADERS must yield every value")
		rt.Assert(sameBag(variables.NewVariableRequestHeadersNames().Fetch(t), keysOf(ps)), "REQUEST_HEADERS_NAMES must yield every name")
		rt.Assert(len(variables.NewVariableResponseHeaders().Fetch(t)) == 0, "request headers are not response headers")
	} else {
		t.ProcessResponseHeaders(200, "HTTP/1.1", h)
		rt.Assert(sameBag(variables.NewVariableResponseHeaders().Fetch(t), valuesOf(ps)), "RESPONSE_HEADERS must yield every value")
		rt.Assert(sameBag(variables.NewVariableResponseHeadersNames().Fetch(t), keysOf(ps)), "RESPONSE_HEADERS_NAMES must yield every name")
		rt.Assert(len(variables.NewVariableRequestHeaders().Fetch(t)) == 0, "response headers are not request headers")
	}
	for k, vs := range h {
		n := 0
		for _, p := range ps {
			if p.k == k {
				rt.Assert(vs[n] == p.v, "looking at headers must not change them")
				n++
			}
		}
	}
}

// HResponseBody: the response body when access to it is on.
func HResponseBody() {
	e := modsecurity.NewEngine()
	e.TmpPath = rt.TempDir()
	e.ResponseBody = int64(rt.Choose("limit", 4))
	e.ResponseBodyAccess, e.RequestBodyAccess = rt.Choose("access", 2) == 1, rt.Choose("other", 2) == 1
	t, err := modsecurity.NewTransaction(e, modsecurity.NewSecRuleSet())
	rt.Assert(err == nil, "a transaction must be created")
	var want []byte
	for i := 0; i < 2; i++ {
		p := rt.Bytes("p", rt.Choose("n", 3))
		if t.AppendResponseBody(p) == nil {
			want = append(want, p...)
		}
	}
	got := variables.NewVariableResponseBody().Fetch(t)
	again := variables.NewVariableResponseBody().Fetch(t)
	rt.Assert(sameBag(got, again), "every fetch must answer the same")
	if e.ResponseBodyAccess && len(want) > 0 {
		rt.Assert(one(got, string(want)), "RESPONSE_BODY must be what was accepted of the body")
	} else {
		rt.Assert(len(got) == 0, "RESPONSE_BODY must be empty without a body or access to it")
	}
	rt.Assert(!t.Abort, "a body within its limit does not abort")
}

// HCount: the count of a collection is the number of values it yields.
func HCount() {
	c := rt.Choose("col", colCount)
	var ps []pair
	for i := 0; i < 3; i++ {
		ps = append(ps, pair{rt.Alpha("k", 1, "abc"), []string{"v", ""}[rt.Choose("empty", 2)]})
	}
	t := fill(c, ps)
	v := colVar(c)
	n := 3
	if k := rt.Choose("sel", 4); k > 0 {
		s := string(rune('a' + k - 1))
		ex := rt.Choose("exclude", 2) == 1
		cv := variables.NewCountVariable(v)
		if ex {
			cv.Exclude(s)
		} else {
			cv.Include(s)
		}
		n = 0
		for _, p := range ps {
			if (p.k == s) != ex {
				n++
			}
		}
		rt.Assert(one(cv.Fetch(t), string(rune('0'+n))), "a count must be the number of selected values")
	} else {
		rt.Assert(one(variables.NewCountVariable(v).Fetch(t), "3"), "a count must be the number of values")
	}
	empty := newTx(modsecurity.NewSecRuleSet())
	rt.Assert(one(variables.NewCountVariable(colVar(c)).Fetch(empty), "0"), "the count of nothing is 0")
}

var allVars = []func() modsecurity.Variable{
	variables.NewVariableArgs, variables.NewVariableArgsNames, variables.NewVariableArgsGet, variables.NewVariableArgsGetNames,
	variables.NewVariableArgsPost, variables.NewVariableArgsPostNames, variables.NewVariableQueryString, variables.NewVariableRemoteAddr,
	variables.NewVariableRequestBasename, variables.NewVariableRequestBody, variables.NewVariableRequestCookies, variables.NewVariableRequestCookiesNames,
	variables.NewVariableRequestFilename, variables.NewVariableRequestHeaders, variables.NewVariableRequestHeadersNames, variables.NewVariableRequestMethod,
	variables.NewVariableRequestProtocol, variables.NewVariableRequestURI, variables.NewVariableResponseBody, variables.NewVariableResponseContentLength,
	variables.NewVariableResponseContentType, variables.NewVariableResponseHeaders, variables.NewVariableResponseHeadersNames,
	variables.NewVariableResponseProtocol, variables.NewVariableResponseStatus,
}

// HTotal: any rule, at any phase, on any request, however little of it was given,
// finishes without a crash.
func HTotal() {
	v := allVars[rt.Choose("var", len(allVars))]()
	if rt.Choose("wrap", 2) == 1 {
		v.Include("a")
		v.Exclude("/b/")
		v = variables.NewCountVariable(v)
	}
	rs := modsecurity.NewSecRuleSet()
	for _, p := range allPhases {
		r := ruleIf(p, true)
		r.Variables = []modsecurity.Variable{v}
		r.SetOperator(funcOp(func(*modsecurity.Transaction, string) bool { return false }))
		rs.AddRules(r)
	}
	t := newTxLimits(rs, int64(rt.Choose("mem", 2)*32), 64, 64)
	method := []string{"POST", "GET"}[rt.Choose("method", 2)]
	u := &url.URL{Path: "/p", RawQuery: "a=1"}
	h := http.Header{}
	body := "a=1&b"
	scene := rt.Choose("scene", 8)
	switch scene {
	case 0: // nothing is known
		u = nil
		body = ""
	case 1:
		u.Path, u.RawQuery = rt.StrUpTo("path", rt.Bound(0, 1)), rt.StrUpTo("q", 2)
		h["Cookie"] = []string{rt.StrUpTo("cookie", 2)}
	case 2:
		h["Content-Type"] = []string{"application/x-www-form-urlencoded"}
		body = rt.StrUpTo("body", rt.Bound(2, 3))
	case 3:
		h["Content-Type"] = []string{"multipart/form-data; boundary=B"}
		body = rt.StrUpTo("body", rt.Bound(2, 3))
	case 4:
		h["Content-Type"] = []string{rt.StrUpTo("ct", 2)}
	case 6: // names without values
		h = http.Header{"Cookie": nil, "Content-Type": {}, "X": nil, "": {""}}
	case 7: // no headers
		h = nil
	}
	if u != nil || rt.Choose("connect", 2) == 1 {
		t.ProcessConnection("", "", "", "")
	}
	if u != nil || rt.Choose("nourl", 2) == 1 {
		t.ProcessRequestURL(u, method, "HTTP/1.1")
	}
	if u != nil && h != nil || rt.Choose("headers", 2) == 1 {
		t.ProcessRequestHeader(h)
	}
	t.AppendRequestBody([]byte(body))
	t.ProcessRequestBody()
	switch rt.Choose("resp", 3) {
	case 1:
		t.ProcessResponseHeaders(200, "", nil)
	case 2:
		h := http.Header{}
		if scene == 5 {
			h["Content-Type"] = []string{rt.StrUpTo("rct", 2)}
		}
		if scene == 6 {
			h = http.Header{"Content-Length": nil, "Content-Type": {}, "X": nil}
		}
		t.ProcessResponseHeaders(-1, "", h)
		t.AppendResponseBody([]byte("x"))
	}
	t.ProcessResponseBody()
	t.ProcessLogging()
	rt.Assert(t.Result() != nil, "there must be a result")
}

// HMultipartFiles: the files of a form are no fields, whatever stands around them.
func HMultipartFiles() {
	body := ""
	var ps []pair
	for i, n := 0, 1+rt.Choose("parts", rt.Bound(3, 4)); i < n; i++ {
		name := []string{"a", "b"}[rt.Choose("name", 2)]
		v := rt.Str("v", rt.Choose("vlen", 2))
		switch rt.Choose("part", 3) {
		case 0:
			ps = append(ps, pair{name, v})
			body += "--B\r\nContent-Disposition: form-data; name=\"" + name + "\"\r\n\r\n" + v + "\r\n"
		case 1:
			body += "--B\r\nContent-Disposition: form-data; name=\"" + name + "\"; filename=\"f\"\r\n\r\n" + v + "\r\n"
		case 2:
			body += "--B\r\nContent-Disposition: form-data; name=\"" + name + "\"; filename=\"f\"\r\nContent-Type: text/plain\r\n\r\n" + v + "\r\n"
		}
	}
	t := multipartTx(body+"--B--\r\n", "B", []int64{20, 1000}[rt.Choose("mem", 2)])
	for i := 0; i < 2; i++ {
		rt.Assert(sameSet(variables.NewVariableArgsPostNames().Fetch(t), keysOf(ps)), "ARGS_POST_NAMES must yield the names of the fields")
		rt.Assert(sameBag(variables.NewVariableArgsPost().Fetch(t), valuesOf(ps)), "ARGS_POST must yield the fields")
	}
	rt.Assert(sameSet(variables.NewVariableArgsNames().Fetch(t), keysOf(ps)), "ARGS_NAMES must yield the names of the fields")
	rt.Assert(sameBag(variables.NewVariableArgs().Fetch(t), valuesOf(ps)), "ARGS must yield the fields")
	rt.Assert(!t.Abort && t.RequestBodyError == nil, "a well-formed body is no error")
}

// HBodyTypes: no other type makes a form of a body, however much it reads like one,
// nor do the types of forms with another method or without access.
func HBodyTypes() {
	form := "a=1&b=" + rt.Str("c", 1)
	multi := multipartBody([]pair{{"a", "1"}, {"b", "2"}}, "B", "\r\n")
	types := []string{"multipart", "multipartx/form-data; boundary=B", "xmultipart/form-data; boundary=B", "multipart-form-data; boundary=B", "text/multipart; boundary=B", "form-data; boundary=B",
		"text/plain; boundary=B", "application/octet-stream; x=\"multipart/form-data\"; boundary=B", "application/json", "application/xml", "application/x-www-form", "application/form-urlencoded", "x-www-form-urlencoded",
		"text/x-www-form-urlencoded", "application", "urlencoded", "*/*", "application/*", "message/rfc822; boundary=B", "text/plain; charset=application/x-www-form-urlencoded"}
	forms := []string{"multipart/form-data; boundary=B", "application/x-www-form-urlencoded"}
	k := rt.Choose("type", len(types)+len(forms))
	e := modsecurity.NewEngine()
	e.TmpPath = rt.TempDir()
	e.RequestBodyAccess = true
	method, ct := "", ""
	if k < len(types) {
		ct, method = types[k], bodyMethods[rt.Choose("method", len(bodyMethods))]
	} else {
		ct = forms[k-len(types)]
		others := []string{"GET", "HEAD", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PROPFIND", "", "post", "Put", "POSTX", "XPOST", " POST", "PATCHED"}
		if m := rt.Choose("other", len(others)+1); m < len(others) {
			method = others[m]
		} else {
			method, e.RequestBodyAccess = "POST", false
		}
	}
	t, err := modsecurity.NewTransaction(e, modsecurity.NewSecRuleSet())
	rt.Assert(err == nil, "a transaction must be created")
	t.ProcessRequestURL(&url.URL{Path: "/p"}, method, "HTTP/1.1")
	t.ProcessRequestHeader(http.Header{"Content-Type": {ct}})
	rt.Assert(t.AppendRequestBody([]byte([]string{form, multi}[rt.Choose("body", 2)])) == nil, "the body must be accepted")
	t.ProcessRequestBody()
	for _, v := range []modsecurity.Variable{variables.NewVariableArgsPost(), variables.NewVariableArgsPostNames(), variables.NewVariableArgs(), variables.NewVariableArgsNames(), variables.NewVariableRequestBody()} {
		rt.Assert(len(v.Fetch(t)) == 0, v.Name()+": a body that is no form must yield nothing: "+method+" "+ct)
	}
	i := t.Result()
	rt.Assert(!i.Disruptive && i.Status == 200 && !t.Abort && t.RequestBodyError == nil, "a body that is no form is no error")
}
