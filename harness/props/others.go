package props

import (
	"net/http"
	"net/url"
	"strconv"

	"github.com/senghoo/modsecurity-go/modsecurity"

	"verif/harness/rt"
)

// world is everything a transaction is told.
type world struct {
	src, sport, dst, dport      string
	method, path, query, proto  string
	host                        string
	header, rheader             http.Header
	k, v                        string // the one argument of the body
	multi                       bool
	code                        int
	rproto, rbody               string
	getNames, getVals, ckN, ckV []string
	ctype, clen                 string
}

func baseWorld() *world {
	return &world{src: "10.0.0.1", sport: "1234", dst: "10.0.0.2", dport: "80", method: "POST", path: "/dir/file", query: "g=1", proto: "HTTP/1.0",
		header: http.Header{"Cookie": {"c=2"}, "Content-Type": {"application/x-www-form-urlencoded"}}, rheader: http.Header{"Content-Type": {"text/plain"}, "Content-Length": {"17"}},
		k: "p", v: "3", code: 204, rproto: "HTTP/1.1", rbody: "response", getNames: []string{"g"}, getVals: []string{"1"}, ckN: []string{"c"}, ckV: []string{"2"}, ctype: "text/plain", clen: "17"}
}

func (w *world) body() string {
	if w.multi {
		return multipartBody([]pair{{w.k, w.v}}, "bd", "\r\n")
	}
	return w.k + "=" + w.v
}

func (w *world) tx(e *modsecurity.Engine) *modsecurity.Transaction {
	return w.steps(e, func(int, *modsecurity.Transaction) {})
}

// steps is tx with something done before each of the steps but while a body arrives.
func (w *world) steps(e *modsecurity.Engine, at func(step int, t *modsecurity.Transaction)) *modsecurity.Transaction {
	e.RequestBodyAccess, e.ResponseBodyAccess = true, true
	e.TmpPath = rt.TempDir()
	t, err := e.NewTransaction()
	rt.Assert(err == nil, "a transaction must be created")
	at(0, t)
	t.ProcessConnection(w.src, w.sport, w.dst, w.dport)
	at(1, t)
	t.ProcessRequestURL(&url.URL{Path: w.path, RawQuery: w.query, Host: w.host}, w.method, w.proto)
	at(2, t)
	t.ProcessRequestHeader(w.header)
	at(3, t)
	t.AppendRequestBody([]byte(w.body()))
	at(4, t)
	t.ProcessRequestBody()
	t.ProcessResponseHeaders(w.code, w.rproto, w.rheader)
	at(5, t)
	t.AppendResponseBody([]byte(w.rbody))
	t.ProcessResponseBody()
	at(6, t)
	return t
}

func allValues(h http.Header) (names, vals []string) {
	for k, l := range h {
		names = append(names, k)
		vals = append(vals, l...)
	}
	return
}

// want is what the variable of each name must yield.
func (w *world) want(name string) []string {
	form := w.method == "POST" || w.method == "PUT" || w.method == "PATCH"
	var pn, pv []string
	if form {
		pn, pv = []string{w.k}, []string{w.v}
	}
	hn, hv := allValues(w.header)
	rn, rv := allValues(w.rheader)
	cat := func(a, b []string) []string { return append(append([]string{}, a...), b...) }
	switch name {
	case "ARGS":
		return cat(w.getVals, pv)
	case "ARGS_NAMES":
		return cat(w.getNames, pn)
	case "ARGS_GET":
		return w.getVals
	case "ARGS_GET_NAMES":
		return w.getNames
	case "ARGS_POST":
		return pv
	case "ARGS_POST_NAMES":
		return pn
	case "QUERY_STRING":
		return []string{w.query}
	case "REMOTE_ADDR":
		return []string{w.src}
	case "REQUEST_BASENAME":
		return []string{refBasename(w.path)}
	case "REQUEST_BODY":
		if !form || w.multi {
			return nil
		}
		return []string{w.body()}
	case "REQUEST_COOKIES":
		return w.ckV
	case "REQUEST_COOKIES_NAMES":
		return w.ckN
	case "REQUEST_FILENAME":
		return []string{w.path}
	case "REQUEST_HEADERS":
		return hv
	case "REQUEST_HEADERS_NAMES":
		return hn
	case "REQUEST_METHOD":
		return []string{w.method}
	case "REQUEST_PROTOCOL":
		return []string{w.proto}
	case "REQUEST_URI":
		u := w.path
		if w.query != "" {
			u += "?" + w.query
		}
		return []string{u}
	case "RESPONSE_BODY":
		return []string{w.rbody}
	case "RESPONSE_CONTENT_LENGTH":
		return []string{w.clen}
	case "RESPONSE_CONTENT_TYPE":
		return []string{w.ctype}
	case "RESPONSE_HEADERS":
		return rv
	case "RESPONSE_HEADERS_NAMES":
		return rn
	case "RESPONSE_PROTOCOL":
		return []string{w.rproto}
	case "RESPONSE_STATUS":
		return []string{strconv.Itoa(w.code)}
	}
	return nil
}

const wordBytes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."

// vary makes one part of the transaction arbitrary texts of n bytes.
func (w *world) vary(part, n int) {
	switch part {
	case 0:
		w.src = rt.Str("src", n)
	case 1:
		w.sport, w.dst, w.dport = rt.Str("sport", n), rt.Str("dst", n), rt.Str("dport", n)
	case 2:
		w.method = rt.Str("method", n)
	case 3:
		w.path = "/d/" + rt.Alpha("path", n, wordBytes)
	case 4:
		w.path = "/" + rt.Alpha("path", n, wordBytes) + "/x"
	case 5:
		k := rt.Alpha("gk", n, wordBytes)
		rt.Assume(k != "g")
		w.query += "&" + k + "=v"
		w.getNames, w.getVals = append(w.getNames, k), append(w.getVals, "v")
	case 6:
		v := rt.Alpha("gv", n, wordBytes)
		w.query += "&g=" + v
		w.getVals = append(w.getVals, v)
	case 7:
		w.proto = rt.Str("proto", n)
	case 8:
		k := rt.Str("hk", n)
		rt.Assume(k != "Cookie" && k != "Content-Type")
		w.header[k] = []string{rt.Str("hv", 1), rt.Str("hw", n)}
	case 9:
		k := rt.Alpha("ck", n, wordBytes)
		rt.Assume(k != "c")
		w.header["Cookie"][0] += "; " + k + "=v"
		w.ckN, w.ckV = append(w.ckN, k), append(w.ckV, "v")
	case 10:
		v := rt.Alpha("cv", n, wordBytes)
		w.header["Cookie"][0] += ";c=" + v
		w.ckV = append(w.ckV, v)
	case 11:
		w.code = int(rt.Int("code", 100, 999))
		w.rproto = rt.Str("rproto", n)
	case 12:
		k := rt.Str("rk", n)
		rt.Assume(k != "Content-Length" && k != "Content-Type")
		w.rheader[k] = []string{rt.Str("rv", 1), rt.Str("rw", n)}
	case 13:
		w.rbody = rt.Str("rbody", n)
	case 14:
		w.k, w.v = rt.Alpha("pk", n, wordBytes), rt.Alpha("pv", n, wordBytes)
		rt.Assume(!w.multi || w.v[0] != '-') // the boundary must not occur in it
	case 15:
		w.host = rt.Alpha("host", n, wordBytes)
	case 16:
		w.same(rt.Alpha("same", n, wordBytes))
	}
}

// same gives every collection a member of the same name.
func (w *world) same(k string) {
	rt.Assume(k != "g" && k != "c" && k != "Cookie" && k != "Content-Type" && k != "Content-Length")
	w.query += "&" + k + "=5"
	w.getNames, w.getVals = append(w.getNames, k), append(w.getVals, "5")
	w.header["Cookie"][0] += "; " + k + "=6"
	w.ckN, w.ckV = append(w.ckN, k), append(w.ckV, "6")
	w.header[k], w.rheader[k] = []string{"7"}, []string{"8"}
	w.k = k
}

// HOthers: every variable is what it is named after, whatever any one part of the
// transaction holds. The part is a text of any length up to the bound, so that any
// dependence on a particular value of that length is found.
func HOthers() {
	others(secVarNames...)
}

// HQueryOthers: the same for the variables of the query.
func HQueryOthers() {
	others("ARGS_GET", "ARGS_GET_NAMES")
}

// HBodyOthers: the same for the variables of the body.
func HBodyOthers() {
	others("ARGS_POST", "ARGS_POST_NAMES", "REQUEST_BODY")
}

// HCookieOthers: the same for the variables of the cookies.
func HCookieOthers() {
	others("REQUEST_COOKIES", "REQUEST_COOKIES_NAMES")
}

// HURIOthers: the same for the variables of the URL.
func HURIOthers() {
	others("REQUEST_URI", "REQUEST_FILENAME", "REQUEST_BASENAME", "QUERY_STRING")
}

// HScalarOthers: the same for the variables of the other parts.
func HScalarOthers() {
	others("REMOTE_ADDR", "REQUEST_METHOD", "REQUEST_PROTOCOL", "REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "RESPONSE_BODY", "RESPONSE_CONTENT_LENGTH", "RESPONSE_CONTENT_TYPE",
		"RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES", "RESPONSE_PROTOCOL", "RESPONSE_STATUS")
}

// HEarly: a variable yields what the transaction holds, however early and often it or
// another variable was asked for before, and whatever stood there then.
func HEarly() {
	early(secVarNames...)
}

// HQueryEarly: the same for the variables of the query.
func HQueryEarly() {
	early("ARGS_GET", "ARGS_GET_NAMES")
}

// HBodyEarly: the same for the variables of the body.
func HBodyEarly() {
	early("ARGS_POST", "ARGS_POST_NAMES", "REQUEST_BODY")
}

// HCookieEarly: the same for the variables of the cookies.
func HCookieEarly() {
	early("REQUEST_COOKIES", "REQUEST_COOKIES_NAMES")
}

// HURIEarly: the same for the variables of the URL.
func HURIEarly() {
	early("REQUEST_URI", "REQUEST_FILENAME", "REQUEST_BASENAME", "QUERY_STRING")
}

// HScalarEarly: the same for the variables of the other parts.
func HScalarEarly() {
	early("REMOTE_ADDR", "REQUEST_METHOD", "REQUEST_PROTOCOL", "REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "RESPONSE_BODY", "RESPONSE_CONTENT_LENGTH", "RESPONSE_CONTENT_TYPE",
		"RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES", "RESPONSE_PROTOCOL", "RESPONSE_STATUS")
}

func early(names ...string) {
	w := baseWorld()
	base := rt.Choose("base", 3)
	w.method, w.multi = bodyMethods[base], base == 1
	w.v = rt.Alpha("v", 1, "0a")
	if rt.Choose("same", 2) == 1 {
		w.same("name")
	}
	if w.multi {
		w.header["Content-Type"] = []string{"multipart/form-data; boundary=bd"}
	}
	first := allVars[rt.Choose("var", len(allVars))]()
	decoy := rt.Choose("decoy", 2) == 1
	asking := 0
	t := w.steps(modsecurity.NewEngine(), func(step int, t *modsecurity.Transaction) {
		if decoy {
			switch step {
			case 0:
				t.ProcessConnection("9.9.9.9", "9", "8.8.8.8", "8")
			case 1:
				t.ProcessRequestURL(&url.URL{Path: "/other", RawQuery: "g=9&x=8", Host: "other"}, "PUT", "HTTP/9")
			case 2:
				t.ProcessRequestHeader(http.Header{"Cookie": {"x=9; c=8"}, "X-Other": {"9"}})
			case 4:
				t.ProcessResponseHeaders(500, "HTTP/9", http.Header{"X-Other": {"9"}})
			}
		}
		// at some steps in a row, or at any of them
		if rt.Bound(0, 1) == 1 || asking < 2 {
			if rt.Choose("ask", 2) == 1 {
				first.Fetch(t)
				asking = 1
			} else if asking == 1 {
				asking = 2
			}
		}
	})
	w.check(names, t)
	w.check(names, t)
}

// HPairOthers: the same with a name and a value of any two lengths.
func HPairOthers() {
	w := baseWorld()
	w.method, w.multi = bodyMethods[rt.Choose("base", 3)], false
	n, m := rt.Choose("klen", rt.Bound(30, 48))+1, rt.Choose("vlen", rt.Bound(10, 16))+1
	switch rt.Choose("where", 5) {
	case 0:
		k := rt.Str("hk", n)
		rt.Assume(k != "Cookie" && k != "Content-Type")
		w.header[k] = []string{rt.Str("hv", m)}
	case 1:
		k := rt.Str("rk", n)
		rt.Assume(k != "Content-Length" && k != "Content-Type")
		w.rheader[k] = []string{rt.Str("rv", m)}
	case 2:
		k, v := rt.Alpha("gk", n, wordBytes), rt.Alpha("gv", m, wordBytes)
		rt.Assume(k != "g")
		w.query += "&" + k + "=" + v
		w.getNames, w.getVals = append(w.getNames, k), append(w.getVals, v)
	case 3:
		k, v := rt.Alpha("ck", n, wordBytes), rt.Alpha("cv", m, wordBytes)
		rt.Assume(k != "c")
		w.header["Cookie"][0] += "; " + k + "=" + v
		w.ckN, w.ckV = append(w.ckN, k), append(w.ckV, v)
	case 4:
		w.k, w.v = rt.Alpha("pk", n, wordBytes), rt.Alpha("pv", m, wordBytes)
	}
	w.check(secVarNames, w.tx(modsecurity.NewEngine()))
}

func others(names ...string) {
	w := baseWorld()
	w.method, w.multi = bodyMethods[rt.Choose("base", 3)], rt.Choose("multi", 2) == 1
	const parts = 17
	n := rt.Choose("len", rt.Bound(40, 64)) + 1
	if part := rt.Choose("part", parts+1); part < parts {
		w.vary(part, n)
	} else {
		// all of them at once, of various lengths
		step := rt.Choose("step", rt.Bound(3, 6))
		for part := 0; part < 16; part++ {
			w.vary(part, 1+(n+step*part)%20)
		}
	}
	if w.multi {
		w.header["Content-Type"] = []string{"multipart/form-data; boundary=bd"}
	}
	w.check(names, w.tx(modsecurity.NewEngine()))
}

// check compares what the variables yield with what the transaction holds.
func (w *world) check(names []string, t *modsecurity.Transaction) {
	for i, mk := range allVars {
		if !member(secVarNames[i], names) {
			continue
		}
		v := mk()
		got, want := v.Fetch(t), w.want(secVarNames[i])
		if v.Name() == "ARGS_NAMES" {
			rt.Assert(sameSet(got, want), v.Name()+" must be what it is named after")
		} else {
			rt.Assert(sameBag(got, want), v.Name()+" must be what it is named after")
		}
	}
	if member("ARGS_POST", names) {
		rt.Assert(!t.Abort && t.RequestBodyError == nil, "a well-formed transaction is no error")
	}
}
