package props

import (
	"io"
	"net/http"
	"net/url"
	"strconv"

	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"

	"verif/harness/rt"
)

// a configuration that uses every kind of per-rule and per-transaction state
const sharedRules = `
SecRequestBodyAccess On
SecResponseBodyAccess On
SecRule ARGS_GET:s|REQUEST_HEADERS:/^S/|&ARGS_GET "@rx ^1$" "id:1,phase:2,t:lowercase,skip:1"
SecRule ARGS_GET:s "@rx 2" "id:2,phase:2,log,status:402,chain"
SecRule ARGS_GET_NAMES "@rx n" "t:urlDecodeUni"
SecRule ARGS_GET:s "@eq 3" "id:3,phase:2,status:403,allow:request"
SecRule ARGS_GET:s "!@lt 4" "id:4,phase:2,t:compressWhitespace,deny"
SecRule ARGS_POST|!ARGS_POST:x "@rx ^b" "id:5,phase:3,status:405,deny"
SecRule REQUEST_COOKIES "@eq 7" "id:6,phase:3,t:none,pass,log"
SecRule RESPONSE_STATUS "@ge 500" "id:7,phase:4,allow"
SecRule RESPONSE_BODY "@rx d" "id:8,phase:5,t:removeNulls,deny"
`

type client struct {
	q, s, b, r string
	t          *modsecurity.Transaction
	res        []*modsecurity.Intervention
}

func anyClient() *client {
	return &client{q: rt.Alpha("q", 1, "012345"), s: rt.Alpha("n", 1, "nm"), b: rt.Alpha("b", 1, "ab"), r: rt.Alpha("r", 1, "cd")}
}

const clientSteps = 5

func (c *client) step(e *modsecurity.Engine, i int) {
	switch i {
	case 0:
		t, err := e.NewTransaction()
		rt.Assert(err == nil, "a transaction must be created")
		c.t = t
		t.ProcessConnection("10.0.0.1", "1234", "10.0.0.2", "80")
	case 1:
		c.t.ProcessRequestURL(&url.URL{Path: "/", RawQuery: "s=" + c.q + "&" + c.s + "=0"}, "POST", "HTTP/1.1")
		c.t.ProcessRequestHeader(http.Header{"Content-Type": {"application/x-www-form-urlencoded"}, "Cookie": {"c=7"}})
	case 2:
		c.t.AppendRequestBody([]byte("y=" + c.b))
		c.t.ProcessRequestBody()
	case 3:
		c.t.ProcessResponseHeaders(200+100*int(c.r[0]-'a'), "HTTP/1.1", nil)
	case 4:
		c.t.AppendResponseBody([]byte(c.r))
		c.t.ProcessResponseBody()
		c.t.ProcessLogging()
	}
	c.res = append(c.res, c.t.Result())
}

// HIsolation: a transaction is decided by its own input alone, whatever other
// transactions over the same engine do in between, and writes nothing they share.
func HIsolation() {
	a, b := anyClient(), &client{q: "2", s: "n", b: "b", r: "d"}
	if rt.Tier() == 1 {
		b = &client{q: rt.Alpha("q2", 1, "24"), s: "n", b: rt.Alpha("b2", 1, "ab"), r: "d"}
	}
	alone := &client{q: a.q, s: a.s, b: a.b, r: a.r}
	one := secEngine(sharedRules)
	for i := 0; i < clientSteps; i++ {
		alone.step(one, i)
	}
	e := secEngine(sharedRules)
	rt.Freeze(e)
	i, j := 0, 0
	for i < clientSteps {
		for n := rt.Choose("turns", rt.Bound(2, 4)); n > 0 && j < clientSteps; n-- {
			b.step(e, j)
			j++
		}
		a.step(e, i)
		i++
	}
	rt.CheckFrozen()
	for k, r := range a.res {
		w := alone.res[k]
		rt.Assert(r.Status == w.Status && r.Disruptive == w.Disruptive && sameStrings(r.Log, w.Log), "a transaction must not depend on others")
	}
}

// HMapOrder: decisions do not depend on the order in which the members of a
// collection happen to be visited.
func HMapOrder() {
	rt.MapOrder(true)
	e := secEngine(`SecRule ARGS_GET|&ARGS_GET_NAMES "@rx ^[1z]$" "id:1,phase:2,log"
SecRule ARGS_GET|!ARGS_GET:a|REQUEST_METHOD "@eq 1" "id:2,phase:2,log"
SecRule ARGS_GET:/[bc]/|ARGS_GET:a "!@lt 2" "id:3,phase:2,log,chain"
SecRule ARGS_GET_NAMES "@rx b" "t:lowercase"
SecRule REQUEST_HEADERS:A|REQUEST_HEADERS:B "@eq 3" "id:4,phase:2,deny"
`)
	names := []string{"a", "b", "c"}[:rt.Bound(2, 3)]
	q := ""
	var vals []string
	for i, n := range names {
		v := rt.Alpha("v", 1, "012"[rt.Bound(0, 1):])
		vals = append(vals, v)
		if i > 0 {
			q += "&"
		}
		q += n + "=" + v
	}
	h := []string{rt.Alpha("ha", 1, "03"), "0"}
	t := secTx(e, q)
	t.ProcessRequestHeader(http.Header{"A": {h[0]}, "B": {h[1]}})
	r := t.Result()
	var w [3]bool
	for i, v := range vals {
		w[0] = w[0] || v == "1"
		w[1] = w[1] || i > 0 && v == "1"
		w[2] = w[2] || v >= "2"
	}
	var want []string
	for i, s := range []string{"0", "1", "2"} {
		if w[i] {
			want = append(want, "[client :] (phase 2) ModSecurity: running action in phase 2 rule "+s)
		}
	}
	deny := h[0] == "3" || h[1] == "3"
	if deny {
		want = append(want, "[client :] (phase 2) ModSecurity: Access denied with code 403")
	}
	rt.Assert(sameStrings(r.Log, want) && r.Disruptive == deny, "a decision must not depend on the order of a collection")
}

// HMapNames: neither do those over the names of a collection, whatever values the
// members have.
func HMapNames() {
	rt.MapOrder(true)
	names := []string{"a", "b", "c"}
	col := rt.Choose("col", 5)
	e := secEngine("SecRule " + []string{"ARGS_GET_NAMES", "ARGS_NAMES", "REQUEST_COOKIES_NAMES", "REQUEST_HEADERS_NAMES|!REQUEST_HEADERS_NAMES:Cookie", "ARGS_POST_NAMES"}[col] +
		" \"@rx ^" + []string{"a", "b", "c"}[rt.Choose("pat", 3)] + "$\" \"id:1,phase:3,deny\"\nSecRequestBodyAccess On\n")
	q, ck := "", ""
	h := http.Header{}
	for i, n := range names {
		v := []string{"", "1"}[rt.Choose("v", 2)]
		if i > 0 {
			q += "&"
			ck += "; "
		}
		q += n + "=" + v
		ck += n + "=" + v
		h[n] = []string{v}
	}
	t, err := e.NewTransaction()
	rt.Assert(err == nil, "a transaction must be created")
	u := &url.URL{Path: "/"}
	if col < 2 {
		u.RawQuery = q
	}
	if col == 2 {
		h = http.Header{"Cookie": {ck}}
	} else if col != 3 {
		h = http.Header{}
	}
	if col == 4 {
		h["Content-Type"] = []string{"application/x-www-form-urlencoded"}
	}
	t.ProcessRequestURL(u, "POST", "HTTP/1.1")
	t.ProcessRequestHeader(h)
	if col == 4 {
		t.AppendRequestBody([]byte(q))
	}
	t.ProcessRequestBody()
	rt.Assert(t.Result().Disruptive, "a decision must not depend on the order of a collection")
}

// everyRule is a configuration in which every variable, transformation, operator and
// action is used, in every phase.
func everyRule(seed int) string {
	trans := []string{"none", "lowercase", "urlDecode", "urlDecodeUni", "removeNulls", "replaceNulls", "removeWhitespace", "compressWhitespace"}
	ops := []string{"@rx .", "!@rx ^zz$", "!@eq 77", "!@gt 88", "@ge -1", "@lt 99", "@le 99"}
	acts := []string{"log", "pass", "log,pass", "status:404", "block", "skip:0", "msg:'m',tag:t,severity:2", "log,chain"}
	sels := []string{"", ":a", ":/^[a-f]/"}
	text := "SecRequestBodyAccess On\nSecResponseBodyAccess On\n"
	for i, name := range secVarNames {
		k := i + seed
		target := name
		if isCollection(name) {
			target += sels[k%len(sels)] + "|!" + name + ":/q/|&" + name
		}
		phase := strconv.Itoa(2 + k%4)
		act := acts[k%len(acts)]
		text += "SecRule " + target + " \"" + ops[k%len(ops)] + "\" \"id:" + strconv.Itoa(i+1) + ",phase:" + phase +
			",t:" + trans[k%len(trans)] + ",t:" + trans[(k/2+3)%len(trans)] + "," + act + "\"\n"
		if act == "log,chain" {
			text += "SecRule ARGS \"@rx .\" \"t:urlDecode\"\n"
		}
	}
	last := []string{"deny", "allow", "allow:phase", "allow:request", "status:405,deny"}[seed%5]
	return text + "SecRule REQUEST_METHOD \"@rx .\" \"id:99,phase:" + strconv.Itoa(2+seed%4) + "," + last + "\"\n"
}

func isCollection(name string) bool {
	switch name {
	case "ARGS", "ARGS_NAMES", "ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES",
		"REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES":
		return true
	}
	return false
}

// HUntouched: while a transaction is processed nothing is written that was there
// before: neither the engine, its rules and what they are made of, nor the URL and the
// headers the caller handed over, and a second transaction like it is decided alike.
func HUntouched() {
	e := secEngine(everyRule(rt.Choose("seed", rt.Bound(40, 280))))
	e.TmpPath = rt.TempDir()
	e.RequestBodyInMem = []int64{4, 200}[rt.Choose("mem", 2)]
	multi := rt.Choose("multi", 2) == 1
	u := &url.URL{Path: "/d/f%20\x00", RawPath: "/d/f%2520%00", RawQuery: "a=1&b=%31%u0041&a=+&c;q=9&%zz"}
	h := http.Header{"Content-Type": {"Application/X-www-form-urlencoded"}, "Cookie": {"a=1; b=\"2\"", "c = 3;"}, "A": {"1", "2 "}, "Empty": {}}
	body := "a=x&d=%41+&q"
	if multi {
		h["Content-Type"] = []string{"multipart/form-data; boundary=B"}
		body = "--B\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nx y\r\n--B--\r\n"
	}
	rh := http.Header{"Content-Type": {"Text/HTML; a=b"}, "Content-Length": {"7"}, "a": {"x"}, "A": {"Y "}}
	data := []byte(body)
	if rt.Choose("url", 2) == 1 {
		*u = url.URL{Scheme: "http", Host: "h:80", Path: "//d/", RawQuery: "a", ForceQuery: true, Fragment: "f#"}
		h["Cookie"], h["A"], h["Nil"] = []string{" z=1 ; y=2 ", "b=1;a\t"}, []string{"2", "10", " 1"}, nil
		rh = http.Header{"Set-Cookie": {"b", "a"}, "x": {"2", "1"}}
	}
	cloneH, cloneRH := copyHeader(h), copyHeader(rh)
	was := *u
	rt.Freeze(e, u, h, rh, data)
	var res [2][]*modsecurity.Intervention
	for i := range res {
		t, err := e.NewTransaction()
		rt.Assert(err == nil, "a transaction must be created")
		t.ProcessConnection("10.0.0.1", "1234", "10.0.0.2", "80")
		t.ProcessRequestURL(u, "POST", "HTTP/1.1")
		t.ProcessRequestHeader(h)
		res[i] = append(res[i], t.Result())
		t.AppendRequestBody(data[:5])
		t.AppendRequestBody(data[5:])
		t.ProcessRequestBody()
		res[i] = append(res[i], t.Result())
		t.ProcessResponseHeaders(200, "HTTP/1.1", rh)
		res[i] = append(res[i], t.Result())
		t.AppendResponseBody(data)
		t.ProcessResponseBody()
		t.ProcessLogging()
		res[i] = append(res[i], t.Result())
		got := make([]byte, len(body)+1)
		n, _ := io.ReadFull(t.Request.Body, got)
		rt.Assert(n == len(body) && string(got[:n]) == body, "inspecting a body must not change it")
		t.Request.Body.Close()
		t.Response.Body.Close()
	}
	rt.CheckFrozen()
	for k, r := range res[0] {
		w := res[1][k]
		rt.Assert(r.Status == w.Status && r.Disruptive == w.Disruptive && sameStrings(r.Log, w.Log), "a transaction like one before must be decided like it")
	}
	rt.Assert(*u == was, "inspecting a URL must not change it")
	rt.Assert(sameHeader(h, cloneH) && sameHeader(rh, cloneRH), "inspecting headers must not change them")
	rt.Assert(string(data) == body, "appending a body must not change it")
}

// HData: what an action stores in a transaction stays there, whatever other rules do,
// and is nowhere else.
func HData() {
	rs := modsecurity.NewSecRuleSet()
	rs.AddDefaultActions(actions.NewActionStatus(404), actions.NewActionLog())
	val := rt.Str("value", 2)
	at := rt.Choose("at", len(allPhases))
	mk := func(k int) modsecurity.Action {
		switch k {
		case 1:
			return actions.NewActionStatus(500)
		case 2:
			return actions.NewActionLog()
		case 3:
			return actions.NewActionPass()
		case 4:
			return actions.NewActionBlock()
		case 5:
			return actions.NewActionSkip()
		case 6:
			return actions.NewActionAllow("phase")
		case 7:
			return actions.NewActionAllow("request")
		case 8:
			return actions.NewActionAllow("")
		case 9:
			return actions.NewActionDeny()
		}
		return &funcAct{modsecurity.ActionGroupMetaData, func(*modsecurity.Transaction) {}}
	}
	var stored *modsecurity.Transaction
	status := rt.Choose("status", 2) == 1
	seen := 0
	check := func(t *modsecurity.Transaction) {
		got, has := t.Data["key"]
		rt.Assert(has == (t == stored), "what an action stores must stay in its transaction")
		if has {
			s, ok := got.(string)
			n, _ := t.Data["n"].(int)
			rt.Assert(ok && s == val && n == 7 && t.Data["statusText"] == "t" && t.Data["_"] == stored, "what an action stores must stay as it is")
			_, has = t.Data["Status"]
			rt.Assert(has && t.Data["Status"] == nil, "what an action stores must stay as it is")
			seen++
		}
	}
	sameKind := rt.Choose("same", 10)
	same, next := mk(sameKind), mk(rt.Choose("next", 10))
	match, result := rt.Choose("match", 3), rt.Choose("result", 3)
	for i, p := range allPhases {
		if i == at {
			r := ruleIf(p, true, same, &funcAct{modsecurity.ActionGroupData, func(t *modsecurity.Transaction) {
				if stored == nil {
					stored = t
					t.Data["key"], t.Data["n"], t.Data["statusText"], t.Data["Status"], t.Data["_"] = val, 7, "t", nil, stored
				}
			}})
			if status { // it holds for the rest of its rule
				r.AppendActions(actions.NewActionStatus(418), &funcAct{modsecurity.ActionGroupFlow, func(t *modsecurity.Transaction) {
					want := 418
					if sameKind == 4 {
						want = 404 // what block set since
					}
					got, ok := t.Data["status"].(int)
					rt.Assert(ok && got == want, "the status a rule sets must stay while its actions run")
				}})
			}
			rs.AddRules(r)
		}
		if i >= at {
			rs.AddRules(ruleIf(p, match == 2 || i%2 == match, next, &funcAct{modsecurity.ActionGroupFlow, check}))
		}
	}
	t, o := newTx(rs), newTx(rs)
	for i, p := range allPhases {
		callPhase(t, p)
		if i > 2 {
			callPhase(o, p)
		}
		if i >= at {
			check(t)
		}
		if result == 2 || i%2 == result {
			t.Result()
		}
	}
	check(t)
	check(o)
	rt.Assert(seen > 0 && len(o.Data) <= 3 && (at > 2 || len(newTx(rs).Data) == 0), "what an action stores must stay")
}

func copyHeader(h http.Header) http.Header {
	res := make(http.Header)
	for k, v := range h {
		res[k] = append([]string(nil), v...)
	}
	return res
}

func sameHeader(a, b http.Header) bool {
	for k, v := range a {
		w, has := b[k]
		if !has || !sameStrings(v, w) {
			return false
		}
	}
	return len(a) == len(b)
}
