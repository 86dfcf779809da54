package props

import (
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"
	"github.com/senghoo/modsecurity-go/seclang/parser"

	"verif/harness/rt"
)

// Configurations of the sizes real ones have.

// HSecChainLong: chains of many rules.
func HSecChainLong() {
	n := []int{12, 40}[rt.Choose("n", 2)]
	odd := rt.Choose("odd", n+1)
	text, query := "SecRule ARGS_GET:p0 \"@ge 0\" \"id:100,phase:2,log\"\n", ""
	for i := 0; i < n; i++ {
		acts := []string{"log", "", "t:none"}[i%3]
		if i == 0 {
			acts = "id:1,phase:2,status:404,deny"
		}
		if i < n-1 {
			if acts != "" {
				acts += ","
			}
			acts += "chain"
		} else if acts == "" {
			acts = "log"
		}
		text += "SecRule ARGS_GET:p" + strconv.Itoa(i) + " \"@eq 1\" \"" + acts + "\"\n"
		v := "1"
		if i == odd {
			v = rt.Alpha("v", 1, "0123")
			rt.Assume(v != "1")
		}
		query += "&p" + strconv.Itoa(i) + "=" + v
	}
	text += "SecRule ARGS_GET:p" + strconv.Itoa(n) + " \"@eq 1\" \"id:2,phase:2,log\"\n"
	query += "&p" + strconv.Itoa(n) + "=1"
	e := secEngine(text)
	rt.Assert(len(e.RuleSet.Phases[2]) == 3, "a chain must be one rule")
	t := secTx(e, query)
	t.ProcessRequestHeader(nil)
	r := t.Result()
	if odd < n {
		rt.Assert(!r.Disruptive && len(r.Log) == 2, "a chain of which one rule does not match must do nothing")
	} else {
		rt.Assert(r.Disruptive && r.Status == 404, "a chain that matches must run its actions")
	}
}

// HSecTargetsMany: a rule with many targets.
func HSecTargetsMany() {
	const n = 12
	query := ""
	for i := 0; i < n; i++ {
		query += "&n" + strconv.Itoa(i) + "=v" + strconv.Itoa(i)
	}
	k := 5 + rt.Choose("k", 6) // n0..n(k-1) are named one by one
	rot := rt.Choose("rot", 3)
	var targets []string
	in := make([]bool, n)
	for i := 0; i < k; i++ {
		j := (i*5 + rot) % n
		targets = append(targets, "ARGS_GET:n"+strconv.Itoa(j))
		in[j] = true
	}
	add := func(at int, s string) {
		at = at % (len(targets) + 1)
		targets = append(targets[:at], append([]string{s}, targets[at:]...)...)
	}
	at := rt.Choose("at", 7) * 2
	var want []string
	switch rt.Choose("extra", 8) {
	case 6: // none of the collection
		add(at, "!ARGS_GET")
		in = make([]bool, n)
	case 7:
		add(at, "ARGS_GET")
		add(at+3, "!ARGS_GET")
		add(at+5, "&ARGS_GET:n3")
		want = append(want, "1")
		in = make([]bool, n)
	case 1: // all of the collection as well
		add(at, "ARGS_GET")
		for i := range in {
			in[i] = true
		}
	case 2:
		add(at, "!ARGS_GET:n3")
		in[3] = false
	case 3:
		add(at, "!ARGS_GET:/^n1/")
		in[1], in[10], in[11] = false, false, false
	case 4:
		add(at, "&ARGS_GET:/^n1/")
		add(at+3, "&ARGS_GET")
		want = append(want, "3", "12")
	case 5:
		add(at, "ARGS_GET:/[5-9]$/")
		for i := 5; i < 10; i++ {
			in[i] = true
		}
		add(at+5, "!ARGS_GET:n7")
		in[7] = false
	}
	add(at+1, "REQUEST_METHOD")
	want = append(want, "GET")
	if l := []int{0, 1, 40, 63, 64, 130, 300}[rt.Choose("long", 7)]; l > 0 {
		// a member of a long name, one that differs from it at its end is left out
		name := strings.Repeat("m", l)
		query += "&" + name + "=L&" + name + "m=M"
		add(at+2, "ARGS_GET:"+name)
		if whole, none := hasString(targets, "ARGS_GET"), hasString(targets, "!ARGS_GET"); !none {
			want = append(want, "L")
			if whole {
				want = append(want, "M")
			}
		}
		if hasString(targets, "&ARGS_GET") {
			want = replaceOne(want, "12", "14")
		}
	}
	for i := range in {
		if in[i] {
			want = append(want, "v"+strconv.Itoa(i))
		}
	}
	e := secEngine("SecRule " + strings.Join(targets, []string{"|", ","}[rt.Choose("sep", 2)]) + " x \"id:1,phase:2\"\n")
	got := theRule(e).FetchAllTransformedVariables(secTx(e, query))
	rt.Assert(sameSet(got, want), "a rule must inspect what its target list names")
}

// HSecManyDirectives: the last of many directives of each kind holds; rules keep
// their order.
func HSecManyDirectives() {
	n := []int{11, 30}[rt.Choose("n", 2)]
	odd := rt.Choose("odd", n)
	kind := rt.Choose("kind", 5)
	value := rt.Choose("value", 3)
	cut := []int{0, n / 2, n}[rt.Choose("cut", 3)]
	texts := []string{"", ""}
	status, req, res := -1, false, false
	var ids []string
	for i := 0; i < n; i++ {
		k, v := i%4, (i/4)%3
		if i == odd {
			k, v = kind, value
		}
		d := ""
		switch k {
		case 0:
			d = "SecRuleEngine " + []string{"On", "Off", "DetectionOnly"}[v]
			status = v
		case 1:
			req = v != 1
			d = "SecRequestBodyAccess " + []string{"On", "Off", "ON"}[v]
		case 2:
			res = v != 1
			d = "SecResponseBodyAccess " + []string{"on", "Off", "On"}[v]
		case 3:
			d = "SecRule REQUEST_METHOD \"@rx GET\" \"id:" + strconv.Itoa(i) + ",phase:2,msg:'m" + strconv.Itoa(i) + "',log\""
			ids = append(ids, "m"+strconv.Itoa(i))
		case 4:
			d = "\n  \t"
		}
		j := 0
		if i >= cut {
			j = 1
		}
		texts[j] += d + "\n"
	}
	e := secEngine(texts[0], texts[1])
	rt.Assert(e.RequestBodyAccess == req && e.ResponseBodyAccess == res, "the last body access directive must hold")
	rt.Assert(e.DetectionOnly == (status == 2) && (e.Enabled == (status == 0)), "the last engine directive must hold")
	rt.Assert(len(e.RuleSet.Phases[2]) == len(ids), "every rule must be added once")
	t := secTx(e, "")
	t.ProcessRequestHeader(nil)
	l := t.Result().Log
	want := len(ids)
	if status == 1 {
		want = 0
	}
	rt.Assert(len(l) == want, "every rule must run unless the engine is off")
	for i, r := range e.RuleSet.Phases[2] {
		rt.Assert(r.Id == 0 || ids[i] == "m"+strconv.Itoa(r.Id), "rules must stand in the order written")
	}
}

// HParseLong: strings longer than any buffer, with something special at any place
// near its end.
func HParseLong() {
	at := []int{60, 4080, 8180}[rt.Choose("size", 3)] + rt.Choose("off", rt.Bound(24, 32))
	toks := []struct{ in, out string }{{"\\\"", "\""}, {"\\\\", "\\"}, {"\\\n", "\n"}, {"\\\r\n", "\n"}, {"\\n", "\n"}, {"'", "'"}, {"\x00", "\x00"}, {"\xff", "\xff"}}
	k := rt.Choose("tok", len(toks)+1)
	in, out := "", ""
	if k == len(toks) {
		c := rt.Str("c", 1)
		rt.Assume(c != "\"" && c != "\\" && c != "\n" && c != "\r")
		in, out = c, c
	} else {
		in, out = toks[k].in, toks[k].out
	}
	const pre = "SecRule ARGS \"@rx "
	fill := strings.Repeat("a", at-len(pre))
	text := pre + fill + in + "b\" \\\n id:7\nSecRuleEngine On\n"
	ds, err := parseAll(text)
	rt.Assert(err == nil && len(ds) == 2, "a long string must be accepted")
	r := ds[0].(*parser.RuleDirective)
	rt.Assert(r.Operator.Argument == fill+out+"b", "a long string must be read back exactly")
	rt.Assert(r.Actions.Id == 7 && ds[1].Token() == parser.TkDirRuleEng, "what follows a long string must be read next")
}

// HParseBoundary: the separators of a configuration at any distance from its start.
func HParseBoundary() {
	at := 4070 + rt.Choose("off", rt.Bound(40, 60))
	sep := []string{"\\\r\n", "\\\n", " \\\n\t", "\t"}[rt.Choose("sep", 4)]
	pad := strings.Repeat([]string{" ", "\n", " \n"}[rt.Choose("pad", 3)], at)[:at]
	nl := []string{"\r\n", "\n"}[rt.Choose("nl", 2)]
	text := pad + "\nSecRule" + " " + sep + "ARGS " + sep + "'x' " + sep + "id:1" + nl + "SecRuleEngine " + sep + "Off" + nl
	ds, err := parseAll(text)
	rt.Assert(err == nil && len(ds) == 2, "every directive must be read")
	rt.Assert(ds[0].(*parser.RuleDirective).Actions.Id == 1 && ds[1].(*parser.TriBoolArgDirective).Value == parser.TriBoolFalse, "directives must be read as written")
}

// HParseActionsMany: a rule with many actions.
func HParseActionsMany() {
	n := []int{9, 22}[rt.Choose("n", 2)]
	odd := rt.Choose("odd", n)
	c := rt.Str("c", 1)
	rt.Assume(c != "'" && c != "\"" && c != "\\" && c != "\n" && c != "\r")
	var parts []string
	var acts []parser.Action
	var trs []int
	for i := 0; i < n; i++ {
		arg := "a " + strconv.Itoa(i) + ",b:c"
		if i == odd {
			arg = "x" + c + "y"
		}
		switch i % 5 {
		case 0, 3:
			parts = append(parts, "msg:'"+arg+"'")
			acts = append(acts, parser.Action{Tk: parser.TkActionMsg, Argument: "'" + arg + "'"})
		case 1:
			parts = append(parts, "tag:'"+arg+"'")
			acts = append(acts, parser.Action{Tk: parser.TkActionTag, Argument: "'" + arg + "'"})
		case 2:
			parts = append(parts, "t:lowercase")
			trs = append(trs, parser.TkTransLowercase)
		case 4:
			parts = append(parts, "log")
			acts = append(acts, parser.Action{Tk: parser.TkActionLog})
		}
	}
	parts = append(parts, "id:31337", "phase:4")
	ds, err := parseAll("SecRule ARGS x \"" + strings.Join(parts, []string{",", ", ", ",\\\n\t"}[rt.Choose("sep", 3)]) + "\"\n")
	rt.Assert(err == nil && len(ds) == 1, "a long list of actions must be accepted")
	a := ds[0].(*parser.RuleDirective).Actions
	rt.Assert(a.Id == 31337 && a.Phase == 4, "id and phase must be read as written")
	rt.Assert(len(a.Action) == len(acts) && len(a.Trans) == len(trs), "every action must be read once")
	for i := range acts {
		rt.Assert(*a.Action[i] == acts[i], "an action must be read as written, in order")
	}
}

// HParseVariablesMany: a rule with many targets of every kind.
func HParseVariablesMany() {
	odd := rt.Choose("odd", len(varNames))
	rot := rt.Choose("rot", 3)
	c := rt.Str("c", 1)
	rt.Assume(c != "\"" && c != "\\" && c != "\n" && c != "\r" && c != "," && c != "|")
	text := ""
	sel := make([]string, len(varNames))
	for i, name := range varNames {
		if i > 0 {
			text += string(",|"[(i/2)%2])
		}
		text += []string{"", "!", "&"}[(i+rot)%3] + name
		if i == odd {
			sel[i] = "s" + c
			text += ":" + sel[i]
		} else if i%3 == 1 {
			sel[i] = "/^k" + strconv.Itoa(i) + ".*:x$/"
			text += ":" + sel[i]
		}
	}
	ds, err := parseAll("SecRule \"" + text + "\" x id:1\n")
	rt.Assert(err == nil && len(ds) == 1, "a long list of targets must be accepted")
	vs := ds[0].(*parser.RuleDirective).Variable
	rt.Assert(len(vs) == len(varNames), "every target must be read once")
	for i, v := range vs {
		rt.Assert(v.Tk == varTokens[i] && v.Index == sel[i] && v.Exclusion == ((i+rot)%3 == 1) && v.Count == ((i+rot)%3 == 2), "a target must be read as written, in order")
	}
}

// HParseInside: arbitrary text inside each part of a rule; what loads can be used.
func HParseInside() {
	parts := [][2]string{{"SecRule ARGS:", " x id:1"}, {"SecRule ARGS:/", "/ x id:1"}, {"SecRule ARGS|!ARGS:", " x id:1"}, {"SecRule &ARGS.", " x id:1"}, {"SecRule ARGS \"@", "\" id:1"},
		{"SecRule ARGS \"@eq ", "\" id:1"}, {"SecRule ARGS \"!", "\" id:1"}, {"SecRule ARGS x \"id:1,", "\""}, {"SecRule ARGS x \"id:1,msg:", ",log\""}, {"SecRule ARGS x \"t:", ",id:1\""},
		{"SecRule ARGS x \"id:1,skip:", "\""}, {"SecRule ARGS x \"id:1,allow:", "\""}, {"SecRule ARGS x \"id:1,chain", "\"\nSecRule ARGS y log"}, {"SecRule ", " x id:1"}, {"SecRule ARGS ", " id:1"}}
	p := parts[rt.Choose("part", len(parts))]
	text := p[0] + rt.StrUpTo("s", rt.Bound(2, 3)) + p[1] + "\n"
	parseText(text)
	rs, err := seclang.NewDireSetFromSecLangString(text)
	if err != nil {
		return
	}
	e := modsecurity.NewEngine()
	e.TmpPath = rt.TempDir()
	rt.Assert(rs.Execute(e) == nil, "what loads must execute")
	t := secTx(e, "a=1&x=y")
	for _, p := range allPhases {
		callPhase(t, p)
	}
	t.Result()
}

// hide writes payload in one of the ways a client may encode it, which decoding
// and lower-casing undo.
func hide(payload string) string {
	s := ""
	at := rt.Choose("at", len(payload)+1)
	upper := rt.Choose("upper", 2) == 1
	for i := 0; i < len(payload); i++ {
		c := payload[i]
		if upper && c >= 'a' && c <= 'z' {
			c -= 32
		}
		if i == at || at == len(payload) {
			d := hexDigit(c & 15)
			if d >= 'a' {
				d = rt.Alpha("hex", 1, string([]byte{d, d - 32}))[0]
			}
			s += "%" + string([]byte{hexDigit(c >> 4), d})
		} else {
			s += string([]byte{c})
		}
	}
	return s
}

func hexDigit(n byte) byte { return "0123456789abcdef"[n] }

// HAttack: a rule over several parts of a request denies the requests that carry what
// it looks for in any of them, and no others.
func HAttack() {
	const payload = "<evil>"
	rules := "SecRuleEngine On\nSecRequestBodyAccess On\n" +
		"SecRule " + []string{"ARGS|ARGS_NAMES", "ARGS_NAMES|ARGS"}[rt.Choose("order", 2)] + "|REQUEST_COOKIES|!REQUEST_COOKIES:skip|REQUEST_HEADERS:X-Note|REQUEST_FILENAME \"@rx <evil>\" \\\n" +
		" \"id:1,phase:3,t:urlDecode,t:lowercase,status:418,msg:'a, b',log,deny\"\n" +
		"SecRule REQUEST_METHOD \"@rx .\" \"id:2,phase:3,log\"\n"
	e := secEngine(rules)
	t, err := e.NewTransaction()
	rt.Assert(err == nil, "a transaction must be created")
	where := rt.Choose("where", 11)
	hn := rt.Choose("harmless", 6)
	harmless := []string{"", "evil", "<evi", "l>", "<ev il", "\x00"}[hn] + rt.Alpha("h", 1, "a<>; ")
	around := [...]string{"", "q, ", "/a=b:", "\"'", "%00", "%0d%0a"}[hn]
	bad := around + hide(payload) + around
	pick := func(i int) string {
		if i == where {
			return bad
		}
		return url.QueryEscape(harmless)
	}
	u := &url.URL{Path: "/p/q", RawQuery: "a=" + pick(0) + "&" + pick(1) + "=2&c=" + harmless[:len(harmless)-1]}
	if where == 10 { // the same name elsewhere does not hide it
		u.RawQuery += "&name=1"
	}
	if where == 2 {
		u.Path = "/p/" + strings.ToUpper(payload)
	}
	t.ProcessConnection("c", "1", "s", "2")
	t.ProcessRequestURL(u, "POST", "HTTP/1.1")
	h := http.Header{"X-Note": {"one", pick(3)}, "X-Other": {pick(4)}}
	h["Cookie"] = []string{"a=" + pick(5) + "; skip=" + pick(6), "b=1"}
	body := "x=" + url.QueryEscape(harmless) + "&y=" + pick(7) + "&" + pick(8)
	if where == 10 {
		body += "&name=" + bad
	}
	h["Content-Type"] = []string{"application/x-www-form-urlencoded"}
	multi := rt.Choose("multipart", 2) == 1
	if multi {
		h["Content-Type"] = []string{"multipart/form-data; boundary=bd"}
		body = multipartBody([]pair{{"x", "1"}, {"y", pick(7)}, {"n", pick(8)}, {"name", pick(10)}}, "bd", "\r\n")
	}
	t.ProcessRequestHeader(h)
	rt.Assert(!t.Result().Disruptive, "a rule must not decide before its phase")
	rt.Assert(appendPieces2(t, body) == nil, "the body must be accepted")
	t.ProcessRequestBody()
	r := t.Result()
	attack := where != 4 && where != 6 && where != 9
	rt.Assert(r.Disruptive == attack, "exactly the requests that carry what the rule looks for must be denied")
	if attack {
		rt.Assert(r.Status == 418 && len(r.Log) == 2, "a denial must have the rule's status and be logged")
	} else {
		rt.Assert(r.Status == 200 && len(r.Log) == 1, "a request that is not denied must go on to the next rule")
	}
}

func appendPieces2(t *modsecurity.Transaction, body string) error {
	i := len(body) / 2
	if err := t.AppendRequestBody([]byte(body[:i])); err != nil {
		return err
	}
	return t.AppendRequestBody([]byte(body[i:]))
}

// HParseLines: the scanner's line number is that of the line it has reached.
func HParseLines() {
	nl := []string{"\n", "\r\n", "\r"}[rt.Choose("nl", 3)]
	line := 1
	pad, wrap := rt.Choose("pad", 4), rt.Choose("wrap", 3)
	s := ""
	add := func(t string, lines int) { s += t; line += lines }
	var at []int
	blank := func() {
		for i, n := 0, rt.Choose("blank", 3); i < n; i++ {
			add([]string{"", " \t", "\f", "\x00"}[pad]+nl, 1)
		}
	}
	gap := func() {
		if wrap == 0 || wrap == 1 && len(at) == 0 {
			add(" \\"+nl+"\t", 1)
		} else {
			add(" ", 0)
		}
	}
	blank()
	for i, n := 0, 1+rt.Choose("n", 2); i < n; i++ {
		if rt.Choose("kind", 2) == 0 {
			add("SecRuleEngine", 0)
			gap()
			add([]string{"On", "'On'"}[rt.Choose("value", 2)], 0)
		} else {
			add("SecRule ARGS", 0)
			gap()
			c := rt.Str("c", 1)
			rt.Assume(c != "\"" && c != "\\" && c != "\n" && c != "\r")
			k := rt.Choose("inside", 3)
			add("\"x"+strings.Repeat("\\"+nl, k)+c+"\"", k)
			gap()
			add([]string{"\"id:1\"", "id:1", "\"id:1,\\" + nl + "log\""}[k], k/2)
		}
		at = append(at, line)
		add(nl, 1)
		blank()
	}
	sc := parser.NewSecLangScannerFromString(s)
	rt.Assert(sc.LineNumber == 1, "a text begins at line 1")
	for _, want := range at {
		_, err := sc.ReadDirective()
		rt.Assert(err == nil, "a directive must be read")
		rt.Assert(sc.LineNumber == want, "the line number must be that of the end of the directive")
	}
	_, err := sc.ReadDirective()
	rt.Assert(err == parser.ErrEOS && sc.LineNumber == line, "the line number must be that of the end of the text")
}
