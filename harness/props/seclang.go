package props

import (
	"net/http"
	"net/url"
	"strconv"

	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
	"github.com/senghoo/modsecurity-go/modsecurity/transforms"
	"github.com/senghoo/modsecurity-go/modsecurity/variables"
	"github.com/senghoo/modsecurity-go/seclang"

	"verif/harness/rt"
)

// secEngine is an engine configured by the given SecLang texts, loaded in order.
func secEngine(texts ...string) *modsecurity.Engine {
	e := modsecurity.NewEngine()
	e.TmpPath = rt.TempDir()
	ds := seclang.NewDireSet()
	for _, s := range texts {
		rt.Assert(ds.AddSecLangString(s) == nil, "a valid configuration must be accepted")
	}
	rt.Assert(ds.Execute(e) == nil, "a valid configuration must be applied")
	return e
}

func secTx(e *modsecurity.Engine, query string) *modsecurity.Transaction {
	t, err := e.NewTransaction()
	rt.Assert(err == nil, "a transaction must be created")
	t.ProcessRequestURL(&url.URL{Path: "/", RawQuery: query}, "GET", "HTTP/1.1")
	return t
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// theRule is the only rule of e.
func theRule(e *modsecurity.Engine) *modsecurity.SecRule {
	var r *modsecurity.SecRule
	n := 0
	for p := modsecurity.PhaseBegin; p <= modsecurity.PhaseEnd; p++ {
		for _, x := range e.RuleSet.Phases[p] {
			r = x
			n++
		}
	}
	rt.Assert(n == 1, "one rule must be configured")
	return r
}

// HSecChain: rules linked by chain act as one rule of the first one's phase, whose
// actions run iff every rule of it matches.
func HSecChain() {
	n := 1 + rt.Choose("rules", rt.Bound(4, 6))
	phase := 1 + rt.Choose("phase", rt.Bound(2, 5))
	text := []string{"", ""}
	query := ""
	var want []string
	group, size, all, load := 0, 0, true, 0
	cut := rt.Choose("cut", rt.Bound(2, 4)) // groups after this one are loaded separately
	between := rt.Choose("between", n+1)    // another directive before this rule
	named := rt.Choose("named", n)          // a later rule that names a phase of its own
	other := []int{5, phase%5 + 1, phase%5 + 1}[(named+phase)%3]
	what := (between + named) % 3
	for i := 0; i < n; i++ {
		if i == between {
			text[load] += []string{"SecRequestBodyAccess On\n", "SecResponseBodyAccess On\n", "SecRuleEngine On\n"}[what]
		}
		chained := i < n-1 && rt.Choose("chain", 2) == 1
		m := rt.Alpha("match", 1, "01")
		d := strconv.Itoa(i)
		if i > 0 {
			query += "&"
		}
		query += "p" + d + "=" + m
		acts := "log"
		if size == 0 {
			acts = "id:" + d + ",phase:" + strconv.Itoa(phase) + ",log"
		} else if i == named {
			acts += ",phase:" + strconv.Itoa(other)
		}
		if chained {
			acts += ",chain"
		}
		text[load] += "SecRule ARGS_GET:p" + d + " \"@eq 1\" \"" + acts + "\"\n"
		all = all && m == "1"
		size++
		if !chained {
			if all {
				for j := 0; j < size; j++ {
					want = append(want, "[client :] (phase "+strconv.Itoa(phase)+") ModSecurity: running action in phase "+strconv.Itoa(phase)+" rule "+strconv.Itoa(group))
				}
			}
			if group == cut {
				load = 1
			}
			group++
			size, all = 0, true
		}
	}
	e := secEngine(text[0], text[1])
	rt.Assert(e.RequestBodyAccess == (between < n && what == 0) && e.ResponseBodyAccess == (between < n && what == 1), "a directive between rules must hold")
	t := secTx(e, query)
	t.ProcessPhase(phase)
	rt.Assert(sameStrings(t.Result().Log, want), "a chain must run its actions exactly when all its rules match")
}

// HSecFlow: matching rules run in the order written; skip passes over as many rules
// as it says, a denial ends it.
func HSecFlow() {
	n := 1 + rt.Choose("rules", rt.Bound(4, 5))
	skips := []struct {
		text string
		n    int
	}{{"skip", 1}, {"skip:2", 2}, {"skip:0", 0}, {"skip:128", n}, {"skip:4294967296", n}, {"skip:'1'", 1}, {"skip:9223372036854775807", n}, {"skip:256", n}, {"skip:65535", n}}
	tried := len(skips)
	if n > 3 {
		tried = 5
	}
	text, query := "", ""
	kind, skip := make([]int, n), make([]int, n)
	match := make([]bool, n)
	for i := 0; i < n; i++ {
		d := strconv.Itoa(i)
		m := rt.Alpha("match", 1, "01")
		match[i] = m == "1"
		if i > 0 {
			query += "&"
		}
		query += "p" + d + "=" + m
		acts := "id:" + d + ",phase:1,log"
		kind[i] = rt.Choose("kind", 3)
		switch kind[i] {
		case 1:
			k := skips[rt.Choose("skip", tried)]
			acts += "," + k.text
			skip[i] = k.n
		case 2:
			acts += ",deny,status:40" + d
		}
		text += "SecRule ARGS_GET:p" + d + " \"@eq 1\" \"" + acts + "\"\n"
	}
	var want []string
	status := 200
	for i := 0; i < n; i++ {
		if !match[i] {
			continue
		}
		want = append(want, "[client :] (phase 1) ModSecurity: running action in phase 1 rule "+strconv.Itoa(i))
		if kind[i] == 2 {
			status = 400 + i
			want = append(want, "[client :] (phase 1) ModSecurity: Access denied with code 40"+strconv.Itoa(i))
			break
		}
		if skip[i] > n {
			break
		}
		i += skip[i]
	}
	t := secTx(secEngine(text), query)
	t.ProcessPhase(1)
	r := t.Result()
	rt.Assert(sameStrings(r.Log, want), "the rules must run in order, less those skipped, up to the first denial")
	rt.Assert(r.Status == status && r.Disruptive == (status != 200), "the decision must be that of the first denial")
}

// HSecPhase: a rule is evaluated in the phase written, once; without one in phase 2.
func HSecPhase() {
	phases := []struct {
		text string
		want int
	}{
		{"", 2}, {",phase:1", 1}, {",phase:2", 2}, {",phase:3", 3}, {",phase:4", 4}, {",phase:5", 5}, {",phase:'3'", 3},
		{",phase:request", modsecurity.PhaseRequestBody}, {",phase:response", modsecurity.PhaseResponseBody}, {",phase:logging", modsecurity.PhaseLogging},
	}
	p := phases[rt.Choose("phase", len(phases))]
	id := rt.Int("id", 1, 9)
	before := rt.Choose("before", 2)
	acts := "id:" + strconv.Itoa(id) + p.text + ",log"
	if before == 1 && p.text != "" {
		acts = p.text[1:] + ",log,id:" + strconv.Itoa(id)
	}
	e := secEngine("SecRule REQUEST_METHOD \"@rx ^GET$\" \"" + acts + "\"\n")
	rt.Assert(theRule(e).Id == id, "the id must be the one written")
	t := secTx(e, "")
	at, n := 0, 0
	for _, q := range allPhases {
		callPhase(t, q)
		if len(t.Result().Log) > 0 {
			at = q
			n++
		}
	}
	rt.Assert(n == 1, "a rule must be evaluated in one phase")
	if p.text != "" && p.text[len(p.text)-1] >= 'a' {
		rt.Finding("F21-" + p.text[1:])
	}
	rt.Assert(at == p.want, "a rule must be evaluated in the phase written")
}

// HSecTargets: what a rule inspects is the union of what its target list names, minus
// what it excludes; every count stands for itself.
func HSecTargets() {
	x, y, z := rt.Alpha("a", 1, "uvw"), rt.Alpha("b", 1, "uvw"), rt.Alpha("ab", 1, "uvw")
	query := "a=" + x + "&b=" + y + "&ab=" + z
	names := []string{"a", "b", "ab"}
	vals := []string{x, y, z}
	type sel struct {
		text string
		hits []bool
	}
	sels := []sel{{"", []bool{true, true, true}}, {":a", []bool{true, false, false}}, {":/^a/", []bool{true, false, true}}, {":b", []bool{false, true, false}}, {":c", []bool{false, false, false}}}
	sels = sels[:rt.Bound(4, 5)]
	inc := [2][]bool{make([]bool, 3), make([]bool, 3)}
	exc := [2][]bool{make([]bool, 3), make([]bool, 3)}
	named := [2]bool{}
	excluded := [2]bool{}
	method := false
	var counts []string
	list := ""
	sep := []string{"|", ","}[rt.Choose("sep", 2)]
	for i, n := 0, 1+rt.Choose("targets", rt.Bound(3, 4)); i < n; i++ {
		if i > 0 {
			list += sep
		}
		form := rt.Choose("form", 4)
		if form == 3 {
			list += "REQUEST_METHOD"
			method = true
			continue
		}
		col := rt.Choose("col", 2)
		s := sels[rt.Choose("sel", len(sels))]
		list += []string{"", "!", "&"}[form] + []string{"ARGS_GET", "ARGS_GET_NAMES"}[col] + s.text
		k := 0
		for j := range s.hits {
			if s.hits[j] {
				k++
			}
			switch form {
			case 0:
				inc[col][j] = inc[col][j] || s.hits[j]
			case 1:
				exc[col][j] = exc[col][j] || s.hits[j]
			}
		}
		named[col] = named[col] || form == 0
		excluded[col] = excluded[col] || form == 1
		if form == 2 {
			counts = append(counts, strconv.Itoa(k))
		}
	}
	// what an exclusion from something never named means is left open
	rt.Assume((named[0] || !excluded[0]) && (named[1] || !excluded[1]))
	want := counts
	for j := 0; j < 3; j++ {
		if inc[0][j] && !exc[0][j] {
			want = append(want, vals[j])
		}
		if inc[1][j] && !exc[1][j] {
			want = append(want, names[j])
		}
	}
	if method {
		want = append(want, "GET")
	}
	e := secEngine("SecRule " + list + " x \"id:1,phase:2\"\n")
	t := secTx(e, query)
	got := theRule(e).FetchAllTransformedVariables(t)
	rt.Assert(sameSet(got, want), "a rule must inspect what its target list names")
}

var secVarNames = []string{
	"ARGS", "ARGS_NAMES", "ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "QUERY_STRING", "REMOTE_ADDR",
	"REQUEST_BASENAME", "REQUEST_BODY", "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES",
	"REQUEST_FILENAME", "REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "REQUEST_METHOD",
	"REQUEST_PROTOCOL", "REQUEST_URI", "RESPONSE_BODY", "RESPONSE_CONTENT_LENGTH",
	"RESPONSE_CONTENT_TYPE", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES",
	"RESPONSE_PROTOCOL", "RESPONSE_STATUS",
}

// fullTx is a transaction in which every variable has a value of its own.
func fullTx(e *modsecurity.Engine) *modsecurity.Transaction {
	e.RequestBodyAccess, e.ResponseBodyAccess = true, true
	t, err := e.NewTransaction()
	rt.Assert(err == nil, "a transaction must be created")
	w := rt.Alpha("w", 1, "klmn")
	t.ProcessConnection("10.0.0."+strconv.Itoa(rt.Int("ip", 1, 9)), "1234", "10.0.0.2", "80")
	t.ProcessRequestURL(&url.URL{Path: "/d/" + w, RawQuery: "g=1" + w}, "POST", "HTTP/1.0")
	t.ProcessRequestHeader(http.Header{"Content-Type": {"application/x-www-form-urlencoded"}, "Cookie": {"c=2" + w}, "X": {"3" + w}})
	t.AppendRequestBody([]byte("f=4" + w))
	t.ProcessRequestBody()
	t.ProcessResponseHeaders(200+rt.Int("code", 0, 99), "HTTP/1.1", http.Header{"Content-Type": {"5" + w}, "Content-Length": {"7"}, "Y": {"6" + w}})
	t.AppendResponseBody([]byte("8" + w))
	t.ProcessResponseBody()
	return t
}

// HSecVars: every documented variable name stands for the variable of that name.
func HSecVars() {
	i := rt.Choose("var", len(secVarNames)+1)
	if i == len(secVarNames) {
		rt.Finding("F22-XML")
		rt.Assert(seclang.NewDireSet().AddSecLangString("SecRule XML x id:1,phase:2\n") == nil, "a documented variable must be accepted")
		return
	}
	e := secEngine("SecRule " + secVarNames[i] + " x \"id:1,phase:2\"\n")
	r := theRule(e)
	e.RuleSet = modsecurity.NewSecRuleSet()
	t := fullTx(e)
	v := allVars[i]()
	rt.Assert(v.Name() == secVarNames[i] && len(r.Variables) == 1 && r.Variables[0].Name() == v.Name(), secVarNames[i]+" must be the variable of that name")
	got, want := r.FetchAllTransformedVariables(t), v.Fetch(t)
	rt.Assert(len(want) > 0 && sameBag(got, want), secVarNames[i]+" must have the values of that variable")
	count := theRule(secEngine("SecRule &" + secVarNames[i] + " x \"id:1,phase:2\"\n")).FetchAllTransformedVariables(t)
	rt.Assert(sameStrings(count, []string{strconv.Itoa(len(want))}), "&"+secVarNames[i]+" must be the number of values of that variable")
}

// HSecMatch: operator, negation and transformations of a rule are those written.
func HSecMatch() {
	val := rt.Str("val", rt.Bound(2, 3))
	ops := []struct {
		name string
		f    func(string) (modsecurity.Operator, error)
		arg  string
	}{
		{"@eq ", operators.NewOperatorEq, "5"}, {"@gt ", operators.NewOperatorGt, "5"}, {"@ge ", operators.NewOperatorGe, "5"},
		{"@lt ", operators.NewOperatorLt, "5"}, {"@le ", operators.NewOperatorLe, "5"}, {"@rx ", operators.NewOperatorRx, "^a b"}, {"", operators.NewOperatorRx, "A|%"},
	}
	op := ops[rt.Choose("op", len(ops))]
	trs := []struct {
		name string
		f    func() modsecurity.Trans
	}{
		{"lowercase", transforms.NewTransLowerCase}, {"urlDecode", transforms.NewTransUrlDecode}, {"urlDecodeUni", transforms.NewTransUrlDecodeUni},
		{"none", transforms.NewTransNone}, {"compressWhitespace", transforms.NewTransCompressWhitespace}, {"removeWhitespace", transforms.NewTransRemoveWhitespace},
		{"replaceNulls", transforms.NewTransReplaceNulls}, {"removeNulls", transforms.NewTransRemoveNulls},
	}
	want := modsecurity.NewSecRule()
	want.AppendVariables(variables.NewVariableRequestMethod())
	o, err := op.f(op.arg)
	rt.Assert(err == nil, "the operator must be made")
	want.SetOperator(o)
	acts := "id:1,phase:2"
	ntrans := rt.Choose("ntrans", 3)
	if ntrans == 2 && op.name != "" {
		return
	}
	for i, n := 0, ntrans; i < n; i++ {
		k := trs[rt.Choose("trans", len(trs))]
		if i == n-1 && k.name == "none" {
			return // what none does to the ones before it is left open
		}
		acts += ",t:" + k.name
		want.AppendTrans(k.f())
	}
	text := op.name + op.arg
	if rt.Choose("not", 2) == 1 {
		text = "!" + text
		want.Not = true
	}
	e := secEngine("SecRule REQUEST_METHOD \"" + text + "\" \"" + acts + "\"\n")
	r := theRule(e)
	t, err := e.NewTransaction()
	rt.Assert(err == nil, "a transaction must be created")
	t.ProcessRequestURL(&url.URL{Path: "/"}, val, "HTTP/1.1")
	rt.Assert(r.Operator.Name() == o.Name() && r.Operator.Args() == op.arg && r.Not == want.Not, "the operator must be the one written")
	rt.Assert(sameStrings(r.FetchAllTransformedVariables(t), want.FetchAllTransformedVariables(t)), "the transformations must be those written, in order")
	rt.Assert(r.Match(t) == want.Match(t), "a rule must match as its parts say")
}

// HSecMeta: what a rule says about itself is kept, in order, and does nothing.
func HSecMeta() {
	keys := []string{"msg", "tag", "rev", "ver", "logdata", "severity"}
	want := map[string][]string{}
	acts := "id:1,phase:2"
	for i, n := 0, 1+rt.Choose("n", rt.Bound(2, 3)); i < n; i++ {
		k := keys[rt.Choose("key", len(keys))]
		if k == "severity" {
			s := rt.Choose("sev", 3)
			acts += "," + k + ":" + []string{"'CRITICAL'", "5", "DEBUG"}[s]
			want[k] = append(want[k], []string{"2", "5", "7"}[s])
			continue
		}
		v := rt.Str("text", rt.Bound(1, 2))
		for j := range []byte(v) {
			c := v[j]
			rt.Assume(c != '"' && c != '\'' && c != '\\' && c != '\n' && c != '\r')
		}
		acts += "," + k + ":'" + v + "'"
		want[k] = append(want[k], v)
	}
	rules := "SecRule REQUEST_METHOD \"@rx GET\" \"" + acts
	chain := rt.Choose("chain", 2) == 1
	if chain {
		rules += ",chain\"\nSecRule REQUEST_METHOD \"@rx G\" \"msg:'sub',tag:one,tag:two"
	}
	e := secEngine(rules + "\"\n")
	r := theRule(e)
	if chain {
		rt.Assert(len(r.SubRules) == 1, "a chained rule must be part of the rule it is chained to")
		m := r.SubRules[0].MetaData
		rt.Assert(len(m) == 2 && one(m["msg"], "sub") && sameStrings(m["tag"], []string{"one", "two"}), "metadata must be kept as written")
	}
	for _, k := range keys {
		rt.Assert(sameStrings(r.MetaData[k], want[k]), "metadata must be kept as written")
	}
	rt.Assert(len(r.MetaData) == len(want), "metadata must be kept as written")
	t := secTx(e, "")
	t.ProcessRequestHeader(nil)
	res := t.Result()
	rt.Assert(res.Status == 200 && !res.Disruptive && len(res.Log) == 0, "metadata must decide nothing")
}

// HSecAct: the actions of a SecLang rule do what those of a rule made in Go do.
func HSecAct() {
	status := rt.Int("status", 0, 999)
	skip := rt.Choose("skip", 2)
	acts := []struct {
		text    string
		res     int  // decision
		dis     bool // disruptive
		next    bool // the next rule runs
		nextPh  bool // the next phase runs
		respPh  bool // the response phases run
		logging bool // the logging phase runs
		lines   int  // of the first rule
	}{
		{"deny", 403, true, false, false, false, false, 1},
		{"allow", 200, false, false, false, false, true, 0},
		{"allow:phase", 200, false, false, true, true, true, 0},
		{"allow:request", 200, false, false, false, true, true, 0},
		{"log", 200, false, true, true, true, true, 1},
		{"log,log", 200, false, true, true, true, true, 2},
		{"pass", 200, false, true, true, true, true, 0},
		{"log,pass", 200, false, true, true, true, true, 1},
		{"pass,log", 200, false, true, true, true, true, 1},
		{"block", 200, false, true, true, true, true, 0},
		{"skip", 200, false, false, true, true, true, 0},
		{"status:" + strconv.Itoa(status), 200, false, true, true, true, true, 0},
		{"deny,status:" + strconv.Itoa(status), status, true, false, false, false, false, 1},
		{"status:'" + strconv.Itoa(status) + "',log,deny", status, true, false, false, false, false, 2},
		{"setvar:tx.a=1", 0, false, false, false, false, false, 0},
		{"capture", 0, false, false, false, false, false, 0},
	}
	a := acts[rt.Choose("act", len(acts))]
	if a.res == status && (status < 100 || status > 599) {
		a.res = 403
	}
	quote := []string{"\"", "'"}[skip]
	if a.text != "" && contains(a.text, "'") {
		quote = "\""
	}
	first := "SecRule REQUEST_METHOD " + quote + "@rx GET" + quote + " " + quote + "id:1,phase:2," + a.text + quote + "\n"
	if a.text == "capture" || a.text == "setvar:tx.a=1" {
		rt.Finding("F22-" + a.text)
		rt.Assert(seclang.NewDireSet().AddSecLangString(first) == nil, "a documented action must be accepted")
		return
	}
	e := secEngine(first)
	ran := make([]int, modsecurity.PhaseEnd)
	for _, p := range allPhases[1:] {
		p := p
		e.AddSecRule(ruleIf(p, true, &funcAct{modsecurity.ActionGroupNonDisruptive, func(*modsecurity.Transaction) { ran[p]++ }}))
	}
	t := secTx(e, "")
	for _, p := range allPhases {
		callPhase(t, p)
	}
	res := t.Result()
	rt.Assert(res.Status == a.res && res.Disruptive == a.dis, "an action must decide as documented")
	rt.Assert(len(res.Log) == a.lines, "an action must log as documented")
	is := func(p int, want bool) bool { return (ran[p] == 1) == want && (ran[p] == 0) == !want }
	rt.Assert(is(2, a.next) && is(3, a.nextPh) && is(4, a.respPh) && is(5, a.respPh) && is(6, a.logging), "an action must let run what it should")
}

// HSecBlock: block does what the default actions of the rule set are.
func HSecBlock() {
	e := secEngine("SecRule REQUEST_METHOD \"@rx GET\" \"id:1,phase:2,block\"\n")
	var trace, want []int
	for i, n := 0, rt.Choose("n", rt.Bound(3, 4)); i < n; i++ {
		e.RuleSet.AddDefaultActions(mark(&trace, i))
		want = append(want, i)
	}
	t := secTx(e, "")
	t.ProcessRequestHeader(nil)
	rt.Assert(sameInts(trace, want), "block must run the default actions, each once, in order")
}

// HSecEngine: of several directives of a kind the last one holds; they affect nothing
// else.
func HSecEngine() {
	status, req, res := -1, false, false
	texts := []string{"", ""}
	rules := 0
	load := 0
	for i, n := 0, rt.Choose("n", rt.Bound(4, 5)); i < n; i++ {
		d := ""
		switch rt.Choose("dir", 4) {
		case 0:
			status = rt.Choose("status", 3)
			d = "SecRuleEngine " + []string{"On", "Off", "DetectionOnly"}[status]
		case 1:
			on := rt.Choose("on", 2)
			req = on == 1
			d = "SecRequestBodyAccess " + []string{"Off", "On"}[on]
		case 2:
			on := rt.Choose("on", 2)
			res = on == 1
			d = "SecResponseBodyAccess " + []string{"Off", "On"}[on]
		case 3:
			rules++
			d = "SecRule REQUEST_METHOD \"@rx GET\" \"id:1,phase:2,log,deny\""
		}
		texts[load] += d + "\n"
		if load == 0 && rt.Choose("cut", 2) == 1 {
			load = 1
		}
	}
	e := modsecurity.NewEngine()
	e.TmpPath = rt.TempDir()
	mem, body, resp, dir, rs := rt.Int64("mem"), rt.Int64("body"), rt.Int64("resp"), e.TmpPath, e.RuleSet
	e.RequestBodyInMem, e.RequestBody, e.ResponseBody = mem, body, resp
	ds := seclang.NewDireSet()
	for _, s := range texts {
		rt.Assert(ds.AddSecLangString(s) == nil, "a valid configuration must be accepted")
	}
	rt.Assert(ds.Execute(e) == nil, "a valid configuration must be applied")
	rt.Assert(e.RequestBodyInMem == mem && e.RequestBody == body && e.ResponseBody == resp && e.TmpPath == dir && e.RuleSet == rs, "a directive must change nothing else")
	rt.Assert(e.RequestBodyAccess == req && e.ResponseBodyAccess == res, "the last body access directive must hold")
	switch status {
	case 0:
		rt.Assert(e.Enabled && !e.DetectionOnly, "the last engine directive must hold")
	case 1:
		rt.Assert(!e.Enabled && !e.DetectionOnly, "the last engine directive must hold")
	case 2:
		rt.Assert(!e.Enabled && e.DetectionOnly, "the last engine directive must hold")
	}
	rt.Assert(len(e.RuleSet.Phases[2]) == rules, "every rule must be added once")
	t := secTx(e, "")
	t.ProcessRequestHeader(nil)
	r := t.Result()
	deny := rules > 0 && (status == 0 || status == -1)
	rt.Assert(r.Disruptive == deny, "a rule must decide exactly when the engine is on")
	lines := 0
	if deny {
		lines = 2
	} else if status == 2 {
		lines = rules
	}
	rt.Assert(len(r.Log) == lines, "a rule must be evaluated unless the engine is off")
}

// HSecTrans: a transformation given more than once applies more than once, where it
// stands in the list.
func HSecTrans() {
	vals := []string{"%2525253c", "A%252541+%2b", "a %2520%250a b", "\x00%2500\x00", "%u0025u0041"}
	val := vals[rt.Choose("val", len(vals))] + rt.StrUpTo("tail", 1)
	trs := []struct {
		name string
		f    func() modsecurity.Trans
	}{
		{"urlDecode", transforms.NewTransUrlDecode}, {"lowercase", transforms.NewTransLowerCase}, {"urlDecodeUni", transforms.NewTransUrlDecodeUni},
		{"removeNulls", transforms.NewTransRemoveNulls}, {"compressWhitespace", transforms.NewTransCompressWhitespace}, {"replaceNulls", transforms.NewTransReplaceNulls},
	}
	want := modsecurity.NewSecRule()
	want.AppendVariables(variables.NewVariableRequestMethod())
	acts := "id:1"
	for i, n := 0, rt.Choose("n", rt.Bound(5, 6)); i < n; i++ {
		k := trs[rt.Choose("trans", rt.Bound(3, len(trs)))]
		acts += ",t:" + k.name
		if i == 1 {
			acts += ",log"
		}
		want.AppendTrans(k.f())
	}
	e := secEngine("SecRule REQUEST_METHOD x \"" + acts + "\"\n")
	r := theRule(e)
	t, err := e.NewTransaction()
	rt.Assert(err == nil, "a transaction must be created")
	t.ProcessRequestURL(&url.URL{Path: "/"}, val, "HTTP/1.1")
	rt.Assert(sameStrings(r.FetchAllTransformedVariables(t), want.FetchAllTransformedVariables(t)), "the transformations must be those written, in order")
}

// HSecReject: a configuration with a mistake anywhere is refused as a whole.
func HSecReject() {
	good := []string{"SecRuleEngine Off\n", "SecRule ARGS x id:1,phase:2,deny\n", "SecRequestBodyAccess On\n", "SecRule ARGS x id:1,chain\nSecRule ARGS y log\n"}
	bad := []string{
		"SecRule ARGS \"@rx (\" id:1,phase:2,deny\n", "SecRule ARGS x id:1,phase:2,status:x,deny\n", "SecRule ARGS x id:x,phase:2,deny\n",
		"SecRule ARGS x id:1,phase:9,deny\n", "SecRule ARGS x id:1,phase:2,t:nosuch\n", "SecRule ARGS x id:1,phase:2,nosuch\n",
		"SecRule NOSUCH x id:1,phase:2\n", "SecRule ARGS @nosuch id:1,phase:2\n", "SecNoSuch On\n", "SecRuleEngine Maybe\n",
		"SecRequestBodyAccess DetectionOnly\n", "SecRule ARGS x id:1,phase:2,skip:x\n", "SecRule ARGS x id:1,phase:2,skip:-1\n",
		"SecRule ARGS:/(/ x id:1,phase:2\n", "SecRule ARGS x\n", "SecRule ARGS\n", "SecRule\n",
		"SecRule ARGS x id:1,severity:8\n", "SecRule ARGS||ARGS_GET x id:1\n", "SecRule ARGS| x id:1\n", "SecRule |ARGS x id:1\n", "SecRule ARGS, x id:1\n", "SecRule ! x id:1\n", "SecRule & x id:1\n", "SecRule !&ARGS x id:1\n",
		"SecRule ARGS \"!@rx (\" id:1\n", "SecRule ARGS \"!!@eq 1 (\" id:1\n", "SecSecRuleEngine On\n", "SecRuleEngineOn\n", "ModSecRule ARGS x id:1\n", "SecRule ARGS x \"id:1,,deny\"\n", "SecRule ARGS x \"id:1,phase:2\n",
		"SecRule ARGS x \"id:1\\", "SecRule ARGS x 'id:1\\", "SecRule \"ARGS\\", "SecRule ARGS \"x\\",
		"SecRule !ARGS:/(/ x id:1,phase:2\n", "SecRule ARGS \"!\" id:1,phase:2\n", "SecRule ARGS \"\" id:1,phase:2\n",
		"SecRule ARGS \"@eq x\" id:1\n", "SecRule ARGS @gt id:1\n", "SecRule ARGS \"@le 1 2\" id:1\n", "SecRule ARGS @ id:1\n",
		"SecRule ARGS x status\n", "SecRule ARGS x status:\n", "SecRule ARGS x \"status:''\"\n", "SecRule ARGS x phase:0\n", "SecRule ARGS x phase:-1\n", "SecRule ARGS x phase\n",
		"SecRule ARGS x id\n", "SecRule ARGS x severity\n", "SecRule ARGS x severity:-1\n", "SecRule ARGS x t\n", "SecRule ARGS x t:\n", "SecRule ARGS x \"id:1, ,deny\"\n", "SecRule ARGS x \"deny,\"\n",
		"SecRule ARGS x phase:requests\n", "SecRule ARGS x phase:loggings\n", "SecRule ARGS x phase:reques\n", "SecRule ARGS x phase:22\n", "SecRule ARGS x phase:02x\n",
		"SecRule ARGS/a x id:1\n", "SecRule ARGS=a x id:1\n", "SecRule ARGS[a] x id:1\n", "SecRule ARGS; x id:1\n", "SecRule ARG x id:1\n", "SecRule ARGSS x id:1\n",
		"SecRule &!ARGS x id:1\n", "SecRule !!ARGS x id:1\n", "SecRule &&ARGS x id:1\n", "SecRule ARGS|!&ARGS:a x id:1\n",
		"SecRule ARGS \"@rx\" id:1\nSecRule\n", "SecRule ARGS x id:1 id:2\n", "SecRuleEngine On Off\n", "SecRuleEngine\n", "SecRequestBodyAccess\n",
	}
	text := ""
	k := rt.Choose("at", rt.Bound(2, 3))
	n := k + rt.Choose("after", 2)
	for i := 0; i < n+1; i++ {
		if i == k {
			text += bad[rt.Choose("bad", len(bad))]
		} else {
			text += good[rt.Choose("good", len(good))]
		}
	}
	ds, err := seclang.NewDireSetFromSecLangString(text)
	rt.Assert(err != nil, "a mistake must be reported: "+text)
	rt.Assert(ds == nil, "a refused configuration must not be handed out")

	// as an addition to a loaded configuration
	set := seclang.NewDireSet()
	first := rt.Choose("first", 3)
	loaded := []string{"", "SecRuleEngine DetectionOnly\nSecRule ARGS x id:1,phase:2,deny\n", "SecResponseBodyAccess On\nSecRule ARGS x id:1,phase:2,chain\nSecRule ARGS y log\n"}[first]
	rt.Assert(set.AddSecLangString(loaded) == nil, "a configuration must load")
	rt.Assert(set.AddSecLangString(text) != nil, "a mistake must be reported: "+text)
	e := modsecurity.NewEngine()
	rt.Assert(set.Execute(e) == nil, "a loaded configuration must execute")
	rt.Assert(e.DetectionOnly == (first == 1), "a refused addition must change nothing")
	rt.Assert(!e.RequestBodyAccess, "a refused addition must change nothing")
	rt.Assert(e.ResponseBodyAccess == (first == 2), "a refused addition must change nothing")
	rules := 0
	for _, rs := range e.RuleSet.Phases {
		rules += len(rs)
	}
	want := 1
	if first == 0 {
		want = 0
	}
	rt.Assert(rules == want, "a refused addition must add no rule")
}
