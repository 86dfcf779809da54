package props

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
	"github.com/senghoo/modsecurity-go/modsecurity/transforms"
	"github.com/senghoo/modsecurity-go/modsecurity/variables"
	"github.com/senghoo/modsecurity-go/seclang/parser"

	"verif/harness/rt"
)

// The properties at sizes beyond any fixed limit an implementation may have in it:
// thousands of rules and members, texts of many kilobytes. One part of each is
// arbitrary.

// huge is a size.
func huge(sizes ...int) int {
	rt.Steps(150)
	return sizes[rt.Choose("size", len(sizes))]
}

// plain is ruleIf without an id.
func plain(phase int, match bool, as ...modsecurity.Action) *modsecurity.SecRule {
	r := modsecurity.NewSecRule()
	r.Phase = phase
	r.AppendVariables(&listVar{[]string{"v"}})
	r.SetOperator(funcOp(func(*modsecurity.Transaction, string) bool { return match }))
	r.AppendActions(as...)
	return r
}

// HRuleHuge: values by the thousand, in one variable or each in its own; one may match.
func HRuleHuge() {
	n := huge(rt.Bound(12000, 40000), 300)
	at := []int{n - 1, n / 2, 0, 257}[rt.Choose("at", 4)]
	r := modsecurity.NewSecRule()
	r.Phase = modsecurity.PhaseRequestHeaders
	odd := rt.Str("odd", 1)
	var vals []string
	for i := 0; i < n; i++ {
		v := "w"
		if i == at {
			v = odd
		}
		vals = append(vals, v)
	}
	switch rt.Choose("shape", 3) {
	case 0:
		r.AppendVariables(&listVar{vals})
	case 1:
		for i := range vals {
			r.AppendVariables(&listVar{vals[i : i+1]})
		}
	case 2:
		r.AppendVariables(&listVar{vals[:n/2]}, &listVar{}, &listVar{vals[n/2:]})
	}
	tail := ""
	for i, nt := 0, []int{0, 1, 40}[rt.Choose("ntrans", 3)]; i < nt && n < 1000; i++ {
		c := string([]byte{byte('a' + i%26)})
		tail += c
		r.AppendTrans(funcTrans(func(s string) string { return s + c }))
	}
	long := ""
	if n < 1000 { // long values, and a rule that looks for another
		long = strings.Repeat("l", 7500*rt.Choose("long", 3))
		r.Not = rt.Choose("not", 2) == 1
	}
	for i := range vals {
		if i == at || !r.Not {
			vals[i] = long + vals[i]
		} else {
			vals[i] = long + "h"
		}
	}
	want := long + "h" + tail
	r.SetOperator(funcOp(func(_ *modsecurity.Transaction, s string) bool { return s == want }))
	fired := 0
	r.AppendActions(&funcAct{modsecurity.ActionGroupNonDisruptive, func(*modsecurity.Transaction) { fired++ }})
	rs := modsecurity.NewSecRuleSet()
	rs.AddRules(r)
	t := newTx(rs)
	t.ProcessRequestHeader(nil)
	rt.Assert(fired == 0 || fired == 1, "a rule must fire at most once per evaluation")
	rt.Assert((fired == 1) == ((odd == "h") != r.Not), "a rule must fire exactly when one of its values matches")
}

// HChainHuge: a chain of hundreds of rules, of which one anywhere may not match.
func HChainHuge() {
	n := huge(rt.Bound(5000, 20000), 70, 300)
	at := []int{n - 1, n / 2, 1, 0}[rt.Choose("at", 4)]
	ok := rt.Bool("ok")
	var trace []int
	parent := plain(modsecurity.PhaseRequestHeaders, at != 0 || ok, mark(&trace, 0))
	for i := 1; i < n; i++ {
		parent.AppendSubRules(plain(0, i != at || ok, mark(&trace, i)))
	}
	rs := modsecurity.NewSecRuleSet()
	rs.AddRules(parent)
	t := newTx(rs)
	t.ProcessRequestHeader(nil)
	if !ok {
		rt.Assert(len(trace) == 0, "a chain of which a rule does not match must do nothing")
		return
	}
	rt.Assert(len(trace) == n, "a chain that matches must run the actions of every rule")
	for i := range trace {
		rt.Assert(trace[i] == i, "the rules of a chain must act in order")
	}
}

// HActionHuge: hundreds of actions, of one kind or of all.
func HActionHuge() {
	n := huge(rt.Bound(5000, 20000), 300)
	a := rt.Choose("a", modsecurity.ActionGroupCount)
	b := rt.Choose("b", 2)
	match := rt.Bool("match")
	var trace, want []int
	r := plain(modsecurity.PhaseRequestHeaders, match)
	groups := make([][]int, modsecurity.ActionGroupCount)
	for i := 0; i < n; i++ {
		id, g := i, (a+b*i)%modsecurity.ActionGroupCount
		groups[g] = append(groups[g], i)
		r.AppendActions(&funcAct{g, func(*modsecurity.Transaction) { trace = append(trace, id) }})
	}
	for _, g := range groups {
		want = append(want, g...)
	}
	rs := modsecurity.NewSecRuleSet()
	rs.AddRules(r)
	t := newTx(rs)
	t.ProcessRequestHeader(nil)
	if !match {
		want = nil
	}
	rt.Assert(sameInts(trace, want), "actions must run once each, by group and then in the order given")
}

// HFlowHuge: a phase of thousands of rules; one anywhere may match and deny or skip.
func HFlowHuge() {
	n := huge(rt.Bound(11000, 30000), 300)
	at := []int{n - 1, n - 2, n / 2, 0}[rt.Choose("at", 4)]
	match := rt.Bool("match")
	skip := []int{-1, 1, 3, n / 2, n - 2, n}[rt.Choose("skip", 6)]
	var trace []int
	rs := modsecurity.NewSecRuleSet()
	for i := 0; i < n; i++ {
		if i != at {
			rs.AddRules(plain(modsecurity.PhaseRequestBody, true, mark(&trace, i)))
			continue
		}
		r := plain(modsecurity.PhaseRequestBody, match, mark(&trace, i), actions.NewActionDeny())
		if skip >= 0 {
			r = plain(modsecurity.PhaseRequestBody, match, mark(&trace, i), actions.NewActionSkipN(skip))
		}
		rs.AddRules(r)
	}
	var want []int
	for i := 0; i < n; i++ {
		if i != at {
			want = append(want, i)
		} else if match {
			want = append(want, i)
			if skip < 0 {
				break
			}
			i += skip
		}
	}
	t := newTx(rs)
	t.ProcessRequestHeader(nil)
	t.ProcessRequestBody()
	rt.Assert(sameInts(trace, want), "the rules must run in order, less those skipped, up to the first denial")
	rt.Assert(t.Result().Disruptive == (match && skip < 0), "the decision must be that of the rules that ran")
	t.ProcessRequestBody()
	t.ProcessLogging()
	rt.Assert(len(trace) == len(want), "no rule must run twice")
}

// HLogHuge: thousands of log lines, long addresses and messages.
func HLogHuge() {
	n := huge(rt.Bound(11000, 30000), 300, 1)
	pad := strings.Repeat("x", []int{0, 300, 5000}[rt.Choose("pad", 3)])
	if n > 1 && len(pad) > 0 {
		pad = pad[:100]
	}
	c := rt.Str("c", 1)
	ip, msg := pad+c, c+pad
	rs := modsecurity.NewSecRuleSet()
	for i := 0; i < n; i++ {
		m := msg
		if i != n-1 {
			m = strconv.Itoa(i)
		}
		rs.AddRules(plain(modsecurity.PhaseConnection, true, &funcAct{modsecurity.ActionGroupNonDisruptive, func(t *modsecurity.Transaction) { t.Logf("%s", m) }}))
	}
	t := newTx(rs)
	t.ProcessConnection(ip, "80"+pad, "d", "1")
	l := t.Result().Log
	rt.Assert(len(l) == n, "every log line must be handed over once")
	for i := range l {
		if i == n-1 || i == n/2 {
			m := msg
			if i != n-1 {
				m = strconv.Itoa(i)
			}
			rt.Assert(l[i] == "[client "+ip+":80"+pad+"] (phase 1) "+m, "a log line must name the client and phase")
		}
	}
	rt.Assert(len(t.Result().Log) == 0, "every log line must be handed over once")
}

// ---- collections ----

// hugePairs are n pairs, the values being v0, v1, ... and one arbitrary one, which
// begins with w.
func hugePairs(n int) ([]pair, string) {
	at := []int{n - 1, n / 2, 0}[rt.Choose("at", 3)]
	mod := []int{1, 3, n}[rt.Choose("mod", 3)]
	odd := "w" + rt.Alpha("v", 1, "ab01")
	ps := make([]pair, n)
	for i := range ps {
		ps[i] = pair{"n" + strconv.Itoa(i%mod), "v" + strconv.Itoa(i)}
	}
	ps[at].v = odd
	return ps, odd
}

// allOf tells whether got are the values of hugePairs, each once, in any order.
func allOf(got []string, n int, odd string) bool {
	if len(got) != n {
		return false
	}
	seen, odds := make([]bool, n), 0
	for _, g := range got {
		if g[0] == 'w' {
			if g != odd {
				return false
			}
			odds++
			continue
		}
		i, err := strconv.Atoi(g[1:])
		if g[0] != 'v' || err != nil || i < 0 || i >= n || seen[i] {
			return false
		}
		seen[i] = true
	}
	return odds == 1
}

func distinct(l []string) int {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return len(m)
}

func hugeForm(ps []pair) string {
	parts := make([]string, len(ps))
	for i, p := range ps {
		parts[i] = p.k + "=" + p.v
	}
	return strings.Join(parts, "&")
}

func hugeCollections(n int, cols ...int) {
	c := cols[rt.Choose("col", len(cols))]
	ps, odd := hugePairs(n)
	t := newTxLimits(modsecurity.NewSecRuleSet(), 1<<22, 1<<22, 64)
	t.ProcessRequestURL(&url.URL{Path: "/"}, "POST", "HTTP/1.1")
	switch c {
	case colArgsGet:
		t.ProcessRequestURL(&url.URL{Path: "/", RawQuery: hugeForm(ps)}, "GET", "HTTP/1.1")
	case colArgsPost:
		t.ProcessRequestHeader(formHeader())
		t.AppendRequestBody([]byte(hugeForm(ps)))
	case colReqHeaders:
		t.ProcessRequestHeader(headerOf(ps))
	case colResHeaders:
		t.ProcessResponseHeaders(200, "HTTP/1.1", headerOf(ps))
	case colCookies:
		s := strings.Replace(hugeForm(ps), "&", "; ", -1)
		lines := []string{s}
		if rt.Choose("lines", 2) == 1 {
			lines = strings.Split(s, "; ")
		}
		t.ProcessRequestHeader(http.Header{"Cookie": lines})
	case colArgs: // a multipart form
		t.ProcessRequestHeader(http.Header{"Content-Type": {"multipart/form-data; boundary=bd"}})
		var b bytes.Buffer
		for _, p := range ps {
			b.WriteString("--bd\r\nContent-Disposition: form-data; name=\"" + p.k + "\"\r\n\r\n" + p.v + "\r\n")
		}
		b.WriteString("--bd--\r\n")
		t.AppendRequestBody(b.Bytes())
	}
	names := 0
	for i := range ps {
		if i == 0 || ps[i].k != "n0" && ps[i].k == "n"+strconv.Itoa(i) {
			names++
		}
	}
	rt.Assert(allOf(colVar(c).Fetch(t), n, odd), "a collection must yield every value once")
	got := colNames(c).Fetch(t)
	rt.Assert(distinct(got) == names && got[0][0] == 'n', "the names of a collection must be those of its members")
	rt.Assert(one(variables.NewCountVariable(colVar(c)).Fetch(t), strconv.Itoa(n)), "a count must be the number of values")
	v := colVar(c)
	v.Exclude("n0")
	rt.Assert(len(v.Fetch(t)) == n-(n+len(ps)/names-1)/len(ps)*((n+names-1)/names), "an exclusion must leave out the values of the name it gives")
	rt.Assert(!t.Abort && t.RequestBodyError == nil, "a well-formed request is no error")
}

// HArgsGetHuge: query collections of thousands of members.
func HArgsGetHuge() {
	hugeCollections(huge(rt.Bound(11000, 40000), 300), colArgsGet)
}

// HArgsPostHuge: body collections of thousands of members.
func HArgsPostHuge() {
	hugeCollections(huge(rt.Bound(11000, 40000), 300), colArgsPost)
}

// HCookiesHuge: cookie collections of thousands of members.
func HCookiesHuge() {
	hugeCollections(huge(rt.Bound(11000, 40000), 300), colCookies)
}

// HHeadersHuge: header collections of thousands of members.
func HHeadersHuge() {
	hugeCollections(huge(rt.Bound(11000, 40000), 300), colReqHeaders, colResHeaders)
}

// HMultipartHuge: multipart bodies of hundreds of members.
func HMultipartHuge() {
	hugeCollections(huge(900, 70), colArgs) // mime/multipart takes 1000 parts
}

// HFilterHuge: hundreds of selectors on hundreds of members.
func HFilterHuge() {
	n := huge(rt.Bound(600, 2000), 40)
	var q []string
	v, names := variables.NewVariableArgsGet(), variables.NewVariableArgsGetNames()
	add := func(f func(modsecurity.Variable, string) error, s string) {
		rt.Assert(f(v, s) == nil && f(names, s) == nil, "a selector must be accepted")
	}
	inc := func(v modsecurity.Variable, s string) error { return v.Include(s) }
	exc := func(v modsecurity.Variable, s string) error { return v.Exclude(s) }
	regex := rt.Choose("regex", 2) == 1
	sel := func(i int) string {
		if regex {
			return "/^n" + strconv.Itoa(i) + "$/"
		}
		return "n" + strconv.Itoa(i)
	}
	if regex {
		n = n / 10
	}
	mode := rt.Choose("mode", 3) // included, excluded, both
	for i := 0; i < n; i++ {
		q = append(q, "n"+strconv.Itoa(i)+"=v"+strconv.Itoa(i))
		if mode != 1 && i%2 == 0 {
			add(inc, sel(i))
		}
		if mode != 0 && i%3 == 0 {
			add(exc, sel(i))
		}
	}
	k := rt.Alpha("k", 1, "nmx")
	q = append(q, k+"=o")
	t := newTx(modsecurity.NewSecRuleSet())
	t.ProcessRequestURL(&url.URL{Path: "/", RawQuery: strings.Join(q, "&")}, "GET", "HTTP/1.1")
	got, gotNames := map[string]int{}, map[string]int{}
	for _, s := range v.Fetch(t) {
		got[s]++
	}
	for _, s := range names.Fetch(t) {
		gotNames[s]++
	}
	total := 0
	for i := 0; i < n; i++ {
		w := 1
		if mode != 1 && i%2 != 0 || mode != 0 && i%3 == 0 {
			w = 0
		}
		total += w
		rt.Assert(got["v"+strconv.Itoa(i)] == w, "selectors must pick the members they name and no others")
		rt.Assert(gotNames["n"+strconv.Itoa(i)] == w, "selectors must pick the names they name and no others")
	}
	if mode == 1 {
		total++
		rt.Assert(got["o"] == 1 && gotNames[k] == 1, "a member no selector names must be left in")
	}
	rt.Assert(len(got) == total && len(gotNames) == total, "selectors must pick the members they name and no others")
}

// ---- texts ----

// hugeText puts s at either end of n bytes of filler, or in their middle.
func hugeText(n int, f, s string) string {
	k := n / len(f)
	a := []int{k, k / 2, 0}[rt.Choose("place", 3)]
	return strings.Repeat(f, a) + s + strings.Repeat(f, k-a)
}

// HTransHuge: the transformations on texts of many kilobytes.
func HTransHuge() {
	n := huge(rt.Bound(140000, 300000), 5000)
	f := []string{"x", "a b ", "%41+", "\x00\xc3\xa9", "\t \n"}[rt.Choose("filler", 5)]
	mid := rt.Str("mid", 1)
	s := hugeText(n, f, mid)
	// what becomes of the filler and of the arbitrary byte
	var tr modsecurity.Trans
	var each func(i int) (byte, bool)
	switch rt.Choose("tr", 6) {
	case 0:
		tr = transforms.NewTransRemoveNulls()
		each = func(i int) (byte, bool) { return s[i], s[i] != 0 }
	case 1:
		tr = transforms.NewTransReplaceNulls()
		each = func(i int) (byte, bool) {
			if s[i] == 0 {
				return ' ', true
			}
			return s[i], true
		}
	case 2:
		tr = transforms.NewTransRemoveWhitespace()
		each = func(i int) (byte, bool) { return s[i], !isSpaceByte(s[i]) }
	case 3:
		tr = transforms.NewTransCompressWhitespace()
		each = func(i int) (byte, bool) {
			if isSpaceByte(s[i]) {
				return ' ', i == 0 || !isSpaceByte(s[i-1])
			}
			return s[i], true
		}
	case 4:
		tr = transforms.NewTransLowerCase()
		rt.Assume(mid[0] < 0x80)
		each = func(i int) (byte, bool) {
			if s[i] >= 'A' && s[i] <= 'Z' {
				return s[i] + 32, true
			}
			return s[i], true
		}
	case 5:
		tr = transforms.NewTransNone()
		each = func(i int) (byte, bool) { return s[i], true }
	}
	got := tr.Trans(nil, s)
	k, same := 0, true
	for i := 0; i < len(s); i++ {
		if c, in := each(i); in {
			if k >= len(got) || got[k] != c {
				same = false
				break
			}
			k++
		}
	}
	rt.Assert(same && k == len(got), tr.Name()+" of a long text differs from the reference")
}

// HDecodeHuge: the decoders on texts of many kilobytes.
func HDecodeHuge() {
	n := huge(rt.Bound(140000, 300000), 5000)
	fs := []struct{ in, out string }{{"x", "x"}, {"%41+", "A "}, {"%zz%4", "%zz%4"}, {"%00%ff", "\x00\xff"}}
	f := fs[rt.Choose("filler", len(fs))]
	ms := []struct{ in, out, uni string }{{"%u0041", "%u0041", "A"}, {"%uFF21", "%uFF21", "A"}, {"%2b", "+", "+"}, {"+", " ", " "}, {"", "", ""}}
	m := ms[rt.Choose("mid", len(ms))]
	c := rt.Alpha("c", 1, "g-.\x80")
	k := n / len(f.in)
	a := []int{k, k / 2, 0}[rt.Choose("place", 3)]
	in := strings.Repeat(f.in, a) + c + m.in + c + strings.Repeat(f.in, k-a)
	pre, post := strings.Repeat(f.out, a)+c, c+strings.Repeat(f.out, k-a)
	rt.Assert(transforms.NewTransUrlDecode().Trans(nil, in) == pre+m.out+post, "urlDecode of a long text differs from the reference")
	rt.Assert(transforms.NewTransUrlDecodeUni().Trans(nil, in) == pre+m.uni+post, "urlDecodeUni of a long text differs from the reference")
}

// HRxHuge: values of many kilobytes; the match may stand anywhere.
func HRxHuge() {
	n := huge(70000, 5000, 1100)
	k := rt.Choose("re", len(rxCases))
	f := []string{"q", "\n", "a"}[rt.Choose("filler", 3)]
	if n == 70000 && rt.Tier() == 0 {
		rt.Assume((k == 0 || k == 2) && f == "q")
	}
	mid := "cm" + rt.Str("mid", 1)
	if n == 1100 {
		mid = rt.Str("mid", 1) + rt.Alpha("next", 1, "bdz0")
	}
	c := rxCases[k]
	s := hugeText(n, f, mid)
	op, err := operators.NewOperatorRx(c.re)
	rt.Assert(err == nil && op != nil, "a valid expression must be accepted")
	rt.Assert(op.Match(nil, s) == c.want(s), "rx "+c.re+": wrong match in a long value")
}

// HCompareHuge: numbers with thousands of leading zeros or blanks.
func HCompareHuge() {
	n := huge(rt.Bound(5000, 70000), 300)
	d := rt.Alpha("d", 1, "0123456789")
	s := d
	switch rt.Choose("shape", 4) {
	case 0:
		s = strings.Repeat("0", n) + d
	case 1:
		s = strings.Repeat(" ", n) + d + strings.Repeat("\t", n)
	case 2:
		s = strings.Repeat(" ", n) + "+" + strings.Repeat("0", n) + d
	case 3: // beyond the 64-bit range
		s = "1" + strings.Repeat("0", n) + d
	}
	for _, o := range cmpOps {
		op, err := o.mk("5")
		rt.Assert(err == nil, "a numeric argument must be accepted")
		want := int(d[0]-'0') - 5
		if len(s) == n+2 && s[0] == '1' {
			want = 1
		}
		rt.Assert(op.Match(nil, s) == o.want(sign(want, 0)), o.name+": wrong comparison")
	}
}

// HPartsHuge: every part of a transaction long.
func HPartsHuge() {
	n := huge(rt.Bound(70000, 120000), 300)
	w := baseWorld()
	part := rt.Choose("part", 14)
	s := strings.Repeat("y", n) + rt.Alpha("s", 1, "abc01")
	switch part {
	case 0:
		w.src, w.sport = s, s
	case 1:
		w.method = s
	case 2:
		w.path = "/" + s
	case 3:
		w.path = strings.Repeat("/ab", n/3) + "/" + s
	case 4:
		w.query += "&g=" + s
		w.getVals = append(w.getVals, s)
	case 5:
		w.query += "&" + s + "=v"
		w.getNames, w.getVals = append(w.getNames, s), append(w.getVals, "v")
	case 6:
		w.proto = s
	case 7:
		w.header["X"] = []string{s, s}
	case 8:
		w.header[s] = []string{"v"}
	case 9:
		w.header["Cookie"][0] += "; d=" + s
		w.ckN, w.ckV = append(w.ckN, "d"), append(w.ckV, s)
	case 10:
		w.rheader["X"], w.rheader["Content-Length"] = []string{s, s}, []string{s}
		w.clen = s
	case 11:
		w.rbody = s
	case 12, 13:
		w.multi = part == 13
		w.k, w.v = "k", s
	}
	if w.multi {
		w.header["Content-Type"] = []string{"multipart/form-data; boundary=bd"}
	}
	t := w.tx(modsecurity.NewEngine())
	for i, mk := range allVars {
		got, want := mk().Fetch(t), w.want(secVarNames[i])
		if secVarNames[i] == "ARGS_NAMES" {
			rt.Assert(sameSet(got, want), secVarNames[i]+" must be what it is named after")
		} else {
			rt.Assert(sameBag(got, want), secVarNames[i]+" must be what it is named after")
		}
	}
	rt.Assert(!t.Abort && t.RequestBodyError == nil, "a well-formed transaction is no error")
}

// HBufHuge: bodies around the limits an engine has by default.
func HBufHuge() {
	rt.Steps(150)
	e := modsecurity.NewEngine()
	e.TmpPath = rt.TempDir()
	e.RequestBodyAccess, e.ResponseBodyAccess = true, true
	t, err := e.NewTransaction()
	rt.Assert(err == nil, "a transaction must be created")
	response := rt.Choose("response", 2) == 1
	lim := int(e.RequestBodyInMem)
	if response {
		lim = int(e.ResponseBody)
	}
	size := lim + rt.Choose("over", 3) - 1
	c := rt.Alpha("c", 1, "xyz")
	body := "a=" + strings.Repeat("v", size-3) + c
	piece := []int{size, 100000, 32768, 4096}[rt.Choose("piece", 4)]
	refused := false
	for b := body; len(b) > 0; {
		k := piece
		if k > len(b) {
			k = len(b)
		}
		if response {
			err = t.AppendResponseBody([]byte(b[:k]))
		} else {
			err = t.AppendRequestBody([]byte(b[:k]))
		}
		refused = refused || err != nil
		b = b[k:]
	}
	rt.Assert(refused == (response && size > lim), "a body within the limit must be accepted")
	t.ProcessRequestURL(&url.URL{Path: "/"}, "POST", "HTTP/1.1")
	t.ProcessRequestHeader(formHeader())
	if response {
		if !refused {
			rt.Assert(one(variables.NewVariableResponseBody().Fetch(t), body), "the response body must be the variable's value")
		}
		return
	}
	if size > lim {
		rt.Assert(variables.NewVariableArgsPost().Fetch(t) == nil && t.Abort && t.Result().Status == 413, "a body beyond the memory limit must abort with 413")
		got := bytes.NewBuffer(nil)
		n, err := t.Request.Body.WriteTo(got)
		rt.Assert(err == nil && n == int64(size) && got.String() == body, "the body must be read back exactly")
	} else {
		rt.Assert(one(variables.NewVariableArgsPost().Fetch(t), body[2:]) && !t.Abort, "a body within the memory limit must be inspected in full")
		rt.Assert(one(variables.NewVariableRequestBody().Fetch(t), body), "REQUEST_BODY must be the body")
	}
	rt.Assert(t.Request.Body.Close() == nil && rt.FileCount() == 0, "closing must remove the temporary file")
}

// ---- configurations ----

// HParseHuge: long strings, lists and configurations.
func HParseHuge() {
	n := huge(rt.Bound(11000, 30000), 300)
	c := rt.Str("c", 1)
	rt.Assume(c != "\"" && c != "'" && c != "\\" && c != "\n" && c != "\r" && c != "," && c != "|")
	fill := strings.Repeat("abcdefghij", n)
	text := "SecRuleEngine On\n"
	kind := rt.Choose("kind", 5)
	switch kind {
	case 0: // a long expression
		text += "SecRule ARGS \"@rx " + fill + c + "\" id:1\n"
	case 1: // many targets
		text += "SecRule \"" + strings.Repeat("ARGS:a|", n) + "ARGS_GET:s" + c + "\" x id:1\n"
	case 2: // many actions
		text += "SecRule ARGS x \"" + strings.Repeat("tag:a,", n) + "id:1,tag:'s" + c + "'\"\n"
	case 3: // many directives
		text += strings.Repeat("SecRule ARGS a id:2\n", n) + "SecRule ARGS \"x" + c + "\" id:1\n"
	case 4: // much space
		text += strings.Repeat("\n", n) + strings.Repeat(" ", n) + "SecRule" + strings.Repeat(" \\\n", n) + "ARGS" + strings.Repeat("\t", n) + "\"x" + c + "\" id:1\n"
	}
	text += "SecRuleEngine Off\n"
	sc := parser.NewSecLangScannerFromString(text)
	ds, err := sc.AllDirective()
	rules := 1
	if kind == 3 {
		rules = n + 1
	}
	rt.Assert(err == nil && len(ds) == rules+2, "every directive must be read")
	rt.Assert(ds[rules+1].(*parser.TriBoolArgDirective).Value == parser.TriBoolFalse, "what follows must be read next")
	rt.Assert(c == "\r" || sc.LineNumber == 1+strings.Count(text, "\n"), "the line number must be that of the end of the text")
	r := ds[rules].(*parser.RuleDirective)
	rt.Assert(r.Actions.Id == 1, "the last rule must be read as written")
	switch kind {
	case 0:
		rt.Assert(r.Operator.Argument == fill+c, "a long string must be read back exactly")
	case 1:
		v := r.Variable
		rt.Assert(len(v) == n+1 && v[n].Tk == parser.TkVarArgsGet && v[n].Index == "s"+c && v[n-1].Index == "a", "every target must be read")
	case 2:
		a := r.Actions.Action
		rt.Assert(len(a) == n+1 && a[n].Argument == "'s"+c+"'" && a[n-1].Argument == "a", "every action must be read")
	default:
		rt.Assert(r.Operator.Argument == "x"+c, "an argument must be read exactly")
	}
}

// HSecHuge: configurations of thousands of rules, long chains and lists.
func HSecHuge() {
	n := huge(rt.Bound(3000, 11000), 300)
	v := rt.Alpha("v", 1, "01")
	kind := rt.Choose("kind", 4)
	text, query, want := "", "", 0
	switch kind {
	case 0: // rules of one phase
		text = strings.Repeat("SecRule ARGS_GET:a \"@ge 0\" \"id:1,phase:2,log\"\n", n) + "SecRule ARGS_GET:z \"@eq 1\" \"id:2,phase:2,status:404,deny\"\n"
		want = n
	case 1: // a chain
		text = strings.Repeat("SecRule ARGS_GET:a \"@ge 0\" \"id:1,phase:2,status:404,deny,chain\"\n", n) + "SecRule ARGS_GET:z \"@eq 1\" log\n"
	case 2: // targets
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, "ARGS_GET:n"+strconv.Itoa(i))
		}
		text = "SecRule " + strings.Join(l, "|") + "|ARGS_GET:z \"@eq 1\" \"id:2,phase:2,status:404,deny\"\n"
	case 3: // transformations and tags
		text = "SecRule ARGS_GET:z \"@eq 1\" \"id:2,phase:2," + strings.Repeat("t:urlDecode,tag:a,", n) + "tag:b,status:404,deny\"\n"
	}
	query = "a=1&n=1&z=" + v
	e := secEngine(text)
	t := secTx(e, query)
	t.ProcessRequestHeader(nil)
	r := t.Result()
	rt.Assert(r.Disruptive == (v == "1"), "a rule must decide exactly when it matches")
	if v == "1" {
		rt.Assert(r.Status == 404, "a denial must have the rule's status")
		if kind == 0 {
			want++
			rt.Assert(len(r.Log) == want, "every rule must run")
		}
	} else {
		rt.Assert(len(r.Log) == want, "every rule must run")
	}
	if kind == 3 {
		m := theRule(e)
		rt.Assert(len(m.Trans) == n && len(m.MetaData["tag"]) == n+1 && m.MetaData["tag"][n] == "b", "every action of a list must be kept")
	}
}

// slowReader hands out a text in pieces of the given size, now and then none, and
// fails when it gets to fail.
type slowReader struct {
	text       string
	at, piece  int
	fail       int
	with, idle bool
}

var errReader = errors.New("reader failed")

func (r *slowReader) Read(p []byte) (int, error) {
	if r.idle = !r.idle; !r.idle {
		return 0, nil
	}
	end := r.at + r.piece
	if end > len(r.text) {
		end = len(r.text)
	}
	last := io.EOF
	if r.fail >= 0 {
		last = errReader
		if end > r.fail {
			end = r.fail
		}
	}
	n := copy(p, r.text[r.at:end])
	r.at += n
	if n == 0 || r.with && (r.at == len(r.text) || r.at == r.fail) {
		return n, last
	}
	return n, nil
}

// directive tells everything there is to tell about a directive.
func directive(d parser.Directive) string {
	n := strconv.Itoa
	s := n(d.Token())
	switch d := d.(type) {
	case *parser.BoolArgDirective:
		return s + strconv.FormatBool(d.Value)
	case *parser.TriBoolArgDirective:
		return s + " " + n(d.Value)
	case *parser.RuleDirective:
		for _, v := range d.Variable {
			s += " v" + n(v.Tk) + " " + v.Index + strconv.FormatBool(v.Count) + strconv.FormatBool(v.Exclusion)
		}
		s += " o" + n(d.Operator.Tk) + " " + d.Operator.Argument + strconv.FormatBool(d.Operator.Not)
		s += " a" + n(d.Actions.Id) + " " + n(d.Actions.Phase) + strconv.FormatBool(d.Actions.Chain)
		for _, t := range d.Actions.Trans {
			s += " t" + n(t.Tk)
		}
		for _, a := range d.Actions.Action {
			s += " a" + n(a.Tk) + " " + a.Argument
		}
	}
	return s
}

// HParseReader: a text is read the same in whatever pieces it comes; one that cannot
// be read to its end is an error, and none of it is handed out.
func HParseReader() {
	c := rt.Alpha("c", 1, "ax\\\n\r \"")
	texts := []string{
		"SecRule ARGS:" + c + " \"@rx " + c + "\" id:12\r\nSecRuleEngine On",
		"SecRequestBodyAccess Off\n\nSecRule ARGS|&ARGS \\\r\n \"a\\" + c + "b\" 'id:7,\\\n deny'\n",
		"\r\n SecRuleEngine DetectionOnly \n\nSecRuleEngine Off" + c,
		c,
	}
	text := texts[rt.Choose("text", len(texts))]
	r := &slowReader{text: text, fail: -1}
	r.piece = []int{1, 2, 3, 100}[rt.Choose("piece", rt.Bound(3, 4))]
	r.with = rt.Choose("with", 2) == 1
	if rt.Choose("fail", 2) == 1 {
		r.fail = rt.Choose("at", len(text)+1)
	}
	if rt.Choose("each", 2) == 1 {
		sc, whole := parser.NewSecLangScanner(r), parser.NewSecLangScannerFromString(text)
		for {
			got, err := sc.ReadDirective()
			want, werr := whole.ReadDirective()
			if err != nil {
				rt.Assert(got == nil, "an error comes without a directive")
				rt.Assert(r.fail < 0 || err != parser.ErrEOS, "a text that cannot be read to its end must be refused")
				rt.Assert(r.fail >= 0 || (err == parser.ErrEOS) == (werr == parser.ErrEOS) && werr != nil, "a text must be read the same in pieces")
				return
			}
			rt.Assert(werr == nil && directive(got) == directive(want) && sc.LineNumber == whole.LineNumber, "a text must be read the same in pieces")
		}
	}
	got, err := parser.NewSecLangScanner(r).AllDirective()
	want, werr := parseAll(text)
	if r.fail >= 0 {
		rt.Assert(err != nil && got == nil, "a text that cannot be read to its end must be refused")
		return
	}
	rt.Assert((err == nil) == (werr == nil) && len(got) == len(want), "a text must be read the same in pieces")
	for i := range want {
		rt.Assert(directive(got[i]) == directive(want[i]), "a text must be read the same in pieces")
	}
}
