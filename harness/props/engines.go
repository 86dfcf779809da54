package props

import (
	"net/http"
	"net/url"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
	"github.com/senghoo/modsecurity-go/seclang"

	"verif/harness/rt"
)

// ---- several engines in one program ----

var engineConfs = []string{
	"SecRule ARGS:a \"@rx x\" \"id:1,deny,status:404\"\n",
	"SecRuleEngine DetectionOnly\nSecRule ARGS \"@rx x\" \"id:2,log\"\nSecRule &ARGS \"@gt 1\" \"id:3,chain,deny\"\n SecRule REMOTE_ADDR \"@rx 1\" \"t:none\"\n",
	"SecRequestBodyAccess On\nSecRule REQUEST_METHOD \"!@rx ^P\" \"id:4,block,t:lowercase\"\n",
	"SecResponseBodyAccess On\nSecRuleEngine Off\n",
}

// engineStep does one thing to an engine. The configurations are those in ds.
func engineStep(e *modsecurity.Engine, k int, ds []*seclang.DireSet) {
	switch {
	case k < len(ds):
		rt.Assert(ds[k].Execute(e) == nil, "a valid configuration must be applied")
	case k == len(ds):
		e.Enable(modsecurity.StatusOn)
	case k == len(ds)+1:
		e.RuleSet.AddDefaultActions(actions.NewActionDeny())
	case k == len(ds)+2:
		e.RequestBodyInMem, e.RequestBody = 2, 3
	case k == len(ds)+3:
		engineRun(e, "a=x&b=y")
	}
}

func loadConfs() []*seclang.DireSet {
	var ds []*seclang.DireSet
	for _, c := range engineConfs {
		d, err := seclang.NewDireSetFromSecLangString(c)
		rt.Assert(err == nil && d != nil, "a valid configuration must be accepted")
		ds = append(ds, d)
	}
	return ds
}

func newEng() *modsecurity.Engine {
	e := modsecurity.NewEngine()
	e.TmpPath = rt.TempDir()
	return e
}

// engineRun is one transaction: its status, whether it is to be stopped, its log
// and what became of a body.
func engineRun(e *modsecurity.Engine, query string) (int, bool, []string, bool) {
	t, err := e.NewTransaction()
	rt.Assert(err == nil && t != nil, "a transaction must be created")
	t.ProcessConnection("10.0.0.1", "1", "", "")
	t.ProcessRequestURL(&url.URL{Path: "/", RawQuery: query}, "GET", "HTTP/1.1")
	t.ProcessRequestHeader(http.Header{})
	over := t.AppendRequestBody([]byte("abcd")) != nil
	t.ProcessRequestBody()
	i := t.Result()
	t.Request.Body.Close()
	return i.Status, i.Disruptive, i.Log, over
}

// HEngines: of two engines each is what it would be alone, whatever was done to the
// other, with the same configurations or with others.
func HEngines() {
	fresh := modsecurity.NewEngine()
	limits, conf := *fresh.Limits, *fresh.Config
	e := []*modsecurity.Engine{newEng(), newEng()}
	ds := loadConfs()
	kinds := len(ds) + 4
	var done [2][]int
	for i, n := 0, rt.Bound(3, 4); i < n; i++ {
		k := rt.Choose("step", kinds+1)
		if k == kinds {
			break
		}
		w := 0
		if i > 0 {
			w = rt.Choose("which", 2)
		}
		done[w] = append(done[w], k)
		engineStep(e[w], k, ds)
	}
	fresh = modsecurity.NewEngine()
	rt.Assert(*fresh.Limits == limits && *fresh.Config == conf && !fresh.Enabled && !fresh.DetectionOnly && len(fresh.RuleSet.Phases) == 0, "what is done to one engine must not reach those made later")
	query := "a=" + rt.Alpha("q", 1, "xy") + "&b=1"
	for w := 0; w < 2; w++ {
		alone, own := newEng(), loadConfs()
		for _, k := range done[w] {
			engineStep(alone, k, own)
		}
		rt.Assert(e[w].Enabled == alone.Enabled && e[w].DetectionOnly == alone.DetectionOnly && *e[w].Limits == *alone.Limits, "the settings of an engine must be its own")
		for p := modsecurity.PhaseBegin; p <= modsecurity.PhaseEnd; p++ {
			rt.Assert(len(e[w].RuleSet.Phases[p]) == len(alone.RuleSet.Phases[p]), "the rules of an engine must be its own")
		}
		s1, d1, l1, o1 := engineRun(e[w], query)
		s2, d2, l2, o2 := engineRun(alone, query)
		rt.Assert(s1 == s2 && d1 == d2 && o1 == o2 && sameStrings(l1, l2), "an engine must do what it does alone")
	}
}

// HFresh: a new transaction has decided, logged and stored nothing, whatever the
// engine and whatever went before; without an engine, rules or a place for its files
// there is none.
func HFresh() {
	e := newEng()
	switch rt.Choose("mode", 4) {
	case 1:
		e.Enable(modsecurity.StatusOn)
	case 2:
		e.Enable(modsecurity.StatusOff)
	case 3:
		e.Enable(modsecurity.StatusDect)
	}
	e.RequestBody, e.RequestBodyInMem, e.ResponseBody = rt.Int64("body"), rt.Int64("mem"), rt.Int64("res")
	e.RequestBodyAccess, e.ResponseBodyAccess = rt.Bool("req"), rt.Bool("resp")
	rs := modsecurity.NewSecRuleSet()
	for _, p := range allPhases {
		rs.AddRules(ruleIf(p, true, actions.NewActionStatus(500), actions.NewActionLog()))
	}
	rs.AddRules(ruleIf(modsecurity.PhaseRequestHeaders, true, actions.NewActionDeny()))
	for i, n := 0, rt.Choose("before", 3); i < n; i++ {
		t, err := modsecurity.NewTransaction(e, rs)
		rt.Assert(err == nil, "a transaction must be created")
		t.ProcessConnection("1", "2", "3", "4")
		t.ProcessRequestURL(&url.URL{Path: "/"}, "GET", "HTTP/1.1")
		t.ProcessRequestHeader(http.Header{"A": {"b"}})
		if i == 1 {
			t.AbortWithStatus(500)
		}
	}
	var t *modsecurity.Transaction
	var err error
	if rt.Choose("how", 2) == 0 {
		t, err = modsecurity.NewTransaction(e, rs)
	} else {
		e.RuleSet = rs
		t, err = e.NewTransaction()
	}
	rt.Assert(err == nil && t != nil && t.Engine == e && t.RuleSet == rs, "a transaction must be created")
	rt.Assert(t.CurrentPhase() == modsecurity.PhaseBegin && t.CurrentRule() == modsecurity.StatusNotStarted && t.NextRule() == 0 && t.CurrentSecRule() == nil, "a new transaction must stand at the start")
	rt.Assert(!t.Abort && len(t.Data) == 0 && t.RequestBodyError == nil && t.SrcIp == "" && t.SrcPort == "" && t.URL == nil && t.Method == "" && len(t.Request.Header) == 0 && len(t.Response.Header) == 0 && t.Response.Code == 0, "a new transaction must hold nothing")
	rt.Assert(t.Request.Body.Len() == 0 && t.Response.Body.Len() == 0, "a new transaction must have no bodies")
	i := t.Result()
	rt.Assert(i.Status == 200 && !i.Disruptive && len(i.Log) == 0 && i.Url == nil && i.Pause == 0, "a new transaction must have decided nothing")
	none, err := modsecurity.NewTransaction(nil, rs)
	rt.Assert(none == nil && err != nil, "there is no transaction without an engine")
	none, err = modsecurity.NewTransaction(e, nil)
	rt.Assert(none == nil && err != nil, "there is no transaction without rules")
	// a directory that is not there is made, and files go into it
	dir := rt.Choose("dir", 5)
	switch dir {
	case 0, 1:
		e.TmpPath = filepath.Join(rt.TempDir(), "a"+strconv.Itoa(dir))
	case 2:
		e.TmpPath = filepath.Join(rt.TempDir(), "a", "b", "c")
	case 3:
		e.TmpPath = rt.TempDir() + "/d/"
	case 4: // it cannot be made below a file
		e.TmpPath = filepath.Join(rt.MakeFile(), "a")
	}
	e.RequestBody, e.RequestBodyInMem = 10, 1
	t, err = modsecurity.NewTransaction(e, rs)
	if dir == 4 {
		rt.Assert(err != nil && t == nil, "a directory that cannot be made must be reported")
		return
	}
	rt.Assert(err == nil && t != nil, "the directory for files must be made")
	rt.Assert(t.AppendRequestBody([]byte("abc")) == nil, "the directory for files must be made")
	rt.Assert(rt.FilesIn(e.TmpPath) == 1, "files must be made in the directory configured")
	rt.Assert(t.Request.Body.Close() == nil, "a body must be closed")
	rt.Assert(rt.FilesIn(e.TmpPath) == 0, "a closed body must leave no file")
}

// HSecNames: the parts of a rule report the names and arguments they were written with.
func HSecNames() {
	vary := rt.Choose("vary", 4)
	choose := func(part int, name string, n int) int {
		if part == vary {
			return rt.Choose(name, n)
		}
		return 0
	}
	vn := secVarNames[choose(0, "var", len(secVarNames))]
	mark := []string{"", "&"}[choose(0, "mark", 2)]
	opn := []string{"rx", "eq", "ge", "gt", "le", "lt"}[choose(1, "op", 6)]
	not := choose(1, "not", 2) == 1
	n := choose(1, "len", rt.Bound(4, 8))
	arg := rt.Alpha("arg", 1+n, wordBytes)
	if opn != "rx" {
		arg = []string{"", "-", "+", "0", "-00"}[choose(1, "sign", 5)] + rt.Alpha("num", 1, "123456789") + rt.Alpha("nums", n%4, "0123456789")
	}
	trs := []string{"lowercase", "urlDecode", "urlDecodeUni", "none", "compressWhitespace", "removeWhitespace", "replaceNulls", "removeNulls"}
	tn := trs[choose(2, "trans", len(trs))]
	// as written, the name and the argument of each action
	acts := [][3]string{{"deny", "deny", ""}, {"log", "log", ""}, {"pass", "pass", ""}, {"block", "block", ""}, {"allow", "allow", ""}, {"allow:phase", "allow", "phase"}, {"allow:'request'", "allow", "request"},
		{"status:503", "status", "503"}, {"status:'302'", "status", "302"}, {"skip:3", "skip", "3"}, {"skip", "skip", "1"}}
	a, b := acts[choose(3, "act", len(acts))], acts[choose(3, "act2", len(acts))]
	bang := ""
	if not {
		bang = "!"
	}
	e := secEngine("SecRule " + mark + vn + " \"" + bang + "@" + opn + " " + arg + "\" \"id:7," + a[0] + ",phase:2,t:" + tn + "," + b[0] + "\"\n")
	r := theRule(e)
	rt.Assert(r.Id == 7 && r.Not == not && len(r.Variables) == 1 && len(r.Trans) == 1 && len(r.Actions) == 2 && len(r.SubRules) == 0, "a rule must have the parts written")
	rt.Assert(r.Variables[0].Name() == vn, "a variable must report its name")
	rt.Assert(r.Operator.Name() == opn && r.Operator.Args() == arg, "an operator must report its name and argument")
	rt.Assert(r.Trans[0].Name() == tn, "a transformation must report its name")
	rt.Assert(r.Actions[0].Name() == a[1] && r.Actions[0].Value() == a[2], "an action must report its name and argument")
	rt.Assert(r.Actions[1].Name() == b[1] && r.Actions[1].Value() == b[2], "an action must report its name and argument")
}

// HSecIds: every rule of a configuration has the id it was given, or none, alone or in
// a chain.
func HSecIds() {
	text := ""
	var ids []int
	for i := 0; i < 3; i++ {
		id := 0
		switch rt.Choose("id", 3) {
		case 1:
			id = 7
		case 2:
			id = 100 + i
		}
		ids = append(ids, id)
		acts := []string{}
		if id > 0 {
			acts = append(acts, "id:"+strconv.Itoa(id))
		}
		if i < 2 {
			acts = append(acts, "chain")
		}
		acts = append(acts, "log")
		text += "SecRule ARGS_GET x \"" + strings.Join(acts, ",") + "\"\n"
	}
	text += "SecRule ARGS_GET x \"log\"\n"
	rs := secEngine(text).RuleSet.Phases[modsecurity.PhaseRequestHeaders]
	rt.Assert(len(rs) == 2 && len(rs[0].SubRules) == 2 && rs[1].Id == 0, "a configuration must have the rules written")
	rt.Assert(rs[0].Id == ids[0] && rs[0].SubRules[0].Id == ids[1] && rs[0].SubRules[1].Id == ids[2], "a rule must have the id it was given")
}

// fetchVar tells when it is fetched.
type fetchVar struct{ f func() }

func (*fetchVar) Name() string                              { return "FETCH" }
func (*fetchVar) Include(string) error                      { return nil }
func (*fetchVar) Exclude(string) error                      { return nil }
func (v *fetchVar) Fetch(*modsecurity.Transaction) []string { v.f(); return []string{"v"} }

// partOwners makes two owners of the given kind that can be given the same slice of
// parts, and what the holder of that slice can do to it.
func partOwners(kind int) (o [2]func(id int), share func(), grow, change func(), run [2]func() []int) {
	var trace []int
	m := func(id int) modsecurity.Action { return mark(&trace, id) }
	v := func(id int) modsecurity.Variable { return &fetchVar{func() { trace = append(trace, id) }} }
	tr := func(id int) modsecurity.Trans {
		return funcTrans(func(s string) string { trace = append(trace, id); return s })
	}
	vs := append(make([]modsecurity.Variable, 0, 8), v(0), v(1))
	as := append(make([]modsecurity.Action, 0, 8), m(0), m(1))
	ts := append(make([]modsecurity.Trans, 0, 8), tr(0), tr(1))
	rule := func(id int) *modsecurity.SecRule {
		if kind == 3 {
			return plain(0, true, m(id))
		}
		return plain(modsecurity.PhaseConnection, true, m(id))
	}
	subs := append(make([]*modsecurity.SecRule, 0, 8), rule(0), rule(1))
	var sets [2]*modsecurity.SecRuleSet
	var rules [2]*modsecurity.SecRule
	for w := 0; w < 2; w++ {
		w := w
		rs, r := modsecurity.NewSecRuleSet(), modsecurity.NewSecRule()
		sets[w], rules[w] = rs, r
		r.Phase = modsecurity.PhaseConnection
		r.SetOperator(funcOp(func(_ *modsecurity.Transaction, s string) bool { return kind != 0 }))
		switch kind {
		case 0:
		case 4:
			r.AppendVariables(&listVar{[]string{"v"}})
			r.AppendActions(actions.NewActionBlock())
		default:
			r.AppendVariables(&listVar{[]string{"v"}})
		}
		o[w] = func(id int) {
			switch kind {
			case 0:
				r.AppendVariables(v(id))
			case 1:
				r.AppendActions(m(id))
			case 2:
				r.AppendTrans(tr(id))
			case 3:
				r.AppendSubRules(rule(id))
			case 4:
				rs.AddDefaultActions(m(id))
			case 5:
				rs.AddRules(rule(id))
			}
		}
		run[w] = func() []int {
			trace = nil
			callPhase(newTx(rs), modsecurity.PhaseConnection)
			return append([]int(nil), trace...)
		}
	}
	share = func() {
		for w := 0; w < 2; w++ {
			switch kind {
			case 0:
				rules[w].AppendVariables(vs...)
			case 1:
				rules[w].AppendActions(as...)
			case 2:
				rules[w].AppendTrans(ts...)
			case 3:
				rules[w].AppendSubRules(subs...)
			case 4:
				sets[w].AddDefaultActions(as...)
			case 5:
				sets[w].AddRules(subs...)
			}
			if kind != 5 {
				sets[w].AddRules(rules[w])
			}
		}
	}
	grow = func() {
		vs, as, ts, subs = append(vs, v(9)), append(as, m(9)), append(ts, tr(9)), append(subs, rule(9))
	}
	change = func() {
		vs[1], as[1], ts[1], subs[1] = v(8), m(8), tr(8), rule(8)
	}
	return
}

// HParts: two rules, or rule sets, given the same slice of variables, actions,
// transformations, chained rules, default actions or rules each have those and what
// they are given besides, whatever the other is given and becomes of the slice.
func HParts() {
	give, share, grow, change, run := partOwners(rt.Choose("kind", 6))
	var want [2][]int
	for w := 0; w < 2; w++ {
		if rt.Choose("before", 2) == 1 {
			give[w](5 + w)
			want[w] = append(want[w], 5+w)
		}
		want[w] = append(want[w], 0, 1)
	}
	share()
	for i, n := 0, rt.Bound(3, 4); i < n; i++ {
		switch k := rt.Choose("then", 4); k {
		case 0, 1:
			give[k](10 + i)
			want[k] = append(want[k], 10+i)
		case 2:
			grow()
		case 3:
			change()
		}
	}
	for w := 0; w < 2; w++ {
		rt.Assert(sameInts(run[w](), want[w]), "a rule or rule set must have the parts it was given, in that order, once each")
	}
	rt.Assert(sameInts(run[0](), want[0]), "and keep them")
}
