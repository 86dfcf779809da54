package props

import (
	"errors"
	"net/url"
	"strconv"
	"strings"

	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"

	"verif/harness/rt"
)

// ---- building blocks: the interfaces a Go user implements ----

type listVar struct{ vals []string }

func (*listVar) Name() string                              { return "LIST" }
func (*listVar) Include(string) error                      { return nil }
func (*listVar) Exclude(string) error                      { return nil }
func (v *listVar) Fetch(*modsecurity.Transaction) []string { return v.vals }

// abortVar has a value and does something when it is asked for it.
type abortVar struct {
	do func(t *modsecurity.Transaction)
}

func (*abortVar) Name() string         { return "ABORT" }
func (*abortVar) Include(string) error { return nil }
func (*abortVar) Exclude(string) error { return nil }
func (v *abortVar) Fetch(t *modsecurity.Transaction) []string {
	v.do(t)
	return []string{"v"}
}

type funcOp func(*modsecurity.Transaction, string) bool

func (funcOp) Name() string                                      { return "func" }
func (funcOp) Args() string                                      { return "" }
func (f funcOp) Match(t *modsecurity.Transaction, s string) bool { return f(t, s) }

type funcAct struct {
	group int
	f     func(*modsecurity.Transaction)
}

func (*funcAct) Name() string                    { return "func" }
func (*funcAct) Value() string                   { return "" }
func (a *funcAct) ActionGroup() int              { return a.group }
func (a *funcAct) Do(t *modsecurity.Transaction) { a.f(t) }

type funcTrans func(string) string

func (funcTrans) Name() string                                        { return "func" }
func (f funcTrans) Trans(t *modsecurity.Transaction, s string) string { return f(s) }

// rule fires when match is true; its actions follow.
func ruleIf(phase int, match bool, as ...modsecurity.Action) *modsecurity.SecRule {
	r := modsecurity.NewSecRule()
	r.Id = int(rt.Int64("id"))
	r.Phase = phase
	r.AppendVariables(&listVar{[]string{"v"}})
	r.SetOperator(funcOp(func(*modsecurity.Transaction, string) bool { return match }))
	r.AppendActions(as...)
	return r
}

// mark records id when it runs.
func mark(trace *[]int, id int) modsecurity.Action {
	return &funcAct{modsecurity.ActionGroupNonDisruptive, func(*modsecurity.Transaction) { *trace = append(*trace, id) }}
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var allPhases = []int{modsecurity.PhaseConnection, modsecurity.PhaseRequestHeaders, modsecurity.PhaseRequestBody,
	modsecurity.PhaseResponseHeaders, modsecurity.PhaseResponseBody, modsecurity.PhaseLogging}

func callPhase(t *modsecurity.Transaction, p int) {
	switch p {
	case modsecurity.PhaseConnection:
		t.ProcessConnection("10.0.0.1", "1234", "10.0.0.2", "80")
	case modsecurity.PhaseRequestHeaders:
		t.ProcessRequestHeader(nil)
	case modsecurity.PhaseRequestBody:
		t.ProcessRequestBody()
	case modsecurity.PhaseResponseHeaders:
		t.ProcessResponseHeaders(200, "HTTP/1.1", nil)
	case modsecurity.PhaseResponseBody:
		t.ProcessResponseBody()
	case modsecurity.PhaseLogging:
		t.ProcessLogging()
	}
}

// ---- matching ----

// HRuleMatch: a rule fires iff one of the values its variables yield, after the
// transformations in order, satisfies the operator (or, negated, fails it).
func HRuleMatch() {
	r := modsecurity.NewSecRule()
	r.Phase = modsecurity.PhaseRequestHeaders
	r.Not = rt.Bool("not")
	tr := []func(string) string{
		func(s string) string { return s + "x" },
		func(s string) string { return "y" + s },
		func(s string) string { return s[1:] },
	}
	var used []func(string) string
	for i, n := 0, rt.Choose("ntrans", 3); i < n; i++ {
		f := tr[rt.Choose("trans", len(tr))]
		used = append(used, f)
		r.AppendTrans(funcTrans(f))
	}
	needle := rt.Str("needle", 1+rt.Choose("nlen", 2))
	hit := false
	for i, n := 0, rt.Choose("nvars", rt.Bound(3, 4)); i < n; i++ {
		v := &listVar{}
		for j, m := 0, rt.Choose("nvals", 3); j < m; j++ {
			s := rt.Str("val", 2)
			v.vals = append(v.vals, s)
			for _, f := range used {
				s = f(s)
			}
			if (s == needle) != r.Not {
				hit = true
			}
		}
		r.AppendVariables(v)
	}
	r.SetOperator(funcOp(func(_ *modsecurity.Transaction, s string) bool { return s == needle }))
	fired := 0
	r.AppendActions(&funcAct{modsecurity.ActionGroupNonDisruptive, func(*modsecurity.Transaction) { fired++ }})
	rs := modsecurity.NewSecRuleSet()
	rs.AddRules(r)
	t := newTx(rs)
	t.ProcessRequestHeader(nil)
	rt.Assert(fired == 0 || fired == 1, "a rule must fire at most once per evaluation")
	rt.Assert((fired == 1) == hit, "a rule must fire exactly when one of its values matches")
}

// HChain: the actions of a chain run iff every rule of it matches, each once.
func HChain() {
	var trace []int
	n := 1 + rt.Choose("subs", rt.Bound(3, 4))
	all := true
	var parent *modsecurity.SecRule
	for i := 0; i < n; i++ {
		res, not := rt.Bool("res"), rt.Bool("not")
		r := ruleIf(modsecurity.PhaseRequestHeaders, res, mark(&trace, i))
		r.Not = not
		if rt.Choose("vals", 2) == 0 {
			r.Variables = nil
			all = false
		}
		if res == not {
			all = false
		}
		if i == 0 {
			parent = r
		} else {
			parent.AppendSubRules(r)
		}
	}
	rs := modsecurity.NewSecRuleSet()
	rs.AddRules(parent)
	t := newTx(rs)
	t.ProcessRequestHeader(nil)
	if !all {
		rt.Assert(len(trace) == 0, "a chain of which some rule does not match must run no action")
		return
	}
	for i := range trace {
		rt.Assert(len(trace) == n && trace[i] == i, "a chain that matches must run the actions of every rule once, in order")
	}
	rt.Assert(len(trace) == n, "a chain that matches must run the actions of every rule once, in order")
}

// HChainActions: whatever kinds of actions the rules of a chain have and whatever
// they decide, those of each rule run once each, the first rule's first.
func HChainActions() {
	var trace, want []int
	n := 2 + rt.Choose("subs", 2)
	a, step := rt.Choose("a", modsecurity.ActionGroupCount), rt.Choose("step", modsecurity.ActionGroupCount)
	what, who := rt.Choose("what", 8), rt.Choose("who", n)
	p := modsecurity.PhaseRequestHeaders
	var parent *modsecurity.SecRule
	for i := 0; i < n; i++ {
		var as []modsecurity.Action
		groups := []int{(a + step*i) % modsecurity.ActionGroupCount, (a + step*(i+1) + 3) % modsecurity.ActionGroupCount}
		for j := range groups {
			id := i*10 + j
			as = append(as, &funcAct{groups[j], func(*modsecurity.Transaction) { trace = append(trace, id) }})
		}
		for g := 0; g < modsecurity.ActionGroupCount; g++ {
			for j := range groups {
				if groups[j] == g {
					want = append(want, i*10+j)
				}
			}
		}
		if i == who {
			switch what {
			case 1:
				as = append(as, actions.NewActionDeny(), actions.NewActionStatus(404))
			case 2:
				as = append([]modsecurity.Action{&funcAct{modsecurity.ActionGroupData, func(t *modsecurity.Transaction) { t.AbortWithStatus(404) }}}, as...)
			case 3:
				as = append(as, actions.NewActionAllow(""))
			case 4:
				as = append(as, actions.NewActionAllow("phase"))
			case 5:
				as = append(as, actions.NewActionPass())
			case 6:
				as = append([]modsecurity.Action{actions.NewActionSkip()}, as...)
			case 7:
				as = append(as, actions.NewActionBlock(), actions.NewActionStatus(404))
			}
		}
		r := ruleIf(p, true, as...)
		if i == 0 {
			parent = r
		} else {
			parent.AppendSubRules(r)
		}
	}
	rs := modsecurity.NewSecRuleSet()
	rs.AddDefaultActions(actions.NewActionDeny())
	rs.AddRules(parent, ruleIf(p, true, mark(&trace, 100)), ruleIf(p, true, mark(&trace, 101)))
	t := newTx(rs)
	t.ProcessRequestHeader(nil)
	switch what {
	case 0, 5:
		want = append(want, 100, 101)
	case 6:
		want = append(want, 101)
	}
	rt.Assert(sameInts(trace, want), "a chain that matches must run the actions of every rule once, in order, and act as one rule")
	i := t.Result()
	switch what {
	case 1, 2, 7:
		rt.Assert(i.Disruptive && i.Status == 404, "a chain must decide what one of its rules decides")
	default:
		rt.Assert(!i.Disruptive && i.Status == 200, "a chain that decides nothing must not intervene")
	}
}

// HActionOrder: the actions of a rule run once each, by group and then in the order
// given.
func HActionOrder() {
	var trace []int
	n := rt.Choose("n", rt.Bound(4, 5))
	groups := make([]int, n)
	var as []modsecurity.Action
	for i := range groups {
		groups[i] = rt.Choose("group", modsecurity.ActionGroupCount)
		id := i
		as = append(as, &funcAct{groups[i], func(*modsecurity.Transaction) { trace = append(trace, id) }})
	}
	var want []int
	if n > 1 && rt.Choose("again", 2) == 1 {
		as = append(as[:n-1], as[n-2]) // the same action once more
		groups[n-1] = groups[n-2]
	}
	rs := modsecurity.NewSecRuleSet()
	if rt.Choose("default", 2) == 1 {
		rs.AddDefaultActions(as...)
		rs.AddRules(ruleIf(modsecurity.PhaseRequestHeaders, true, actions.NewActionBlock()))
	} else {
		rs.AddRules(ruleIf(modsecurity.PhaseRequestHeaders, true, as...))
	}
	t := newTx(rs)
	t.ProcessRequestHeader(nil)
	for g := 0; g < modsecurity.ActionGroupCount; g++ {
		for i := range groups {
			if groups[i] == g && n > 1 && as[i] == as[n-2] {
				want = append(want, n-2)
			} else if groups[i] == g {
				want = append(want, i)
			}
		}
	}
	rt.Assert(sameInts(trace, want), "actions must run once each, by group and then in the order given")
}

// ---- flow ----

// HPhaseOrder: within a phase the matching rules run in the order they were added,
// up to the first disruptive decision.
func HPhaseOrder() {
	n := rt.Bound(3, 4)
	var trace, want []int
	rs := modsecurity.NewSecRuleSet()
	var later []*modsecurity.SecRule
	stopped := false
	deny := false
	for i := 0; i < n; i++ {
		m := rt.Bool("m")
		kind := rt.Choose("kind", 5)
		as := []modsecurity.Action{mark(&trace, i)}
		switch kind {
		case 1:
			as = append(as, actions.NewActionDeny())
		case 2:
			as = append(as, actions.NewActionDeny(), actions.NewActionPass())
		case 3:
			as = append(as, actions.NewActionPass(), actions.NewActionLog())
		case 4:
			as = append(as, actions.NewActionBlock())
		}
		r := ruleIf(modsecurity.PhaseRequestBody, m, as...)
		if rt.Choose("batch", 2) == 1 {
			later = append(later, r)
		} else {
			rs.AddRules(append(later, r)...)
			later = nil
		}
		if m && !stopped {
			want = append(want, i)
			if kind == 1 || kind == 4 {
				stopped, deny = true, true
			}
		}
	}
	rs.AddRules(later...)
	rs.AddDefaultActions(actions.NewActionDeny())
	t := newTx(rs)
	t.ProcessRequestBody()
	rt.Assert(sameInts(trace, want), "matching rules must run in order up to the first disruptive one")
	res := t.Result()
	rt.Assert(res.Disruptive == deny, "the result must be disruptive exactly when a rule that ran denied")
}

// HPhases: any sequence of calls runs the rules of each phase at most once, never
// after those of a later phase.
func HPhases() {
	var trace, want []int
	rs := modsecurity.NewSecRuleSet()
	for _, p := range allPhases {
		rs.AddRules(ruleIf(p, true, mark(&trace, 2*p)), ruleIf(p, true, mark(&trace, 2*p+1)))
	}
	t := newTx(rs)
	if rt.Choose("bodies", 2) == 1 {
		t.ProcessRequestURL(&url.URL{Path: "/p", RawQuery: "a=1"}, "POST", "HTTP/1.1")
		rt.Assert(t.AppendRequestBody([]byte("b=2")) == nil && t.AppendResponseBody([]byte("r")) == nil, "the bodies must be accepted")
	}
	done := 0
	for i, k := 0, rt.Bound(4, 5); i < k; i++ {
		p := allPhases[rt.Choose("p", len(allPhases))]
		callPhase(t, p)
		if p > done {
			want = append(want, 2*p, 2*p+1)
			done = p
		}
		rt.Assert(sameInts(trace, want), "the rules of a phase must run once, in full, and never after a later phase")
	}
}

// HPhaseScope: a rule is evaluated in its own phase only; a rule whose phase does not
// exist never is.
func HPhaseScope() {
	var trace []int
	rs := modsecurity.NewSecRuleSet()
	n := 2
	var ph []int
	for i := 0; i < n; i++ {
		p := int(rt.Int64("phase"))
		ph = append(ph, p)
		rs.AddRules(ruleIf(p, true, mark(&trace, i)))
	}
	t := newTx(rs)
	for _, p := range allPhases {
		before := len(trace)
		callPhase(t, p)
		var want []int
		for i := range ph {
			if ph[i] == p {
				want = append(want, i)
			}
		}
		rt.Assert(sameInts(trace[before:], want), "a rule must be evaluated in its own phase only")
	}
}

// HAllow: what allow lets through. Two rules per phase; in one phase the first of
// them allows. Any of the phases may be left out by the caller.
func HAllow() {
	var trace []int
	arg := []string{"phase", "request", ""}[rt.Choose("arg", 3)]
	at := allPhases[rt.Choose("at", len(allPhases))]
	rs := modsecurity.NewSecRuleSet()
	for _, p := range allPhases {
		as := []modsecurity.Action{mark(&trace, 2*p)}
		if p == at {
			as = append(as, actions.NewActionAllow(arg))
		}
		rs.AddRules(ruleIf(p, true, as...), ruleIf(p, true, mark(&trace, 2*p+1)))
	}
	t := newTx(rs)
	allowed := false
	again := 0
	if rt.Choose("again", 2) == 1 {
		again = at
		if rt.Choose("later", 2) == 1 {
			again = modsecurity.PhaseLogging
		}
	}
	for _, p := range allPhases {
		if rt.Choose("call", 2) == 0 {
			continue
		}
		before, stood := len(trace), t.CurrentPhase()
		callPhase(t, p)
		rt.Assert(t.CurrentPhase() >= stood, "a transaction must never move back to an earlier phase")
		want := []int{2 * p, 2*p + 1}
		switch {
		case p == at:
			want = want[:1]
			allowed = true
		case !allowed:
		case arg == "request" && p <= modsecurity.PhaseRequestBody:
			want = nil
		case arg == "" && p != modsecurity.PhaseLogging:
			want = nil
		}
		rt.Assert(sameInts(trace[before:], want), "allow must skip the rules of what it lets through, and no others")
		if p == again {
			before, stood = len(trace), t.CurrentPhase()
			for _, q := range allPhases {
				if q <= p {
					callPhase(t, q)
				}
			}
			rt.Assert(len(trace) == before && t.CurrentPhase() == stood, "a phase called again must run nothing")
		}
	}
	rt.Assert(!t.Result().Disruptive, "allow must not intervene")
}

// ---- decisions ----

// HDeny: deny intercepts with 403, or with the status the rule sets when it is one.
func HDeny() {
	code := rt.Int64("status")
	set := rt.Choose("set", 5)
	var as []modsecurity.Action
	switch set {
	case 0:
		as = []modsecurity.Action{actions.NewActionDeny()}
	case 1:
		as = []modsecurity.Action{actions.NewActionStatus(int(code)), actions.NewActionDeny()}
	case 2:
		as = []modsecurity.Action{actions.NewActionDeny(), actions.NewActionStatus(int(code))}
	case 3:
		as = []modsecurity.Action{actions.NewActionDeny(), actions.NewActionLog(), actions.NewActionStatus(int(code))}
	case 4: // the last one counts
		as = []modsecurity.Action{actions.NewActionStatus(404), actions.NewActionDeny(), actions.NewActionStatus(int(code))}
	}
	rs := modsecurity.NewSecRuleSet()
	rs.AddRules(ruleIf(modsecurity.PhaseRequestHeaders, true, as...))
	t := newTx(rs)
	t.ProcessRequestHeader(nil)
	i := t.Result()
	rt.Assert(i.Disruptive, "deny must intervene")
	if set != 0 && code >= 100 && code <= 599 {
		rt.Assert(i.Status == int(code), "deny must use the status the rule sets")
	} else {
		rt.Assert(i.Status == 403, "deny must use 403 by default")
	}
}

// HStatusScope: the status a rule sets belongs to that rule.
func HStatusScope() {
	a, b := rt.Int("a", 100, 599), rt.Int("b", 100, 599)
	own := rt.Choose("own", 2) == 1
	m := rt.Bool("m")
	samePhase := rt.Choose("same", 2) == 1
	link := rt.Choose("link", 4)
	p2 := modsecurity.PhaseRequestBody
	if samePhase {
		p2 = modsecurity.PhaseRequestHeaders
	}
	rs := modsecurity.NewSecRuleSet()
	var status []modsecurity.Action
	if own {
		status = []modsecurity.Action{actions.NewActionStatus(b)}
	}
	deny := []modsecurity.Action{actions.NewActionDeny()}
	var rule *modsecurity.SecRule
	switch link {
	case 0:
		rule = ruleIf(p2, true, append(deny, status...)...)
	case 1: // with a rule chained to it
		rule = ruleIf(p2, true, append(status, deny...)...)
		rule.AppendSubRules(ruleIf(p2, true))
	case 2: // a chain counts as one rule
		rule = ruleIf(p2, true, status...)
		rule.AppendSubRules(ruleIf(p2, true, deny...))
	case 3:
		rule = ruleIf(p2, true)
		rule.AppendSubRules(ruleIf(p2, true, append(deny, status...)...))
	}
	if rt.Choose("log", 2) == 1 {
		rs.AddRules(ruleIf(modsecurity.PhaseRequestHeaders, true, actions.NewActionLog()))
	}
	rs.AddRules(ruleIf(modsecurity.PhaseRequestHeaders, m, actions.NewActionStatus(a)), rule)
	t := newTx(rs)
	t.ProcessRequestHeader(nil)
	t.ProcessRequestBody()
	i := t.Result()
	want := 403
	if own {
		want = b
	}
	rt.Assert(i.Disruptive && i.Status == want, "the status set by one rule must not be used by another")
}

// HSticky: once the transaction is aborted no rule runs any more and the decision
// is reported forever; a denial stops everything until it is taken by Result.
func HSticky() {
	var trace []int
	at := allPhases[rt.Choose("at", len(allPhases))]
	how := rt.Choose("how", 11)
	abort := how > 0
	code := rt.Int("code", -1, 1000)
	if !abort {
		rt.Assume(code >= 100 && code <= 599)
	}
	if how == 10 {
		rt.Assume(code != 200) // 200 is no decision
	}
	rs := modsecurity.NewSecRuleSet()
	for _, p := range allPhases {
		var as []modsecurity.Action
		if p == at {
			switch how {
			case 0:
				as = append(as, actions.NewActionStatus(code), actions.NewActionDeny())
			case 1:
				as = append(as, &funcAct{modsecurity.ActionGroupNonDisruptive, func(t *modsecurity.Transaction) { t.AbortWithStatus(code) }})
			case 2:
				as = append(as, &funcAct{modsecurity.ActionGroupNonDisruptive, func(t *modsecurity.Transaction) { t.AbortWithError(code, errors.New("e")) }})
			case 3, 4: // a denial, then an abort by the host before it is taken
				as = append(as, actions.NewActionDeny(), actions.NewActionStatus(rt.Int("denied", 100, 599)))
			case 5: // an abort, then a pass in the same rule
				as = append(as, &funcAct{modsecurity.ActionGroupNonDisruptive, func(t *modsecurity.Transaction) { t.AbortWithStatus(code) }}, actions.NewActionPass())
			case 10: // a denial in the same rule as the abort
				as = append(as, &funcAct{modsecurity.ActionGroupNonDisruptive, func(t *modsecurity.Transaction) { t.AbortWithStatus(code) }}, actions.NewActionDeny(), actions.NewActionStatus(rt.Int("denied", 100, 599)))
			case 6:
				as = append(as, actions.NewActionPass(), &funcAct{modsecurity.ActionGroupNonDisruptive, func(t *modsecurity.Transaction) { t.AbortWithError(code, errors.New("e")) }})
			}
		}
		r := ruleIf(p, true, append(as, mark(&trace, p))...)
		if p == at && how >= 7 && how <= 9 { // while a rule is evaluated
			v := &abortVar{func(t *modsecurity.Transaction) { t.AbortWithError(code, errors.New("e")) }}
			switch how {
			case 7:
				r.Variables = []modsecurity.Variable{v, r.Variables[0]}
			case 8:
				r.Variables = []modsecurity.Variable{r.Variables[0], v}
				r.SetOperator(funcOp(func(*modsecurity.Transaction, string) bool { return false }))
				r.Not = true
			case 9:
				sub := ruleIf(p, true)
				sub.Variables = []modsecurity.Variable{v}
				r.AppendSubRules(sub)
			}
		}
		rs.AddRules(r, ruleIf(p, true, mark(&trace, p)))
	}
	t := newTx(rs)
	decided, taken := false, false
	for _, p := range allPhases {
		before := len(trace)
		callPhase(t, p)
		if decided && (abort || !taken) {
			rt.Assert(len(trace) == before, "no rule may run after the decision")
		} else if p == at {
			if how >= 7 && how <= 9 {
				rt.Assert(len(trace) == before, "the rule evaluated when the transaction was aborted must not run")
			} else {
				rt.Assert(len(trace) == before+1, "the deciding rule must be the last one to run")
			}
			decided = true
			if how == 3 {
				t.AbortWithStatus(code)
			}
			if how == 4 {
				t.AbortWithError(code, errors.New("e"))
			}
		} else {
			rt.Assert(len(trace) == before+2, "rules must run while nothing is decided")
		}
		if rt.Choose("take", 2) == 1 {
			i := t.Result()
			if decided && (abort || !taken) {
				rt.Assert(i.Disruptive && i.Status == code, "the decision must be reported")
				taken = true
			} else {
				rt.Assert(!i.Disruptive && i.Status == 200, "nothing may be reported before or after the decision")
			}
		}
	}
	if abort {
		for k := 0; k < 3; k++ {
			i := t.Result()
			rt.Assert(t.Abort && i.Disruptive && i.Status == code, "an abort must be reported by every result")
		}
	}
}

// ---- results ----

// HResult: Result hands over what happened since the last one, and what it returned
// does not change afterwards.
func HResult() {
	rs := modsecurity.NewSecRuleSet()
	var kinds []int
	for _, p := range allPhases {
		k := rt.Choose("kind", rt.Bound(4, 5))
		kinds = append(kinds, k)
		switch k {
		case 1:
			rs.AddRules(ruleIf(p, true, actions.NewActionLog()))
		case 2:
			rs.AddRules(ruleIf(p, true, actions.NewActionDeny()))
		case 3:
			rs.AddRules(ruleIf(p, true, &funcAct{modsecurity.ActionGroupNonDisruptive, func(t *modsecurity.Transaction) {
				i := t.Intervention()
				i.Status, i.Pause, i.Url = 302, 1, new(url.URL)
			}}))
		case 4:
			rs.AddRules(ruleIf(p, true, actions.NewActionLog(), actions.NewActionPass()))
		}
		if p == modsecurity.PhaseResponseHeaders {
			break
		}
	}
	t := newTx(rs)
	type snap struct {
		i    *modsecurity.Intervention
		logs []string
		code int
		dis  bool
	}
	var snaps []snap
	logs, code, dis, to := 0, 200, false, false
	for n, k := range kinds {
		callPhase(t, allPhases[n])
		if !dis {
			switch k {
			case 1:
				logs++
			case 2:
				logs++
				dis = true
				if code == 200 {
					code = 403
				}
			case 3:
				code, to = 302, true
			case 4:
				logs++
				code, to = 200, false
			}
		}
		if rt.Choose("take", 2) == 1 {
			i := t.Result()
			rt.Assert(i != nil && i.Status == code && i.Disruptive == dis && len(i.Log) == logs && (i.Url != nil) == to && (i.Pause == 1) == to, "Result must report what happened since the last one")
			snaps = append(snaps, snap{i, append([]string(nil), i.Log...), code, dis})
			logs, code, dis, to = 0, 200, false, false
		}
	}
	t.Logf("later")
	t.AbortWithStatus(500)
	last := rt.Choose("last", 3)
	if last == 1 {
		t.ProcessLogging()
	}
	for _, s := range snaps {
		rt.Assert(s.i.Status == s.code && s.i.Disruptive == s.dis && len(s.i.Log) == len(s.logs), "a result must not change after it was returned")
		for k := range s.logs {
			rt.Assert(s.i.Log[k] == s.logs[k], "the log lines of a result must not change after it was returned")
		}
	}
	first := t.Result().Log
	rt.Assert(len(first) == logs+1, "an abort keeps what was logged before it")
	for k := 0; k < 3; k++ {
		i := t.Result()
		rt.Assert(i.Disruptive && i.Status == 500, "an abort must be reported by every Result")
		rt.Assert(len(i.Log) == len(first)+k, "every result of an aborted transaction has all lines since")
		for j := range first {
			rt.Assert(i.Log[j] == first[j], "every result of an aborted transaction has all lines since")
		}
		if last == 2 && k == 1 {
			t.ProcessLogging()
		}
		t.Logf("again")
		i.Disruptive, i.Status, i.Log = false, 200, nil
		i.Url = new(url.URL)
	}
}

// HModes: Off evaluates no rule; DetectionOnly runs everything but decides nothing.
func HModes() {
	var trace []int
	rs := modsecurity.NewSecRuleSet()
	kind := rt.Choose("kind", 5)
	var as []modsecurity.Action
	switch kind {
	case 4: // an action of the host that executes the default actions
		d := []modsecurity.Action{actions.NewActionLog(), actions.NewActionStatus(403), actions.NewActionDeny()}
		rs.AddDefaultActions(d[rt.Choose("from", 3):]...)
		as = append(as, &funcAct{modsecurity.ActionGroupNonDisruptive, func(t *modsecurity.Transaction) { t.RuleSet.ExecuteDefaultActions(t) }})
	case 0:
		as = append(as, actions.NewActionDeny())
	case 1:
		rs.AddDefaultActions(actions.NewActionDeny(), actions.NewActionLog())
		as = append(as, actions.NewActionBlock())
	case 2:
		as = append(as, actions.NewActionAllow(""))
	case 3:
		as = append(as, actions.NewActionLog())
	}
	for _, p := range allPhases {
		rs.AddRules(ruleIf(p, true, append([]modsecurity.Action{mark(&trace, 2*p)}, as...)...), ruleIf(p, true, mark(&trace, 2*p+1)))
	}
	e := modsecurity.NewEngine()
	e.TmpPath = rt.TempDir()
	e.RuleSet = rs
	mode := -1
	for i, n := 0, rt.Choose("n", 3); i < n; i++ {
		mode = rt.Choose("mode", 3)
		e.Enable([]int{modsecurity.StatusOn, modsecurity.StatusOff, modsecurity.StatusDect}[mode])
	}
	if mode >= 0 {
		once := modsecurity.NewEngine()
		once.Enable([]int{modsecurity.StatusOn, modsecurity.StatusOff, modsecurity.StatusDect}[mode])
		rt.Assert(e.Enabled == once.Enabled && e.DetectionOnly == once.DetectionOnly, "the last mode set is the mode")
	}
	t, err := e.NewTransaction()
	rt.Assert(err == nil, "a transaction must be created")
	for _, p := range allPhases {
		before := len(trace)
		callPhase(t, p)
		i := t.Result()
		ran := len(trace) - before
		switch mode {
		case 1:
			rt.Assert(ran == 0 && !i.Disruptive && i.Status == 200 && len(i.Log) == 0, "with the engine off nothing may run")
		case 2:
			rt.Assert(ran == 2, "in detection mode every rule must run")
			rt.Assert(!i.Disruptive && i.Status == 200, "in detection mode nothing may be intercepted")
		default:
			if kind <= 1 || kind == 4 {
				rt.Assert(ran == 1 && i.Disruptive && i.Status == 403, "a denial must intercept")
			}
			if kind == 3 {
				rt.Assert(ran == 2 && !i.Disruptive, "logging must not intercept")
			}
		}
	}
}

// HLogError: the line of an abort has the text of its error as it is.
func HLogError() {
	text := []string{"", "at 50% ", "%"}[rt.Choose("pre", 3)] + rt.StrUpTo("text", 3)
	rs := modsecurity.NewSecRuleSet()
	t := newTx(rs)
	ip, port := rt.Str("ip", 2), rt.StrUpTo("port", 2)
	t.ProcessConnection(ip, port, "", "")
	pre := "[client " + ip + ":" + port + "] (phase " + strconv.Itoa(t.CurrentPhase()) + ") "
	n := []int{0, 1, 2, 5}[rt.Choose("n", 4)]
	for i := 0; i < n; i++ {
		t.Logf("%s", text)
	}
	t.AbortWithError(413, errors.New(text))
	i := t.Result()
	rt.Assert(len(i.Log) == n+1, "there must be one line for each logged event")
	for k, l := range i.Log {
		rt.Assert(len(l) >= len(text) && l[len(l)-len(text):] == text, "a log line must have its text as it is")
		rt.Assert(len(l) >= len(pre)+len(text) && l[:len(pre)] == pre, "a log line must name the client and the phase")
		rt.Assert(k == n || l == pre+text, "a log line must have its text as it is")
	}
}

// HLog: every log line names the client and the phase, in order; a denial names
// the status it denies with.
func HLog() {
	ip, port := rt.StrUpTo("ip", 2), rt.StrUpTo("port", 1)
	text := rt.StrUpTo("text", 2)
	codes := []int{100, 302, 404, 599}
	code := rt.Choose("code", 5)
	want := "403"
	as := []modsecurity.Action{
		&funcAct{modsecurity.ActionGroupNonDisruptive, func(t *modsecurity.Transaction) { t.Logf("%s", text) }},
		actions.NewActionLog(),
		actions.NewActionDeny(),
	}
	if code < 4 {
		as = append(as, actions.NewActionStatus(codes[code]))
		want = []string{"100", "302", "404", "599"}[code]
	}
	p := allPhases[rt.Choose("at", len(allPhases))]
	rs := modsecurity.NewSecRuleSet()
	before := []int{0, 1, 2, 1100}[rt.Choose("before", 4)]
	rt.Assume(before < 3 || code == 4)
	for i := 0; i < before; i++ {
		rs.AddRules(ruleIf(p, false))
	}
	rs.AddRules(ruleIf(p, true, as...))
	if code%2 == 0 {
		rs.AddRules(ruleIf(p, false))
	}
	t := newTx(rs)
	t.ProcessConnection(ip, port, "", "")
	if p != modsecurity.PhaseConnection {
		callPhase(t, p)
	}
	i := t.Result()
	rt.Assert(len(i.Log) == 3, "there must be one line for each logged event")
	pre := "[client " + ip + ":" + port + "] (phase " + string(rune('0'+p)) + ") "
	for _, l := range i.Log {
		rt.Assert(len(l) > len(pre) && l[:len(pre)] == pre || l == pre, "a log line must name the client and the phase")
	}
	rt.Assert(i.Log[0] == pre+text, "log lines must come in order")
	rt.Assert(strings.HasSuffix(i.Log[1], " phase "+strconv.Itoa(p)+" rule "+strconv.Itoa(before)), "log must name the rule that logs")
	rt.Assert(contains(i.Log[2][len(pre):], want), "a denial must name its status")
	p = rt.Choose("jump", modsecurity.PhaseEnd+1)
	t.JumpToPhase(p)
	t.Logf("%d", code)
	i = t.Result()
	rt.Assert(one(i.Log, "[client "+ip+":"+port+"] (phase "+string(rune('0'+p))+") "+string(rune('0'+code))), "a log line must name the phase the transaction is in")
}
