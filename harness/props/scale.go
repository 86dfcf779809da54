package props

import (
	"math"
	"net/url"
	"strconv"

	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"

	"verif/harness/rt"
)

// Harnesses of this file repeat the properties at sizes a configuration or request in
// use has: many rules, values, members, long texts. Most of each is concrete; what is
// symbolic are the places at which they differ.

// HRuleMatchMany: long lists of long values and of transformations; one value at an
// arbitrary place is arbitrary.
func HRuleMatchMany() {
	r := modsecurity.NewSecRule()
	r.Phase = modsecurity.PhaseRequestHeaders
	r.Not = rt.Bool("not")
	nt := []int{0, 1, 6}[rt.Choose("ntrans", 3)]
	for i := 0; i < nt; i++ {
		d := strconv.Itoa(i)
		r.AppendTrans(funcTrans(func(s string) string { return s + d }))
	}
	tail := "012345"[:nt]
	sizes := [][]int{{1}, {9}, {33}, {2, 17}, {0, 5, 1}, {1, 1, 1, 1, 1, 1, 1, 1, 1}}[rt.Choose("sizes", 6)]
	total := 0
	for _, n := range sizes {
		total += n
	}
	at := []int{0, 1, total / 2, total - 2, total - 1}[rt.Choose("at", 5)]
	filler := []string{"", "w", "0123456789012345678901234567890123456789"}[rt.Choose("filler", 3)]
	same := rt.Choose("same", 2) == 1
	odd := rt.Str("odd", 2)
	target := rt.StrUpTo("target", 2)
	hit, k := false, 0
	for _, n := range sizes {
		v := &listVar{}
		for j := 0; j < n; j++ {
			s := filler
			if !same {
				s += strconv.Itoa(k)
			}
			if k == at {
				s = filler + odd
			}
			v.vals = append(v.vals, s)
			if (s == filler+target) != r.Not {
				hit = true
			}
			k++
		}
		r.AppendVariables(v)
	}
	r.SetOperator(funcOp(func(_ *modsecurity.Transaction, s string) bool { return s == filler+target+tail }))
	fired := 0
	r.AppendActions(&funcAct{modsecurity.ActionGroupNonDisruptive, func(*modsecurity.Transaction) { fired++ }})
	rs := modsecurity.NewSecRuleSet()
	rs.AddRules(r)
	t := newTx(rs)
	t.ProcessRequestHeader(nil)
	rt.Assert(fired == 0 || fired == 1, "a rule must fire at most once per evaluation")
	rt.Assert((fired == 1) == hit, "a rule must fire exactly when one of its values matches")
}

// HChainMany: long chains of which at most one rule, anywhere, does not match.
func HChainMany() {
	var trace, want []int
	n := []int{4, 6, 10, 17}[rt.Choose("n", 4)]
	odd := rt.Int("odd", 0, n)
	nact := rt.Choose("nact", 3)
	var parent *modsecurity.SecRule
	for i := 0; i < n; i++ {
		r := ruleIf(modsecurity.PhaseRequestHeaders, i != odd)
		for j := 0; j < nact; j++ {
			r.AppendActions(mark(&trace, 10*i+j))
			want = append(want, 10*i+j)
		}
		if i == 0 {
			parent = r
		} else {
			parent.AppendSubRules(r)
		}
	}
	if odd < n {
		want = nil
	}
	rs := modsecurity.NewSecRuleSet()
	rs.AddRules(ruleIf(modsecurity.PhaseRequestHeaders, true, mark(&trace, -1)), parent, ruleIf(modsecurity.PhaseRequestHeaders, true, mark(&trace, -2)))
	t := newTx(rs)
	t.ProcessRequestHeader(nil)
	want = append(append([]int{-1}, want...), -2)
	rt.Assert(sameInts(trace, want), "a chain must run the actions of every rule once, in order, exactly when all match")
}

// HActionMany: many actions of mixed kinds.
func HActionMany() {
	var trace, want []int
	n := []int{5, 8, 13}[rt.Choose("n", 3)]
	a, b := rt.Choose("a", modsecurity.ActionGroupCount), rt.Choose("b", modsecurity.ActionGroupCount)
	groups := make([]int, n)
	r := ruleIf(modsecurity.PhaseRequestHeaders, true)
	for i := range groups {
		groups[i] = (a + b*i + i/4) % modsecurity.ActionGroupCount
		id := i
		r.AppendActions(&funcAct{groups[i], func(*modsecurity.Transaction) { trace = append(trace, id) }})
	}
	rs := modsecurity.NewSecRuleSet()
	rs.AddRules(r)
	t := newTx(rs)
	t.ProcessRequestHeader(nil)
	for g := 0; g < modsecurity.ActionGroupCount; g++ {
		for i := range groups {
			if groups[i] == g {
				want = append(want, i)
			}
		}
	}
	rt.Assert(sameInts(trace, want), "actions must run once each, by group and then in the order given")
}

// HFlowMany: many rules in one phase; one skips an arbitrary number of them, one
// denies, one does not match.
func HFlowMany() {
	n := []int{6, 9, 18}[rt.Choose("n", 3)]
	skipper, denier, odd := rt.Choose("skipper", 5), 2+rt.Choose("denier", n-1), []int{n, 0, n / 2, n - 1}[rt.Choose("odd", 4)]
	if skipper == 4 {
		skipper = n - 1
	}
	count := []int{0, 1, 2, 3, 5, n - 1, n, n + 2, math.MaxInt}[rt.Choose("count", 9)]
	var trace, want []int
	rs := modsecurity.NewSecRuleSet()
	for i := 0; i < n; i++ {
		r := ruleIf(modsecurity.PhaseRequestHeaders, i != odd, mark(&trace, i))
		if i == skipper {
			r.AppendActions(actions.NewActionSkipN(count))
		}
		if i == denier {
			r.AppendActions(actions.NewActionDeny())
		}
		rs.AddRules(r)
	}
	denied, detect := false, rt.Choose("detect", 2) == 1
	for i := 0; i < n; i++ {
		if i == odd {
			continue
		}
		want = append(want, i)
		if i == denier && !detect {
			denied = true
			break
		}
		if i == skipper {
			if count > n {
				break
			}
			i += count
		}
	}
	t := newTx(rs)
	if detect {
		t.Engine.Enable(modsecurity.StatusDect)
	}
	t.ProcessRequestHeader(nil)
	rt.Assert(sameInts(trace, want), "the rules must run in order, less those skipped, up to the first denial")
	rt.Assert(t.Result().Disruptive == denied, "the decision must be that of the rules that ran")
}

// HPhasesMany: phases with no rules, one or many; any sequence of calls.
func HPhasesMany() {
	var trace, want []int
	rs := modsecurity.NewSecRuleSet()
	sizes := make([]int, modsecurity.PhaseEnd)
	a := rt.Choose("a", 3)
	for _, p := range allPhases {
		sizes[p] = []int{0, 1, 9}[(a+p)%3]
		for i := 0; i < sizes[p]; i++ {
			rs.AddRules(ruleIf(p, true, mark(&trace, 10*p+i)))
		}
	}
	t := newTx(rs)
	done := 0
	for i := 0; i < rt.Bound(4, 5); i++ {
		p := allPhases[rt.Choose("p", len(allPhases))]
		for k := 0; k < 3; k++ {
			callPhase(t, p)
		}
		if p > done {
			for j := 0; j < sizes[p]; j++ {
				want = append(want, 10*p+j)
			}
			done = p
		}
		rt.Assert(sameInts(trace, want), "the rules of a phase must run once, in full, and never after a later phase")
	}
}

// HAllowTwo: two rules anywhere may allow, alone or at the end of a chain, with
// anything else they do.
func HAllowTwo() {
	var trace []int
	type al struct{ at, arg, pos int }
	args := []string{"phase", "request", ""}
	var als []al
	for i := 0; i < 2; i++ {
		als = append(als, al{rt.Choose("at", len(allPhases)), rt.Choose("arg", 3), rt.Choose("pos", 3)})
	}
	rt.Assume(als[0].at <= als[1].at)
	form := rt.Choose("form", 3)
	rs := modsecurity.NewSecRuleSet()
	for k, p := range allPhases {
		for j := 0; j < 3; j++ {
			r := ruleIf(p, true, mark(&trace, 10*p+j))
			for _, a := range als {
				if a.at != k || a.pos != j {
					continue
				}
				act := actions.NewActionAllow(args[a.arg])
				switch form {
				case 0:
					r.AppendActions(act)
				case 1:
					r.AppendActions(act, actions.NewActionLog(), actions.NewActionStatus(404))
				case 2:
					r.AppendSubRules(ruleIf(p, true), ruleIf(p, true, act))
				}
				break
			}
			rs.AddRules(r)
		}
	}
	t := newTx(rs)
	from := 0 // rules of earlier phases do not run any more
	for k, p := range allPhases {
		before := len(trace)
		callPhase(t, p)
		var want []int
		for j := 0; j < 3 && p >= from; j++ {
			want = append(want, 10*p+j)
			for _, a := range als {
				if a.at != k || a.pos != j {
					continue
				}
				from = p + 1
				if args[a.arg] == "request" && from < modsecurity.PhaseResponseHeaders {
					from = modsecurity.PhaseResponseHeaders
				}
				if args[a.arg] == "" && from < modsecurity.PhaseLogging {
					from = modsecurity.PhaseLogging
				}
				break
			}
		}
		rt.Assert(sameInts(trace[before:], want), "allow must skip the rules of what it lets through, and no others")
	}
	res := t.Result()
	rt.Assert(!res.Disruptive && res.Status == 200, "allow must not intervene")
}

// HResultMany: many lines between results, several results kept.
func HResultMany() {
	t := newTx(modsecurity.NewSecRuleSet())
	t.ProcessConnection("c", "1", "", "")
	type snap struct {
		i     *modsecurity.Intervention
		first int
		n     int
	}
	var snaps []snap
	line := 0
	for i := 0; i < rt.Bound(3, 4); i++ {
		n := []int{0, 1, 2, 9, 21}[rt.Choose("n", 5)]
		first := line
		for j := 0; j < n; j++ {
			t.Logf("%d", line)
			line++
		}
		snaps = append(snaps, snap{t.Result(), first, n})
	}
	t.Logf("last")
	for _, s := range snaps {
		rt.Assert(len(s.i.Log) == s.n && s.i.Status == 200 && !s.i.Disruptive, "Result must report what happened since the last one")
		for j := 0; j < s.n; j++ {
			rt.Assert(s.i.Log[j] == "[client c:1] (phase 1) "+strconv.Itoa(s.first+j), "each line must be in the result it belongs to, unchanged")
		}
	}
	rt.Assert(len(t.Result().Log) == 1, "Result must report what happened since the last one")
}

// HBlockMany: default actions of every kind, run by several blocks of several
// transactions.
func HBlockMany() {
	rs := modsecurity.NewSecRuleSet()
	var trace, want []int
	n := []int{0, 1, 3, 4, 8}[rt.Choose("n", 5)]
	a := rt.Choose("a", modsecurity.ActionGroupCount)
	deny := rt.Choose("deny", 3)
	groups := make([]int, n)
	for i := range groups {
		groups[i] = (a + i/2) % modsecurity.ActionGroupCount
		id := i
		rs.AddDefaultActions(&funcAct{groups[i], func(*modsecurity.Transaction) { trace = append(trace, id) }})
	}
	for g := 0; g < modsecurity.ActionGroupCount; g++ {
		for i := range groups {
			if groups[i] == g {
				want = append(want, i)
			}
		}
		if g == modsecurity.ActionGroupDisruptive && deny == 2 {
			rs.AddDefaultActions(actions.NewActionStatus(404))
		}
	}
	if deny > 0 {
		rs.AddDefaultActions(actions.NewActionDeny())
	}
	first := []modsecurity.Action{actions.NewActionBlock()}
	denied := rt.Choose("denied", 2) == 1
	if denied {
		first = []modsecurity.Action{actions.NewActionDeny(), actions.NewActionBlock()}
	}
	rs.AddRules(ruleIf(modsecurity.PhaseRequestHeaders, true, first...), ruleIf(modsecurity.PhaseRequestHeaders, true, actions.NewActionBlock()),
		ruleIf(modsecurity.PhaseRequestBody, true, actions.NewActionBlock()))
	for k := 0; k < 2; k++ {
		t := newTx(rs)
		for _, p := range []int{modsecurity.PhaseRequestHeaders, modsecurity.PhaseRequestBody} {
			trace = nil
			w := want
			callPhase(t, p)
			if deny == 0 && p == modsecurity.PhaseRequestHeaders && !denied {
				w = append(append([]int(nil), want...), want...)
			}
			rt.Assert(sameInts(trace, w), "block must run the default actions, each once, in order")
			i := t.Result()
			if denied && p == modsecurity.PhaseRequestHeaders {
				rt.Assert(i.Disruptive && i.Status == 403, "what was denied before block stays denied")
				continue
			}
			rt.Assert(i.Disruptive == (deny > 0) && i.Status == []int{200, 403, 404}[deny], "block must decide as the default actions say")
		}
	}
}

// HModesBody: with DetectionOnly a body that cannot be inspected decides nothing.
func HModesBody() {
	rs := modsecurity.NewSecRuleSet()
	ran := 0
	count := func(*modsecurity.Transaction) { ran++ }
	for _, p := range allPhases {
		r := ruleIf(p, true)
		r.AppendVariables(allVars[rt.Choose("var", 2)*4](), allVars[9]())
		r.SetOperator(funcOp(func(_ *modsecurity.Transaction, s string) bool { return s == "v" }))
		rs.AddRules(r, ruleIf(p, true, &funcAct{modsecurity.ActionGroupNonDisruptive, count}))
		if p == modsecurity.PhaseRequestBody {
			break
		}
	}
	e := modsecurity.NewEngine()
	e.TmpPath = rt.TempDir()
	e.RequestBodyInMem = 3
	e.RuleSet = rs
	e.RequestBodyAccess = true
	e.Enable(modsecurity.StatusDect)
	t, err := e.NewTransaction()
	rt.Assert(err == nil, "a transaction must be created")
	multi := rt.Choose("multi", 2) == 1
	body := "a=1234567"
	h := formHeader()
	if multi {
		body = multipartBody([]pair{{"a", "1"}}, "B", "\r\n")[:10+rt.Choose("cut", 30)]
		h["Content-Type"] = []string{"multipart/form-data; boundary=B"}
	}
	t.ProcessConnection("c", "1", "", "")
	t.ProcessRequestURL(&url.URL{Path: "/"}, "POST", "HTTP/1.1")
	t.ProcessRequestHeader(h)
	t.AppendRequestBody([]byte(body))
	t.ProcessRequestBody()
	i := t.Result()
	rt.Assert(!i.Disruptive && i.Status == 200 && !t.Abort, "in detection mode a body must decide nothing")
	rt.Assert(ran == 3, "in detection mode a body must not stop later rules")
}
