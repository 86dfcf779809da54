package props

import (
	"github.com/senghoo/modsecurity-go/modsecurity"

	"verif/harness/rt"
)

// HPosition: what a transaction says about where it stands, to actions and between
// phases, is where it stands; JumpTo(i) makes rule i of the phase the next one.
func HPosition() {
	rs := modsecurity.NewSecRuleSet()
	rules := map[int][]*modsecurity.SecRule{}
	var trace, want []int
	busy := allPhases[rt.Choose("busy", len(allPhases))]
	count := []int{4, 7, 5, 12}[rt.Choose("count", rt.Bound(2, 4))]
	jumper, target := rt.Choose("jumper", 4), int(rt.Int64("target"))
	if count > 4 && jumper == 3 {
		jumper = count - 2
	}
	empty, skipped := rt.Choose("empty", 7), rt.Choose("skipped", 7)
	jumped := false
	rt.Assume(target > jumper || empty == 0 && skipped == 0 && count < 7 && target >= 0)
	for _, p := range allPhases {
		n := 1 + p%2
		if p == busy {
			n = count
		} else if p == empty {
			n = 0
		}
		for i := 0; i < n; i++ {
			p, i, n := p, i, n
			r := new(modsecurity.SecRule)
			at := func(t *modsecurity.Transaction) {
				next := i + 1
				if next == n {
					next = modsecurity.StatusEndOfRules
				}
				cp := t.CurrentPhaseRules()
				rt.Assert(t.CurrentPhase() == p && t.CurrentRule() == i && t.CurrentSecRule() == r, "an action must be told the rule and phase it runs in")
				rt.Assert(len(cp) == n && cp[i] == r, "the rules of the current phase must be those of the rule running")
				rt.Assert(t.NextRule() == next, "the next rule must be the one after the one running")
				trace = append(trace, p*100+i)
				if p == busy && i == jumper && target >= 0 && !jumped {
					jumped = true // jumping back, it comes here again
					got := t.JumpTo(target)
					if target < n {
						rt.Assert(got == target && t.NextRule() == target, "a jump must go to the rule named")
					} else {
						rt.Assert(got == modsecurity.StatusEndOfRules && t.NextRule() == modsecurity.StatusEndOfRules, "a jump beyond the last rule must end the phase")
					}
					rt.Assert(t.CurrentRule() == i && t.CurrentSecRule() == r, "a jump must not change which rule is running")
				}
			}
			*r = *ruleIf(p, true, &funcAct{[]int{modsecurity.ActionGroupMetaData, modsecurity.ActionGroupNonDisruptive, modsecurity.ActionGroupFlow}[(i+p)%3], at})
			rules[p] = append(rules[p], r)
			rs.AddRules(r)
		}
	}
	t := newTx(rs)
	rt.Assert(t.CurrentRule() == modsecurity.StatusNotStarted && t.CurrentSecRule() == nil && len(t.CurrentPhaseRules()) == 0 && t.CurrentPhase() == modsecurity.PhaseBegin,
		"a new transaction must not stand at any rule")
	for _, p := range allPhases {
		if p == skipped && p != busy {
			continue
		}
		callPhase(t, p)
		back := false
		for i := 0; i < len(rules[p]); i++ {
			want = append(want, p*100+i)
			if p == busy && i == jumper && target >= 0 && !back {
				back = true
				i = target - 1
			}
		}
		rt.Assert(sameInts(trace, want), "the rules from the one jumped to on must run, once each")
		rt.Assert(t.CurrentPhase() == p && t.CurrentSecRule() == nil, "after a phase the transaction must stand at its end")
	}
	{
		p := int(rt.Int64("phase"))
		if empty > 0 {
			t = newTx(rs)
			t.JumpToPhase(empty)
		}
		got := t.JumpToPhase(p)
		lim := p
		if p < modsecurity.PhaseBegin {
			lim = modsecurity.PhaseBegin
		}
		if p > modsecurity.PhaseEnd {
			lim = modsecurity.PhaseEnd
		}
		rt.Assert(got == lim && t.CurrentPhase() == lim, "a jump to a phase must keep to the phases there are")
		rt.Assert(t.CurrentRule() == modsecurity.StatusNotStarted && t.CurrentSecRule() == nil, "a phase jumped to must not have begun")
	}
}
