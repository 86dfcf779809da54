package props

import (
	"github.com/senghoo/modsecurity-go/modsecurity"

	"verif/harness/rt"
)

// newTx is a transaction over rs with the given body limits.
func newTxLimits(rs *modsecurity.SecRuleSet, mem, file, resp int64) *modsecurity.Transaction {
	e := modsecurity.NewEngine()
	e.Enable(modsecurity.StatusOn)
	e.TmpPath = rt.TempDir()
	e.RequestBodyInMem, e.RequestBody, e.ResponseBody = mem, file, resp
	e.RequestBodyAccess, e.ResponseBodyAccess = true, true
	t, err := modsecurity.NewTransaction(e, rs)
	rt.Assert(err == nil && t != nil, "a transaction must be created")
	return t
}

func newTx(rs *modsecurity.SecRuleSet) *modsecurity.Transaction {
	return newTxLimits(rs, 64, 128, 64)
}

// noBlankLead: not a byte that begins a character some take for a blank.
func noBlankLead(c byte) bool { return c != 0xc2 && c != 0xe1 && c != 0xe2 && c != 0xe3 }

func hasString(list []string, s string) bool {
	for _, e := range list {
		if e == s {
			return true
		}
	}
	return false
}

// replaceOne replaces the first old in list.
func replaceOne(list []string, old, s string) []string {
	for i, e := range list {
		if e == old {
			list[i] = s
			break
		}
	}
	return list
}
