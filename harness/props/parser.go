package props

import (
	"strconv"

	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"
	"github.com/senghoo/modsecurity-go/seclang/parser"

	"verif/harness/rt"
)

func parseAll(s string) ([]parser.Directive, error) {
	return parser.NewSecLangScannerFromString(s).AllDirective()
}

// parseText gives a text to the parser and to the loader; both must finish, agree on
// nothing in particular, and return either a result or an error.
func parseText(s string) {
	ds, err := parseAll(s)
	rt.Assert(err == nil || ds == nil, "an error comes without directives")
	rs, err2 := seclang.NewDireSetFromSecLangString(s)
	rt.Assert((rs == nil) == (err2 != nil), "loading must give a result or an error")
	if err != nil {
		rt.Assert(err2 != nil, "a text the parser refuses must not load")
	}
	if rs != nil {
		e := modsecurity.NewEngine()
		rt.Assert(rs.Execute(e) == nil, "what loads must execute")
	}
}

// HParseAny: arbitrary text.
func HParseAny() {
	parseText(rt.StrUpTo("s", rt.Bound(4, 5)))
}

// HParseTail: arbitrary text after a valid beginning.
func HParseTail() {
	pre := []string{"SecRule ", "SecRule ARGS ", "SecRule ARGS \"", "SecRule ARGS \"@", "SecRule ARGS x ", "SecRule ARGS x \"id:1,", "SecRule ARGS x \"", "SecRule ARGS x 't:",
		"SecRuleEngine ", "SecRuleEngine On", "SecRequestBodyAccess '", "SecRule ARGS x id:1,chain", "SecRule ARGS x 'severity:", "SecRule ARGS:", "SecRule &", "SecRule ARGS x \"id:", "SecRule ARGS x \"phase:", "SecRule ARGS x \"status:"}
	parseText(pre[rt.Choose("pre", len(pre))] + rt.StrUpTo("s", rt.Bound(2, 3)))
}

// HParseMid: one arbitrary byte or two in place of any part of a valid text.
func HParseMid() {
	base := "SecRule ARGS|!ARGS:a|&XARGS \\\n \"!@rx a\\\"b\" \\\n\t\"id:1,phase:2,\\\n t:none,deny\"\nSecRuleEngine On\n"
	if rt.Choose("valid", 2) == 1 {
		base = "SecRule ARGS|!ARGS:a|&ARGS \\\n \"!@rx a\\\"b\" \\\n\t\"id:1,phase:2,\\\n t:none,deny\"\nSecRuleEngine On\n"
	}
	i := rt.Choose("at", len(base))
	n := rt.Choose("cut", 3)
	if i+n > len(base) {
		n = len(base) - i
	}
	parseText(base[:i] + rt.Str("c", rt.Bound(1, 2)) + base[i+n:])
}

// quote writes s as a quoted string.
func quote(s string, q byte) string {
	out := []byte{q}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\\' || c == q:
			out = append(out, '\\', c)
		case c == '\n':
			out = append(out, '\\', 'n')
		case c == '\r':
			out = append(out, '\\', 'r')
		default:
			out = append(out, c)
		}
	}
	return string(append(out, q))
}

var blanks = []string{" ", "\t", "  ", " \t", "\\\n", " \\\n ", "\\\n\t\\\n ", "\f", "\v", " \\\r\n "}

// HReadString: any text, quoted, is read back exactly, wherever it stands.
func HReadString() {
	s := rt.StrUpTo("s", rt.Bound(3, 4))
	q := byte('"')
	if rt.Choose("q", 2) == 1 {
		q = '\''
	}
	pre := ""
	if k := rt.Choose("blank", len(blanks)+1); k > 0 {
		pre = blanks[k-1]
	}
	sc := parser.NewSecLangScannerFromString(pre + quote(s, q) + " 'next'")
	got, err := sc.ReadString()
	rt.Assert(err == nil && got == s, "a quoted string must be read back exactly")
	got, err = sc.ReadString()
	rt.Assert(err == nil && got == "next", "what follows a quoted string must be read next")
}

// HReadWordString: unquoted words end at a blank.
func HReadWordString() {
	n := 1 + rt.Choose("n", 3)
	w := rt.Str("w", n)
	for i := 0; i < n; i++ {
		rt.Assume(w[i] > ' ' && w[i] != '\\')
	}
	rt.Assume(w[0] != '"' && w[0] != '\'')
	tail := []string{" x", "\tx", "  'x'", " \\\n x"}[rt.Choose("tail", 4)]
	sc := parser.NewSecLangScannerFromString(w + tail)
	got, err := sc.ReadString()
	rt.Assert(err == nil && got == w, "an unquoted word must be read back exactly")
	got, err = sc.ReadString()
	rt.Assert(err == nil && got == "x", "what follows a word must be read next")
}

// readQuoted: the string a text beginning with a quote stands for, where its
// closing quote is, or that it is not a string.
func readQuoted(text string) (val string, end int, ok bool) {
	q := text[0]
	var out []byte
	for i := 1; i < len(text); i++ {
		c := text[i]
		if c == q {
			return string(out), i, true
		}
		if c == '\n' || c == '\r' {
			return "", i, false
		}
		if c != '\\' {
			out = append(out, c)
			continue
		}
		i++
		if i == len(text) {
			return "", i, false
		}
		c = text[i]
		switch c {
		case 'a':
			c = '\a'
		case 'b':
			c = '\b'
		case 'f':
			c = '\f'
		case 'n':
			c = '\n'
		case 'r':
			c = '\r'
		case 't':
			c = '\t'
		case 'v':
			c = '\v'
		case '\r', '\n':
			if i+1 < len(text) {
				d := text[i+1]
				rt.Assume(c == '\r' || d != '\r') // LF CR is no line end anyone writes
				if c == '\r' && d == '\n' {
					i++
				}
			}
			c = '\n'
		}
		out = append(out, c)
	}
	return "", len(text), false
}

// HReadEscapes: any text between quotes: escapes, line continuations, line ends.
func HReadEscapes() {
	s := rt.StrUpTo("s", rt.Bound(4, 5))
	q := []string{"\"", "'"}[rt.Choose("q", 2)]
	text := q + "x" + s + "y" + q + " next "
	want, end, ok := readQuoted(text)
	sc := parser.NewSecLangScannerFromString(text)
	got, err := sc.ReadString()
	rt.Assert((err == nil) == ok, "exactly the strings closed on their line must be accepted")
	if !ok {
		return
	}
	rt.Assert(got == want, "a quoted string must be read as written")
	if end == len(s)+3 {
		got, err = sc.ReadString()
		rt.Assert(err == nil && got == "next", "what follows a quoted string must be read next")
	}
}

var varNames = []string{"ARGS", "ARGS_NAMES", "ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "QUERY_STRING", "REMOTE_ADDR", "REQUEST_BASENAME", "REQUEST_BODY",
	"REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "REQUEST_FILENAME", "REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "REQUEST_METHOD", "REQUEST_PROTOCOL", "REQUEST_URI", "RESPONSE_BODY",
	"RESPONSE_CONTENT_LENGTH", "RESPONSE_CONTENT_TYPE", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES", "RESPONSE_PROTOCOL", "RESPONSE_STATUS"}

var varTokens = []int{parser.TkVarArgs, parser.TkVarArgsNames, parser.TkVarArgsGet, parser.TkVarArgsGetNames, parser.TkVarArgsPost, parser.TkVarArgsPostNames, parser.TkVarQueryString,
	parser.TkVarRemoteAddr, parser.TkVarRequestBasename, parser.TkVarRequestBody, parser.TkVarRequestCookies, parser.TkVarRequestCookiesNames, parser.TkVarRequestFilename,
	parser.TkVarRequestHeaders, parser.TkVarRequestHeadersNames, parser.TkVarRequestMethod, parser.TkVarRequestProtocol, parser.TkVarRequestUri, parser.TkVarResponseBody,
	parser.TkVarResponseContentLength, parser.TkVarResponseContentType, parser.TkVarResponseHeaders, parser.TkVarResponseHeadersNames, parser.TkVarResponseProtocol, parser.TkVarResponseStatus}

// HParseVariables: a list of variables, each with its selector, negation and count.
func HParseVariables() {
	n := 1 + rt.Choose("n", rt.Bound(2, 3))
	var want []parser.Variable
	list := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			list += []string{"|", ","}[rt.Choose("sep", 2)]
		}
		k := rt.Choose("name", rt.Bound(2, 6)) * 4 // spread over the names
		if i == 0 {
			k = rt.Choose("name0", len(varNames))
		}
		v := parser.Variable{Tk: varTokens[k]}
		mark := rt.Choose("mark", 3)
		switch mark {
		case 1:
			v.Exclusion = true
			list += "!"
		case 2:
			v.Count = true
			list += "&"
		}
		list += varNames[k]
		most := rt.Bound(3, 4)
		if i > 0 {
			most = 2
		}
		if m := rt.Choose("index", most); m > 0 {
			v.Index = rt.Str("idx", m)
			for j := 0; j < m; j++ {
				c := v.Index[j]
				rt.Assume(c != '|' && c != ',' && c != '"' && c != '\\' && c != '\n' && c != '\r')
			}
			list += []string{":", "."}[rt.Choose("colon", 2)] + v.Index
		}
		want = append(want, v)
	}
	ds, err := parseAll("SecRule \"" + list + "\" x id:1")
	rt.Assert(err == nil && len(ds) == 1, "a list of variables must be accepted")
	r := ds[0].(*parser.RuleDirective)
	rt.Assert(len(r.Variable) == n, "each variable of the list must be read")
	for i, v := range r.Variable {
		rt.Assert(*v == want[i], "a variable of the list must be read as written")
	}
}

var opNames = []string{"rx", "eq", "ge", "gt", "le", "lt"}
var opTokens = []int{parser.TkOpRx, parser.TkOpEq, parser.TkOpGe, parser.TkOpGt, parser.TkOpLe, parser.TkOpLt}

// HParseOperator: operator, negation and argument, exactly.
func HParseOperator() {
	not := rt.Choose("not", 2) == 1
	text := ""
	if not {
		text = "!"
	}
	k := rt.Choose("op", len(opNames)+1)
	arg := rt.StrUpTo("arg", rt.Bound(3, 4))
	tk := parser.TkOpRx
	if k < len(opNames) {
		tk = opTokens[k]
		text += "@" + opNames[k] + " " + arg
	} else {
		rt.Assume(arg != "" && arg[0] != '@' && (not || arg[0] != '!'))
		text += arg
	}
	ds, err := parseAll("SecRule ARGS " + quote(text, '"') + " id:1")
	rt.Assert(err == nil && len(ds) == 1, "an operator must be accepted")
	o := ds[0].(*parser.RuleDirective).Operator
	rt.Assert(o.Tk == tk && o.Not == not && o.Argument == arg, "operator, negation and argument must be read as written")
}

// HParseUnknown: a name that does not exist is refused, wherever it stands.
func HParseUnknown() {
	w := rt.Alpha("w", 1+rt.Choose("n", rt.Bound(3, 4)), "abcdegilmnopqrstvwxyzARGSVEXML_@O")
	switch rt.Choose("where", 7) {
	case 5:
		_, err := parseAll(w + "SecRuleEngine On")
		rt.Assert(err != nil, "an unknown directive must be refused")
	case 6:
		_, err := parseAll("SecRuleEngine" + w + " On")
		rt.Assert(err != nil, "an unknown directive must be refused")
	case 0:
		_, err := parseAll("SecRule " + w + " x id:1")
		rt.Assert((err == nil) == (w == "ARGS" || w == "XML"), "exactly the known variables must be accepted")
	case 1:
		_, err := parseAll("SecRule ARGS \"@" + w + " 1\" id:1")
		rt.Assert((err == nil) == member(w, opNames), "exactly the known operators must be accepted")
	case 2:
		_, err := parseAll("SecRule ARGS x \"" + w + "\"")
		known := member(w, []string{"allow", "msg", "tag", "rev", "ver", "log", "deny", "pass", "skip"})
		open := member(w, []string{"id", "phase", "t", "severity", "status", "chain"})
		rt.Assert(open || (err == nil) == known, "exactly the known actions must be accepted")
	case 3:
		_, err := parseAll("SecRule ARGS x \"id:1,t:" + w + "\"")
		rt.Assert((err == nil) == (w == "none"), "exactly the known transformations must be accepted")
	case 4:
		_, err := parseAll(w + " On")
		rt.Assert(err != nil, "an unknown directive must be refused")
	}
}

// HParseNumbers: id, phase and severity, as they are or in one pair of quotes.
func HParseNumbers() {
	s := rt.Str("s", 1+rt.Choose("n", rt.Bound(3, 4)))
	for i := 0; i < len(s); i++ {
		c := s[i]
		rt.Assume(c != ',' && c != '"' && c != '\\' && c > ' ' && (c < 0x80 || len(s) <= 2 && noBlankLead(c)))
	}
	arg := s
	if rt.Choose("quoted", 2) == 1 {
		arg = "'" + s + "'"
	}
	digits := arg
	if len(arg) >= 2 && arg[0] == '\'' && arg[len(arg)-1] == '\'' {
		digits = arg[1 : len(arg)-1]
	}
	neg := len(digits) > 1 && digits[0] == '-'
	if len(digits) > 1 && (digits[0] == '-' || digits[0] == '+') {
		digits = digits[1:]
	}
	num, isNum := 0, digits != ""
	for i := 0; i < len(digits); i++ {
		isNum = isNum && digits[i] >= '0' && digits[i] <= '9'
		num = num*10 + int(digits[i]) - '0'
	}
	if neg {
		num = -num
	}
	switch rt.Choose("what", 3) {
	case 0:
		ds, err := parseAll("SecRule ARGS x \"phase:2,id:" + arg + "\"")
		rt.Assert((err == nil) == isNum, "an id must be a number")
		if err == nil {
			rt.Assert(ds[0].(*parser.RuleDirective).Actions.Id == num, "the id must be read as written")
		}
	case 1:
		ds, err := parseAll("SecRule ARGS x \"id:1,phase:" + arg + "\"")
		rt.Assert((err == nil) == (isNum && num >= 1 && num <= 5), "a phase must be 1 to 5")
		if err == nil {
			rt.Assert(ds[0].(*parser.RuleDirective).Actions.Phase == num, "the phase must be read as written")
		}
	case 2:
		ds, err := parseAll("SecRule ARGS x \"id:1,severity:" + arg + "\"")
		rt.Assert((err == nil) == (isNum && num >= 0 && num <= 7), "a severity must be 0 to 7")
		if err == nil {
			a := ds[0].(*parser.RuleDirective).Actions
			rt.Assert(len(a.Action) == 1 && a.Action[0].Tk == parser.TkActionSeverity && a.Action[0].Argument == strconv.Itoa(num), "the severity must be read as written")
		}
	}
}

var severities = []string{"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG"}

// HParseActions: a list of actions, in order, with their arguments.
func HParseActions() {
	names := []string{"msg", "tag", "rev", "ver", "logdata", "setvar", "status", "skip", "allow"}
	toks := []int{parser.TkActionMsg, parser.TkActionTag, parser.TkActionRev, parser.TkActionVer, parser.TkActionLogData, parser.TkActionSetVar, parser.TkActionStatus, parser.TkActionSkip, parser.TkActionAllow}
	plain := []string{"deny", "log", "block", "pass", "capture"}
	ptoks := []int{parser.TkActionDeny, parser.TkActionLog, parser.TkActionBlock, parser.TkActionPass, parser.TkActionCapture}
	trans := []string{"lowercase", "urlDecode", "urlDecodeUni", "none", "compressWhitespace", "removeWhitespace", "replaceNulls", "removeNulls"}
	ttoks := []int{parser.TkTransLowercase, parser.TkTransUrlDecode, parser.TkTransUrlDecodeUni, parser.TkTransNone, parser.TkTransCompressWhitespace, parser.TkTransRemoveWhitespace, parser.TkTransReplaceNulls, parser.TkTransRemoveNulls}
	var acts []parser.Action
	var trs []int
	id, phase, chain := 0, 0, false
	list := ""
	n := 1 + rt.Choose("n", rt.Bound(2, 3))
	for i := 0; i < n; i++ {
		if i > 0 {
			list += []string{",", ", ", ",\\\n  "}[rt.Choose("sep", 3)]
		}
		switch rt.Choose("kind", 6) {
		case 0:
			k := rt.Choose("name", len(names))
			arg := rt.Str("arg", rt.Choose("len", rt.Bound(3, 4)))
			for j := 0; j < len(arg); j++ {
				c := arg[j]
				rt.Assume(c != '\'' && c != '"' && c != '\\' && c != '\n' && c != '\r' && c != ',')
			}
			list += names[k] + ":'" + arg + "'"
			acts = append(acts, parser.Action{Tk: toks[k], Argument: "'" + arg + "'"})
		case 1:
			k := rt.Choose("plain", len(plain))
			list += plain[k]
			acts = append(acts, parser.Action{Tk: ptoks[k]})
		case 2:
			k := rt.Choose("trans", len(trans))
			list += "t:" + trans[k]
			trs = append(trs, ttoks[k])
		case 3:
			d := rt.Alpha("id", 1, "123456789")
			list += "id:" + d
			id = int(d[0] - '0')
		case 4:
			k := rt.Choose("phase", 8)
			list += "phase:" + []string{"1", "2", "3", "4", "5", "request", "response", "logging"}[k]
			phase = []int{1, 2, 3, 4, 5, 2, 4, 5}[k]
		case 5:
			if rt.Choose("sev", 2) == 1 {
				k := rt.Choose("severity", 8)
				list += "severity:" + severities[k]
				acts = append(acts, parser.Action{Tk: parser.TkActionSeverity, Argument: strconv.Itoa(k)})
			} else {
				list += "chain"
				chain = true
			}
		}
	}
	ds, err := parseAll("SecRule ARGS x \"" + list + "\"\n")
	rt.Assert(err == nil && len(ds) == 1, "a list of actions must be accepted")
	a := ds[0].(*parser.RuleDirective).Actions
	rt.Assert(a.Id == id && a.Chain == chain, "id and chain must be read as written")
	rt.Assert(phase == 0 || a.Phase == phase, "the phase must be read as written")
	rt.Assert(len(a.Action) == len(acts) && len(a.Trans) == len(trs), "every action must be read once")
	for i := range acts {
		rt.Assert(*a.Action[i] == acts[i], "an action must be read as written, in order")
	}
	for i := range trs {
		rt.Assert(a.Trans[i].Tk == trs[i], "a transformation must be read as written, in order")
	}
}

// HParseComma: a comma inside a quoted argument belongs to the argument.
func HParseComma() {
	arg := rt.Str("arg", 1+rt.Choose("len", rt.Bound(3, 4)))
	for j := 0; j < len(arg); j++ {
		c := arg[j]
		rt.Assume(c != '\'' && c != '"' && c != '\\' && c != '\n' && c != '\r')
	}
	gap := []string{"", " ", "\t", "\\\n  ", " \\\r\n\v\f"}[rt.Choose("gap", 5)]
	out, in := "\"", "'"
	if rt.Choose("quote", 2) == 1 {
		out, in = in, out
	}
	ds, err := parseAll("SecRule ARGS x " + out + "id:7" + gap + ",msg:" + in + arg + in + gap + ",phase:2" + gap + ",tag:" + in + "a,b" + in + gap + ",t:none" + gap + ",deny" + gap + out + "\n")
	rt.Assert(err == nil && len(ds) == 1, "a comma inside quotes must be accepted")
	a := ds[0].(*parser.RuleDirective).Actions
	rt.Assert(a.Id == 7 && a.Phase == 2 && len(a.Trans) == 1 && len(a.Action) == 3, "every action must be read once")
	rt.Assert(a.Action[0].Argument == in+arg+in && a.Action[1].Argument == in+"a,b"+in && a.Action[2].Tk == parser.TkActionDeny, "a quoted argument must be read as written")
}

// HParseValues: On, Off and DetectionOnly in any case, and nothing else.
func HParseValues() {
	dir := rt.Choose("dir", 3)
	name := []string{"SecRuleEngine", "SecRequestBodyAccess", "SecResponseBodyAccess"}[dir]
	b := []byte(name)
	flip := rt.Choose("flip", len(b))
	b[flip] ^= 0x20
	var val string
	want := -1
	switch rt.Choose("val", 4) {
	case 0:
		val = rt.Str("v", 1+rt.Choose("n", 4))
		for i := 0; i < len(val); i++ {
			rt.Assume(val[i] > ' ' && (val[i] < 0x80 || len(val) < 3) && val[i] != '"' && val[i] != '\'' && val[i] != '\\')
		}
		switch lowerASCII(val) {
		case "on":
			want = 1
		case "off":
			want = 0
		}
	case 1:
		val = "DetectionOnly"
		v := []byte(val)
		v[rt.Choose("vflip", len(v))] ^= 0x20
		val = string(v)
		want = 2
	case 2:
		val = "DetectionOnly" + rt.Alpha("t", 1, "abcxyz09_")
	case 3:
		val, want = "\"On\"", 1
	}
	if want == 2 && dir != 0 {
		want = -1
	}
	ds, err := parseAll(string(b) + blanks[rt.Choose("blank", 4)] + val + "\n")
	rt.Assert((err == nil) == (want >= 0), "exactly the values of the directive must be accepted")
	if err != nil {
		return
	}
	rt.Assert(len(ds) == 1, "one directive must be read")
	switch d := ds[0].(type) {
	case *parser.TriBoolArgDirective:
		rt.Assert(d.Token() == parser.TkDirRuleEng && dir == 0 && d.Value == []int{parser.TriBoolFalse, parser.TriBoolTrue, parser.TriBoolElse}[want], "the value must be read as written")
	case *parser.BoolArgDirective:
		rt.Assert(d.Token() == []int{0, parser.TkDirReqBody, parser.TkDirResBody}[dir] && d.Value == (want == 1), "the value must be read as written")
	default:
		rt.Assert(false, "the directive must be read as what it is")
	}
}

// HParseValueNear: a value that differs by one byte, whichever, from one of those that
// a directive takes is refused, unless it is the same in another case.
func HParseValueNear() {
	dir := rt.Choose("dir", 3)
	val := []string{"On", "Off", "DetectionOnly"}[rt.Choose("val", 3)]
	at := rt.Choose("at", len(val)+1)
	c := rt.Byte("c")
	pad := []string{"", "a", "On"}[rt.Choose("pad", 3)]
	near := val[:at] + pad + string([]byte{c}) + val[at:]
	if rt.Choose("instead", 2) == 1 {
		rt.Assume(at < len(val))
		near = val[:at] + pad + string([]byte{c}) + val[at+1:]
	}
	if rt.Choose("rest", 2) == 1 {
		near = val[:at] + string([]byte{c}) + pad
	}
	want := -1
	switch lowerASCII(near) {
	case "on":
		want = parser.TriBoolTrue
	case "off":
		want = parser.TriBoolFalse
	case "detectiononly":
		if dir == 0 {
			want = parser.TriBoolElse
		} else {
			want = -1
		}
	}
	name := []string{"SecRuleEngine", "SecRequestBodyAccess", "SecResponseBodyAccess"}[dir]
	text := ""
	for i := 0; i < len(near); i++ {
		if b := near[i]; b == '"' || b == '\\' || b == '\n' || b == '\r' {
			text += "\\"
		}
		text += near[i : i+1]
	}
	ds, err := parseAll(name + " \"" + text + "\"\n")
	accept := want != -1 || lowerASCII(near) == "off"
	rt.Assert((err == nil) == accept, "exactly the values of the directive must be accepted")
	rt.Assert(err != nil || len(ds) == 1, "one directive must be read")
	if err == nil && dir == 0 {
		d, ok := ds[0].(*parser.TriBoolArgDirective)
		rt.Assert(ok && d.Value == want, "the value must be read as written")
	} else if err == nil {
		d, ok := ds[0].(*parser.BoolArgDirective)
		rt.Assert(ok && d.Value == (lowerASCII(near) == "on"), "the value must be read as written")
	}
}

// HParseCut: a directive ends with its line unless the line end is escaped.
func HParseCut() {
	parts := []string{"SecRule", "ARGS", "'x'", "id:1"}
	at := 1 + rt.Choose("at", 3)
	nl := []string{"\n", "\r\n", "\r", "\\\n\n", "\\\r\n\r\n", "\\\n \n", "\\\r\n\n", "\\\r\r"}[rt.Choose("nl", 8)]
	text := ""
	for i, p := range parts {
		if i == at {
			text += []string{"", " "}[rt.Choose("pad", 2)] + nl
		}
		text += " " + p
	}
	_, err := parseAll(text + "\n")
	rt.Assert(err != nil, "a rule cut by a line end must be refused")
	rs, err := seclang.NewDireSetFromSecLangString(text + "\n")
	rt.Assert(rs == nil && err != nil, "a rule cut by a line end must be refused")
}

// HParseSequence: directives come out in the order they stand in, whatever blanks,
// blank lines, continuations and line ends separate them.
func HParseSequence() {
	seps := []string{"\n", "\r\n", "\n\n", " \n\t", "\r", "\f\n\v\f", "\n\x00", "\n \x00\x00\n\x00\t"}
	gaps := []string{" ", "\f", "\v", " \\\n ", " \\\r\n ", "\t", " \t", " \\\n\t\\\n "}
	n := 1 + rt.Choose("n", rt.Bound(2, 3))
	text := []string{"", "\n", "  \t", "\r\n", "\f", "\v\n\f\v "}[rt.Choose("lead", 6)]
	var kinds []int
	for i := 0; i < n; i++ {
		k := rt.Choose("kind", 4)
		kinds = append(kinds, k)
		gap := gaps[rt.Choose("gap", rt.Bound(5, len(gaps)))]
		switch k {
		case 0:
			text += "SecRuleEngine" + gap + "On"
		case 1:
			text += "SecRequestBodyAccess" + gap + "Off"
		case 2:
			text += "SecRule" + gap + "ARGS" + gap + "\"@rx a\"" + gap + "\"id:5,deny\""
		case 3:
			text += "SecRule" + gap + "'ARGS'" + gap + "x" + gap + "id:6"
		}
		s := rt.Choose("sep", len(seps))
		if i < n-1 || k != 0 && k != 1 && k != 3 || rt.Choose("end", 2) == 1 {
			text += seps[s]
		} else {
			text += "\n"
		}
	}
	ds, err := parseAll(text)
	rt.Assert(err == nil && len(ds) == n, "every directive must be read")
	for i, d := range ds {
		rt.Assert(d.Token() == []int{parser.TkDirRuleEng, parser.TkDirReqBody, parser.TkDirRule, parser.TkDirRule}[kinds[i]], "directives must come in order")
		if r, ok := d.(*parser.RuleDirective); ok {
			rt.Assert(len(r.Variable) == 1 && r.Variable[0].Tk == parser.TkVarArgs && r.Operator.Tk == parser.TkOpRx, "a rule must be read as written")
			if kinds[i] == 2 {
				rt.Assert(r.Operator.Argument == "a" && r.Actions.Id == 5 && len(r.Actions.Action) == 1, "a rule must be read as written")
			} else {
				rt.Assert(r.Operator.Argument == "x" && r.Actions.Id == 6 && len(r.Actions.Action) == 0, "a rule must be read as written")
			}
		}
	}
}
