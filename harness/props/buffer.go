package props

import (
	"bytes"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/variables"

	"verif/harness/rt"
)

// The body buffer is reached through the Body of a transaction's request.

// anyLimits: any two 64-bit limits.
func anyLimits() (mem, file int64) {
	mem, file = rt.Int64("mem"), rt.Int64("file")
	rt.Assume(mem >= 0 && file >= 0)
	return
}

// HBufContent: any sequence of writes within the limits is read back exactly, by
// every way of reading, wherever the data went.
func HBufContent() {
	mem, file := anyLimits()
	b := newTxLimits(modsecurity.NewSecRuleSet(), mem, file, 8).Request.Body
	var want []byte
	k := rt.Bound(3, 4)
	for i := 0; i < k; i++ {
		p := rt.Bytes("p", rt.Choose("n", 4))
		rt.Assume(int64(len(want)+len(p)) <= file)
		n, err := b.Write(p)
		rt.Assert(err == nil && n == len(p), "a write within the limits must be accepted in full")
		want = append(want, p...)
		// the caller may reuse its slice
		for j := range p {
			p[j] = 0xee
		}
	}
	rt.Assert(b.Len() == int64(len(want)), "Len must be the number of bytes written")
	switch rt.Choose("how", 4) {
	case 0:
		step := 1 + rt.Choose("step", 3)
		var got []byte
		tmp := make([]byte, step)
		for i := 0; i <= len(want)+1; i++ {
			n, err := b.Read(tmp)
			got = append(got, tmp[:n]...)
			if err == io.EOF {
				break
			}
			rt.Assert(err == nil, "reading must not fail")
			rt.Assert(i <= len(want), "reading must reach the end")
		}
		rt.Assert(string(got) == string(want), "reading must return what was written")
	case 1:
		var w bytes.Buffer
		n, err := b.WriteTo(&w)
		rt.Assert(err == nil && n == int64(len(want)), "WriteTo must copy everything")
		rt.Assert(w.String() == string(want), "WriteTo must copy what was written")
	case 2:
		s, err := b.String()
		if int64(len(want)) <= mem {
			rt.Assert(err == nil && s == string(want), "String must return what was written")
		} else {
			rt.Assert(err == modsecurity.ErrOutOfMemLimit, "String must say that the data exceed the memory limit")
			rt.Assert(s == string(want[:mem]), "String must return the part in memory")
		}
	case 3:
		s, err := b.Bytes()
		if int64(len(want)) <= mem {
			rt.Assert(err == nil && string(s) == string(want), "Bytes must return what was written")
		} else {
			rt.Assert(err == modsecurity.ErrOutOfMemLimit, "Bytes must say that the data exceed the memory limit")
			rt.Assert(string(s) == string(want[:mem]), "Bytes must return the part in memory")
		}
	}
	rt.Assert(b.Len() == int64(len(want)), "reading must not change Len")
}

// HBufReread: after any reading, seeking to an offset and reading returns the rest.
func HBufReread() {
	mem := rt.Choose("mem", 4)
	b := newTxLimits(modsecurity.NewSecRuleSet(), int64(mem), 8, 8).Request.Body
	want := rt.Bytes("p", 1+rt.Choose("n", 4))
	b.Write(append([]byte(nil), want[:1]...))
	b.Write(append([]byte(nil), want[1:]...))
	for i := 0; i < 2; i++ {
		switch rt.Choose("first", 4) {
		case 0:
			b.Read(make([]byte, 2))
		case 1:
			b.String()
		case 2:
			b.Bytes()
		case 3:
			b.WriteTo(new(bytes.Buffer))
		}
	}
	off := rt.Choose("off", len(want)+1)
	n, err := b.Seek(int64(off), io.SeekStart)
	rt.Assert(err == nil && n == int64(off), "seeking must report the new offset")
	var w bytes.Buffer
	_, err = b.WriteTo(&w)
	rt.Assert(err == nil && w.String() == string(want[off:]), "after seeking, the rest must be read")
	if mem > len(want) {
		mem = len(want)
	}
	s, _ := b.String()
	p, _ := b.Bytes()
	rt.Assert(s == string(want[:mem]) && string(p) == s, "however often it is read, the part in memory must be there")
}

// HBufLimits: a write that would exceed the body limit is refused as a whole and
// changes nothing; smaller ones still fit.
func HBufLimits() {
	mem, file := anyLimits()
	b := newTxLimits(modsecurity.NewSecRuleSet(), mem, file, 8).Request.Body
	var want []byte
	for i := 0; i < rt.Bound(3, 4); i++ {
		p := rt.Bytes("p", rt.Choose("n", 5))
		n, err := b.Write(p)
		if int64(len(want)+len(p)) > file {
			rt.Assert(n == 0 && err == modsecurity.ErrOutOfFileLimit, "a write beyond the body limit must be refused")
		} else {
			rt.Assert(n == len(p) && err == nil, "a write within the body limit must be accepted")
			want = append(want, p...)
		}
		rt.Assert(b.Len() == int64(len(want)), "Len must be the number of bytes accepted")
	}
	var w bytes.Buffer
	_, err := b.WriteTo(&w)
	rt.Assert(err == nil && w.String() == string(want), "the content must be what was accepted")
}

// HBufAppend: the same through AppendRequestBody and AppendResponseBody.
func HBufAppend() {
	e := modsecurity.NewEngine()
	e.TmpPath = rt.TempDir()
	e.RequestBodyInMem, e.RequestBody, e.ResponseBody = 2, 4, 3
	if m := rt.Choose("mode", 4); m < 3 {
		e.Enable([]int{modsecurity.StatusOn, modsecurity.StatusOff, modsecurity.StatusDect}[m])
	}
	t, err := e.NewTransaction()
	rt.Assert(err == nil, "a transaction must be created")
	if rt.Choose("abort", 2) == 1 {
		t.AbortWithStatus(403)
	}
	var req, res []byte
	for i := 0; i < rt.Bound(3, 4); i++ {
		p := rt.Bytes("p", rt.Choose("n", 4))
		if rt.Choose("resp", 2) == 0 {
			err := t.AppendRequestBody(p)
			rt.Assert((err == nil) == (len(req)+len(p) <= 4), "AppendRequestBody must enforce the request limit")
			if err == nil {
				req = append(req, p...)
			}
		} else {
			err := t.AppendResponseBody(p)
			rt.Assert((err == nil) == (len(res)+len(p) <= 3), "AppendResponseBody must enforce the response limit")
			if err == nil {
				res = append(res, p...)
			}
		}
	}
	var w, v bytes.Buffer
	t.Request.Body.WriteTo(&w)
	t.Response.Body.WriteTo(&v)
	rt.Assert(w.String() == string(req), "the request body must hold what was appended")
	rt.Assert(v.String() == string(res), "the response body must hold what was appended")
	s, err := t.Response.Body.String()
	rt.Assert(err == nil && s == string(res), "a response body within its limit is in memory")
}

// HBufFaults: when the temporary file cannot be created or comes up short, the
// write reports it, and what was accepted before stays readable.
func HBufFaults() {
	mem := rt.Choose("mem", 5)
	b := newTxLimits(modsecurity.NewSecRuleSet(), int64(mem), 16, 8).Request.Body
	var want []byte
	for i := 0; i < rt.Bound(3, 4); i++ {
		fault := rt.Choose("fault", 3)
		lim := 0
		switch fault {
		case 1:
			rt.BreakTempDir()
		case 2:
			lim = rt.Choose("lim", 4)
			rt.FSLimit(lim)
		}
		p := rt.Bytes("p", []int{0, 1, 3}[rt.Choose("n", 3)])
		n, err := b.Write(p)
		rt.FSLimit(-1)
		if fault == 1 {
			rt.FixTempDir()
		}
		rt.Assert(n >= 0 && n <= len(p), "a write accepts between nothing and everything")
		rt.Assert(err != nil || n == len(p), "a short write must be reported")
		want = append(want, p[:n]...)
		rt.Assert(b.Len() == int64(len(want)), "Len must be the number of bytes accepted")
	}
	var w bytes.Buffer
	_, err := b.WriteTo(&w)
	rt.Assert(err == nil && w.String() == string(want), "the content must be what was accepted")
	b.Close()
	rt.Assert(rt.FileCount() == 0, "closing must leave no file, whatever failed")
}

// HBufReadOnly: once reading has begun, writes are refused.
func HBufReadOnly() {
	mem := rt.Choose("mem", 4)
	t := newTxLimits(modsecurity.NewSecRuleSet(), int64(mem), 8, 8)
	b := t.Request.Body
	want := rt.Bytes("p", rt.Choose("n", 4))
	b.Write(append([]byte(nil), want...))
	switch rt.Choose("first", 5) {
	case 0:
		b.Read(make([]byte, 1))
	case 1:
		b.String()
	case 2:
		b.Bytes()
	case 3:
		b.WriteTo(new(bytes.Buffer))
	case 4:
		b.Seek(0, io.SeekStart)
	}
	q := rt.Bytes("q", 1+rt.Choose("m", 2))
	if rt.Choose("append", 2) == 1 {
		rt.Assert(t.AppendRequestBody(q) == modsecurity.ErrBufferReaded, "appending after reading must be refused")
		_, rerr := t.Response.Body.Read(make([]byte, 1))
		rt.Assert(rerr == io.EOF, "an empty response body must end at once")
		rt.Assert(t.AppendResponseBody(q) == modsecurity.ErrBufferReaded, "appending after reading must be refused")
		rt.Assert(t.Response.Body.Len() == 0, "a refused write must not change Len")
	}
	n, err := b.Write(q)
	rt.Assert(n == 0 && err == modsecurity.ErrBufferReaded, "writing after reading must be refused")
	rt.Assert(b.Len() == int64(len(want)), "a refused write must not change Len")
	b.Seek(0, io.SeekStart)
	var w bytes.Buffer
	b.WriteTo(&w)
	rt.Assert(w.String() == string(want), "a refused write must not change the content")
}

// HBufClose: closing removes the temporary file, whether or not there is one.
func HBufClose() {
	mem := rt.Choose("mem", 3)
	b := newTxLimits(modsecurity.NewSecRuleSet(), int64(mem), 8, 8).Request.Body
	n := rt.Choose("n", 4)
	b.Write(rt.Bytes("p", n))
	if rt.Choose("more", 2) == 1 {
		b.Write(rt.Bytes("q", 2))
		n += 2
	}
	if rt.Choose("read", 2) == 1 {
		b.Read(make([]byte, 1))
	}
	want := 0
	if n > mem {
		want = 1
	}
	rt.Assert(rt.FileCount() == want, "there must be a temporary file exactly when the data exceed the memory limit")
	err := b.Close()
	rt.Assert(err == nil, "closing must succeed")
	rt.Assert(rt.FileCount() == 0, "closing must remove the temporary file")
}

// HBufSeek: reads, seeks of all kinds and whole-content reads in any order; every
// read continues where the last one, or the last seek, left off.
func HBufSeek() {
	mem := []int64{0, 2, 8}[rt.Choose("mem", 3)]
	b := newTxLimits(modsecurity.NewSecRuleSet(), mem, 8, 8).Request.Body
	want := rt.Bytes("p", 4)
	b.Write(append([]byte(nil), want[:1]...))
	b.Write(append([]byte(nil), want[1:]...))
	pos := 0
	for i := 0; i < rt.Bound(3, 4); i++ {
		switch rt.Choose("op", 3) {
		case 0:
			tmp := make([]byte, 1+rt.Choose("rn", 3))
			n, err := b.Read(tmp)
			if pos >= len(want) {
				rt.Assert(n == 0 && err == io.EOF, "reading at the end must report it")
				continue
			}
			rt.Assert(err == nil && n > 0 && n <= len(tmp) && pos+n <= len(want), "reading must not fail")
			rt.Assert(string(tmp[:n]) == string(want[pos:pos+n]), "reading must continue where the last one left off")
			pos += n
		case 1:
			whence := rt.Choose("whence", 3)
			off := rt.Choose("off", 7) - 3
			abs := off + []int{0, pos, len(want)}[whence]
			n, err := b.Seek(int64(off), whence)
			if abs < 0 {
				rt.Assert(err != nil, "seeking before the start must fail")
				continue
			}
			rt.Assert(err == nil && n == int64(abs), "seeking must report the new offset")
			pos = abs
		case 2:
			s, _ := b.String()
			k := len(want)
			if int64(k) > mem {
				k = int(mem)
			}
			rt.Assert(s == string(want[:k]), "String must return the part in memory wherever reading stands")
		}
	}
	var w bytes.Buffer
	n, err := b.WriteTo(&w)
	if pos > len(want) {
		pos = len(want)
	}
	rt.Assert(err == nil && n == int64(len(want)-pos) && w.String() == string(want[pos:]), "the rest must be read")
}

// HNoFiles: whatever is inspected, in memory or in files, closing the two bodies
// leaves no file behind, and inspecting adds none.
func HNoFiles() {
	mem := []int64{0, 1, 60, 1000}[rt.Choose("mem", 4)]
	e := modsecurity.NewEngine()
	e.TmpPath = rt.TempDir()
	e.RequestBodyInMem, e.RequestBody, e.ResponseBody = mem, 1000, 4
	e.RequestBodyAccess, e.ResponseBodyAccess = true, true
	rs := modsecurity.NewSecRuleSet()
	r := modsecurity.NewSecRule()
	r.Phase = modsecurity.PhaseRequestBody
	r.AppendVariables(newVar(rt.Choose("var", 3)))
	r.SetOperator(funcOp(func(*modsecurity.Transaction, string) bool { return false }))
	rs.AddRules(r)
	t, err := modsecurity.NewTransaction(e, rs)
	rt.Assert(err == nil, "a transaction must be created")
	t.ProcessRequestURL(&url.URL{Path: "/p", RawQuery: "q=1"}, "POST", "HTTP/1.1")
	body := ""
	switch rt.Choose("kind", 2) {
	case 0:
		t.ProcessRequestHeader(formHeader())
		body = "a=" + rt.Str("v", 1) + "&b"
	case 1:
		t.ProcessRequestHeader(http.Header{"Content-Type": {"multipart/form-data; boundary=B"}})
		v := rt.Str("v", 1)
		rt.Assume(v[0] != '-')
		names := []string{"up", "b", "c", "up"}
		if rt.Choose("names", 2) == 1 {
			names[0], names[1] = "b", "b"
		}
		for i, n := 0, []int{0, 1, 2, 4}[rt.Choose("files", 4)]; i < n; i++ {
			body += "--B\r\nContent-Disposition: form-data; name=\"" + names[i] + "\"; filename=\"x\"\r\n\r\n" + v + []string{"", "12345", strings.Repeat("z", 70), "6"}[i] + "\r\n"
		}
		body += multipartBody([]pair{{"a", "1"}}, "B", "\r\n")
		if rt.Choose("cut", 2) == 1 {
			body = body[:len(body)-8]
		}
	}
	rt.Assert(t.AppendRequestBody([]byte(body)) == nil, "the body must be accepted")
	want := 0
	if int64(len(body)) > mem {
		want = 1
	}
	rt.Assert(rt.FileCount() == want, "there must be a temporary file exactly when the data exceed the memory limit")
	for i := 0; i < 2; i++ {
		t.ProcessRequestBody()
		newVar(rt.Choose("again", 3)).Fetch(t)
		rt.Assert(rt.FileCount() == want, "inspecting a body must leave no file behind")
	}
	t.AppendResponseBody([]byte("abcd"))
	t.ProcessResponseBody()
	t.ProcessLogging()
	rt.Assert(t.Request.Body.Close() == nil && t.Response.Body.Close() == nil, "closing must succeed")
	rt.Assert(rt.FileCount() == 0, "closing must remove every temporary file")
}

func newVar(i int) modsecurity.Variable {
	return []func() modsecurity.Variable{variables.NewVariableArgsPost, variables.NewVariableArgsNames, variables.NewVariableRequestBody}[i]()
}

// HBodyAfter: whoever reads a body goes on where he was, whatever rules inspected
// it meanwhile.
func HBodyAfter() {
	mem := []int64{0, 3, 1000}[rt.Choose("mem", 3)]
	e := modsecurity.NewEngine()
	e.TmpPath = rt.TempDir()
	e.RequestBodyInMem, e.RequestBody, e.ResponseBody = mem, 2000, 2000
	e.RequestBodyAccess, e.ResponseBodyAccess = rt.Choose("access", 2) == 1, true
	if m := rt.Choose("mode", 3); m < 2 {
		e.Enable([]int{modsecurity.StatusOn, modsecurity.StatusDect}[m])
	}
	e.RuleSet = modsecurity.NewSecRuleSet()
	for _, p := range []int{modsecurity.PhaseRequestHeaders, modsecurity.PhaseRequestBody, modsecurity.PhaseResponseBody} {
		r := ruleIf(p, true)
		r.AppendVariables(newVar(rt.Choose("var", 3)), variables.NewVariableResponseBody())
		r.SetOperator(funcOp(func(*modsecurity.Transaction, string) bool { return false }))
		e.RuleSet.AddRules(r)
	}
	t, err := e.NewTransaction()
	rt.Assert(err == nil, "a transaction must be created")
	t.ProcessRequestURL(&url.URL{Path: "/p"}, "POST", "HTTP/1.1")
	body := "a=" + rt.Str("c", 1) + "&b%3d=%zz"
	ct := "application/x-www-form-urlencoded"
	if rt.Choose("multipart", 2) == 1 {
		ct = "multipart/form-data; boundary=B"
		body = multipartBody([]pair{{"a", rt.Str("c", 1)}}, "B", "\r\n")
		switch rt.Choose("damage", 3) {
		case 1:
			body = body[:len(body)-9]
		case 2:
			body += rt.Str("c", 1) + "more"
		}
	}
	t.ProcessRequestHeader(http.Header{"Content-Type": {ct}})
	rt.Assert(t.AppendRequestBody([]byte(body)) == nil, "the body must be accepted")
	first := []int{-1, 0, 5}[rt.Choose("first", 3)]
	got := make([]byte, 5)
	if first >= 0 {
		n, err := t.Request.Body.Read(got[:first])
		rt.Assert(n == first && err == nil, "a body must be read from its beginning")
		got = got[:first]
	} else {
		got = nil
	}
	t.ProcessRequestBody()
	if rt.Choose("more", 2) == 1 && len(body) > 12 {
		p := make([]byte, 3)
		n, err := t.Request.Body.Read(p)
		rt.Assert(n == 3 && err == nil, "a body must be read on where it was")
		got = append(got, p...)
	}
	t.AppendResponseBody([]byte("abcd"))
	t.ProcessResponseHeaders(200, "HTTP/1.1", http.Header{})
	t.Response.Body.Read(make([]byte, 1))
	t.ProcessResponseBody()
	var w, v bytes.Buffer
	t.Request.Body.WriteTo(&w)
	t.Response.Body.WriteTo(&v)
	rt.Assert(string(got)+w.String() == body, "inspecting a body must not change what reading it yields")
	rt.Assert(v.String() == "bcd", "inspecting a body must not change what reading it yields")
}
