// Command replay runs harnesses natively on assignments read from stdin.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"

	"github.com/sirupsen/logrus"

	"verif/harness/rt"
)

type in struct {
	Harness string            `json:"harness"`
	Tier    string            `json:"tier"`
	Vars    map[string]uint64 `json:"vars"`
}
type out struct {
	Result  string   `json:"result"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Finding string   `json:"finding"`
}

func run(i in) (o out) {
	f := all[i.Harness]
	if f == nil {
		return out{Result: "error", Msg: "no such harness"}
	}
	rt.Begin(i.Tier, i.Vars)
	defer rt.End()
	defer func() {
		o.Obs, o.Finding = rt.Obs, rt.Label
		switch r := recover().(type) {
		case nil:
			o.Result = "ok"
		case rt.AssertFail:
			o.Result, o.Msg = "fail", r.Msg
		case rt.AssumeFail:
			o.Result = "assume"
		default:
			o.Result, o.Msg = "panic", fmt.Sprint(r)
			if os.Getenv("REPLAY_STACK") != "" {
				o.Msg += "\n" + string(debug.Stack())
			}
		}
	}()
	f()
	return
}

func main() {
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	stdout := os.Stdout
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
	}
	s := bufio.NewScanner(os.Stdin)
	s.Buffer(nil, 1<<24)
	enc := json.NewEncoder(stdout)
	for s.Scan() {
		var i in
		if err := json.Unmarshal(s.Bytes(), &i); err != nil {
			enc.Encode(out{Result: "error", Msg: err.Error()})
			continue
		}
		enc.Encode(run(i))
	}
}
