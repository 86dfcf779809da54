package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/senghoo/modsecurity-go"
const propsPkg = "verif/harness/props"

type harnessCfg struct {
	Fn       string `json:"fn"`
	Thorough bool   `json:"thorough_only,omitempty"`
	Secs     int    `json:"secs,omitempty"`
}
type propCfg struct {
	ID          string       `json:"id"`
	Title       string       `json:"title"`
	Harnesses   []harnessCfg `json:"harnesses"`
	Bounds      []string     `json:"bounds"`
	Outside     []string     `json:"outside"`
	Assumptions []string     `json:"assumptions"`
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off", "CGO_ENABLED=0")
	return env
}

func loadProgram(dir string) *Program {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv()}
	pkgs, err := packages.Load(cfg, "./props")
	if err != nil {
		fatal("load: %v", err)
	}
	if n := packages.PrintErrors(pkgs); n > 0 {
		fatal("the source does not type-check (%d errors)", n)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, fset: prog.Fset, gidx: map[*ssa.Global]int{}, repoMod: repoModule, repoPkg: map[*ssa.Package]bool{}}
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), repoModule) {
			P.repoPkg[p] = true
		}
	}
	rtErrType = typ(types.Typ[types.String])
	return P
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

func (e *Exec) initRepo() {
	e.h = &harnessState{x: e.extra, names: map[string]int{}, fs: newModelFS()}
	e.curItem = &pathItem{}
	p := e.P.prog.ImportedPackage(propsPkg)
	// repository packages (dependencies first) and the harness package
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var walk func(t *types.Package)
	walk = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, i := range t.Imports() {
			walk(i)
		}
		if strings.HasPrefix(t.Path(), repoModule) || t == p.Pkg {
			order = append(order, e.P.prog.Package(t))
		}
	}
	walk(p.Pkg)
	for _, q := range order {
		e.initPkg(q)
	}
}

type result struct {
	name      string
	st        *Stats
	X         *explorer
	wall      float64
	complete  bool
	truncated string
}

func explore(P *Program, workers []*Exec, hc harnessCfg, tier string, deadline time.Time, cache *qcache) *result {
	sp := P.prog.ImportedPackage(propsPkg)
	f := sp.Func(hc.Fn)
	if f == nil {
		fatal("harness %s not found", hc.Fn)
	}
	fn := P.fn(f)
	st := &Stats{}
	X := &explorer{name: hc.Fn, tier: tier, st: st, violN: map[string]int{}, incon: map[string]int{}, reach: map[string]int64{}}
	X.cond = sync.NewCond(&X.mu)
	X.stack = []*pathItem{{}}
	t0 := time.Now()
	var wg sync.WaitGroup
	timer := time.AfterFunc(time.Until(deadline), func() {
		X.mu.Lock()
		if !X.stop {
			X.stop = true
			X.stopWhy = "time"
		}
		X.mu.Unlock()
		X.cond.Broadcast()
	})
	for _, e := range workers {
		wg.Add(1)
		go func(e *Exec) {
			defer wg.Done()
			e.st = st
			e.S.st = st
			e.S.cache = cache
			for {
				X.mu.Lock()
				for len(X.stack) == 0 && X.active > 0 && !X.stop {
					X.cond.Wait()
				}
				if X.stop || len(X.stack) == 0 {
					X.mu.Unlock()
					X.cond.Broadcast()
					return
				}
				it := X.stack[len(X.stack)-1]
				X.stack = X.stack[:len(X.stack)-1]
				X.active++
				X.mu.Unlock()
				e.runPath(X, fn, it)
				X.mu.Lock()
				X.active--
				X.mu.Unlock()
				X.cond.Broadcast()
			}
		}(e)
	}
	wg.Wait()
	timer.Stop()
	r := &result{name: hc.Fn, st: st, X: X, wall: time.Since(t0).Seconds()}
	r.complete = !X.stop && len(X.incon) == 0
	if X.stop {
		r.truncated = X.stopWhy
	}
	return r
}

// ---------- native replay ----------

type replayIn struct {
	Harness string            `json:"harness"`
	Tier    string            `json:"tier"`
	Vars    map[string]uint64 `json:"vars"`
}
type replayOut struct {
	Result  string   `json:"result"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Finding string   `json:"finding"`
}

type native struct {
	bin string
	err error
	out string
	ch  chan struct{}
}

func buildNative(dir, bin string) *native {
	n := &native{bin: bin, ch: make(chan struct{})}
	go func() {
		defer close(n.ch)
		args := []string{"build", "-o", bin}
		if ov := globalsOverlay(dir, bin+".overlay"); ov != "" {
			args = append(args, "-overlay", ov)
		}
		c := exec.Command("go", append(args, "./replay")...)
		c.Dir = dir
		c.Env = goEnv()
		b, err := c.CombinedOutput()
		if err != nil && len(args) > 3 {
			c = exec.Command("go", "build", "-o", bin, "./replay")
			c.Dir = dir
			c.Env = goEnv()
			b, err = c.CombinedOutput()
		}
		n.err, n.out = err, string(b)
	}()
	return n
}

// globalsOverlay adds to each package under test a file that tells the replay its
// package-level variables, so that a write to one of them can be confirmed.
func globalsOverlay(dir, out string) string {
	mod, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return ""
	}
	root := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if i := strings.Index(l, "=> /"); strings.HasPrefix(l, "replace") && i >= 0 {
			root = strings.TrimSpace(l[i+3:])
		}
	}
	if root == "" || os.MkdirAll(out, 0700) != nil {
		return ""
	}
	repl := map[string]string{}
	filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil || !d.IsDir() {
			return nil
		}
		if p != root && (strings.HasPrefix(d.Name(), ".") || d.Name() == "testdata" || d.Name() == "vendor") {
			return filepath.SkipDir
		}
		pkg, err := build.ImportDir(p, 0)
		if err != nil || pkg.Name == "main" {
			return nil
		}
		fset := token.NewFileSet()
		src := ""
		for _, name := range pkg.GoFiles {
			file, err := parser.ParseFile(fset, filepath.Join(p, name), nil, 0)
			if err != nil {
				return nil
			}
			for _, d := range file.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						if id.Name != "_" {
							src += "&" + id.Name + ", "
						}
					}
				}
			}
		}
		if src == "" {
			return nil
		}
		src = "package " + pkg.Name + "\n\nimport verifrt \"verif/harness/rt\"\n\nfunc init() { verifrt.Globals = append(verifrt.Globals, " + src + ") }\n"
		f := filepath.Join(out, fmt.Sprintf("g%d.go", len(repl)))
		if os.WriteFile(f, []byte(src), 0600) == nil {
			repl[filepath.Join(p, "zz_verif_globals.go")] = f
		}
		return nil
	})
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	f := filepath.Join(out, "overlay.json")
	if len(repl) == 0 || os.WriteFile(f, b, 0600) != nil {
		return ""
	}
	return f
}

// run replays items one after another in child processes; a child that dies or
// hangs is restarted after the offending item.
func (n *native) run(items []replayIn, tmo time.Duration, frozenCheck ...bool) []replayOut {
	frozen := len(frozenCheck) > 0 && frozenCheck[0]
	<-n.ch
	outs := make([]replayOut, 0, len(items))
	if n.err != nil {
		fatal("native replay build failed: %v\n%s", n.err, n.out)
	}
	for len(outs) < len(items) {
		rest := items[len(outs):]
		cmd := exec.Command(n.bin)
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=1GiB", "GOMAXPROCS=2")
		if frozen {
			cmd.Env = append(cmd.Env, "VERIF_FROZEN=1")
		}
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, it := range rest {
			enc.Encode(it)
		}
		cmd.Stdin = &in
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		po, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			fatal("replay start: %v", err)
		}
		lines := make(chan string)
		go func() {
			s := bufio.NewScanner(po)
			s.Buffer(nil, 1<<24)
			for s.Scan() {
				lines <- s.Text()
			}
			close(lines)
		}()
		got := 0
		dead := ""
		for got < len(rest) && dead == "" {
			select {
			case l, ok := <-lines:
				if !ok {
					dead = "died"
					break
				}
				var o replayOut
				if json.Unmarshal([]byte(l), &o) == nil && o.Result != "" {
					outs = append(outs, o)
					got++
				}
			case <-time.After(tmo):
				dead = "hang"
			}
		}
		cmd.Process.Kill()
		go func() {
			for range lines {
			}
		}()
		cmd.Wait()
		if dead != "" && len(outs) < len(items) {
			m := stderr.String()
			if len(m) > 600 {
				m = m[:600]
			}
			outs = append(outs, replayOut{Result: dead, Msg: m})
		}
	}
	return outs
}

// reproduced decides whether a native replay confirms a counterexample.
func reproduced(v *Violation, o replayOut) bool {
	switch v.Kind {
	case "assert", "frozen":
		return o.Result == "fail" || o.Result == "panic" || o.Result == "died" || o.Result == "hang"
	case "panic":
		return o.Result == "panic" || o.Result == "died" || o.Result == "fail"
	case "hang":
		return o.Result == "hang" || o.Result == "died"
	}
	return false
}

func usesMapOrder(v *Violation) bool {
	for k := range v.Vars {
		if strings.HasPrefix(k, "$maporder") {
			return true
		}
	}
	return false
}

func main() {
	prop := flag.String("prop", "", "property id")
	only := flag.String("only", "", "comma-separated harness functions (debugging)")
	tier := flag.String("tier", "", "quick|thorough")
	dir := flag.String("dir", "/verif", "verif directory")
	workersN := flag.Int("j", 0, "workers")
	cpuprof := flag.String("cpuprofile", "", "")
	noNative := flag.Bool("nonative", false, "skip native replay")
	verbose := flag.Bool("v", false, "")
	secs := flag.Int("secs", 0, "time budget for exploration")
	flag.Parse()
	start := time.Now()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	nw := *workersN
	if nw == 0 {
		nw = min(8, runtime.NumCPU())
	}
	hdir := filepath.Join(*dir, "harness")
	tmp, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		fatal("%v", err)
	}
	code := func() int {
		defer os.RemoveAll(tmp)
		return realMain(*prop, *only, *tier, *dir, hdir, tmp, nw, *noNative, *verbose, *secs, start)
	}()
	if *cpuprof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func realMain(prop, only, tier, dir, hdir, tmp string, nw int, noNative, verbose bool, secs int, start time.Time) int {
	var cfgs []propCfg
	b, err := os.ReadFile(filepath.Join(dir, "checks.json"))
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, &cfgs); err != nil {
		fatal("checks.json: %v", err)
	}
	var pc *propCfg
	for i := range cfgs {
		if cfgs[i].ID == prop {
			pc = &cfgs[i]
		}
	}
	if pc == nil && only != "" {
		pc = &propCfg{ID: "debug"}
		for _, h := range strings.Split(only, ",") {
			pc.Harnesses = append(pc.Harnesses, harnessCfg{Fn: h})
		}
	}
	if pc == nil {
		fatal("unknown property %q", prop)
	}
	var nat *native
	if !noNative {
		nat = buildNative(hdir, filepath.Join(tmp, "replay"))
	}
	P := loadProgram(hdir)
	loadT := time.Since(start).Seconds()
	cache := newQcache()
	tmo := 5000
	if tier == "thorough" {
		tmo = 30000
	}
	var workers []*Exec
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		st := &Stats{}
		e := newExec(P, newSolver(st, cache, tmo), st)
		e.extra = &execExtra{regexCache: map[string]Value{}}
		workers = append(workers, e)
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.initRepo()
		}()
	}
	wg.Wait()
	initT := time.Since(start).Seconds() - loadT
	defer func() {
		for _, e := range workers {
			e.S.stop()
		}
	}()
	var results []*result
	budget := 420
	if tier == "thorough" {
		budget = 780
	}
	if secs > 0 {
		budget = secs
	}
	end := start.Add(time.Duration(budget) * time.Second)
	var hs []harnessCfg
	for _, h := range pc.Harnesses {
		if h.Thorough && tier != "thorough" {
			continue
		}
		hs = append(hs, h)
	}
	for i, h := range hs {
		// an equal share of what is left, so that no harness starves the others
		left := time.Until(end)
		dl := time.Now().Add(left / time.Duration(len(hs)-i) * 2)
		if dl.After(end) {
			dl = end
		}
		if i == len(hs)-1 {
			dl = end
		}
		r := explore(P, workers, h, tier, dl, cache)
		results = append(results, r)
		if verbose {
			st := r.st
			fmt.Fprintf(os.Stderr, "%-40s %6.2fs paths=%d done=%d assume=%d branches=%d queries=%d z3=%d cache=%d unk=%d asserts=%d(solver %d) merges=%d/%d steps=%dk viol=%d incon=%v trunc=%q solver=%.1fs\n",
				r.name, r.wall, st.paths.Load(), st.pathsDone.Load(), st.pathsAssume.Load(), st.branches.Load(), st.queries.Load(), st.z3Queries.Load(), st.cacheHits.Load(), st.unknown.Load(), st.asserts.Load(), st.assertsSolver.Load(), st.merges.Load(), st.regionMerges.Load(), st.steps.Load()/1000, len(r.X.viol), r.X.incon, r.truncated, float64(st.solverNs.Load())/1e9)
		}
	}
	return finish(pc, P, workers, results, nat, tier, dir, tmp, start, loadT, initT, verbose)
}

type knownFindings struct {
	known map[string]string // finding id -> text
}

func loadKnown(dir, prop string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> finding=<fid> <text>
		f := strings.SplitN(l[len("known: "):], " ", 3)
		if len(f) == 3 && f[0] == "property="+prop && strings.HasPrefix(f[1], "finding=") {
			r[f[1][len("finding="):]] = f[2]
		}
	}
	return r
}

func finish(pc *propCfg, P *Program, workers []*Exec, results []*result, nat *native, tier, dir, tmp string, start time.Time, loadT, initT float64, verbose bool) int {
	known := loadKnown(dir, pc.ID)
	var confirmed, unconfirmed []*Violation
	knownHit := map[string]*Violation{}
	validated, disagreements := 0, 0
	var disagreeMsgs []string
	for _, r := range results {
		vs := r.X.viol
		if nat == nil {
			for _, v := range vs {
				confirmed = append(confirmed, v)
			}
			continue
		}
		if len(vs) > 0 {
			// one or a few per message
			tried := map[string]int{}
			okm := map[string]bool{}
			for _, v := range vs {
				key := v.Kind + v.Msg + v.Finding
				if okm[key] || tried[key] >= 4 {
					continue
				}
				tried[key]++
				reps := 1
				if usesMapOrder(v) || v.Kind == "frozen" {
					reps = 60
				}
				var items []replayIn
				for i := 0; i < reps; i++ {
					items = append(items, replayIn{v.Harness, v.Tier, v.Vars})
				}
				tmo := 20 * time.Second
				for _, o := range nat.run(items, tmo, v.Kind == "frozen") {
					if reproduced(v, o) {
						okm[key] = true
						if o.Msg != "" {
							v.Msg += " [native: " + o.Result + ": " + firstLine(o.Msg) + "]"
						} else {
							v.Msg += " [native: " + o.Result + "]"
						}
						break
					}
				}
				if okm[key] {
					if _, isK := known[v.Finding]; v.Finding != "" && isK {
						knownHit[v.Finding] = v
					} else {
						confirmed = append(confirmed, v)
					}
				} else {
					unconfirmed = append(unconfirmed, v)
				}
			}
		}
		// A model the solver found for the condition of a path can fail natively
		// although the encoding of that path did not (or did not reach the end):
		// the real code on a concrete input is the authority.
		suspect := func(vars map[string]uint64, o replayOut) bool {
			if o.Result != "fail" && o.Result != "panic" {
				return false
			}
			it := replayIn{r.name, tier, vars}
			for _, p := range nat.run([]replayIn{it, it, it}, 20*time.Second) {
				if p.Result != o.Result || p.Msg != o.Msg {
					return false
				}
			}
			v := &Violation{Harness: r.name, Tier: tier, Kind: "assert", Msg: firstLine(o.Msg) + " [native: " + o.Result + "]", At: "native run of a path's model", Vars: vars, Finding: o.Finding}
			if _, isK := known[v.Finding]; v.Finding != "" && isK {
				knownHit[v.Finding] = v
			} else if len(confirmed) < 40 {
				confirmed = append(confirmed, v)
			}
			return true
		}
		if len(r.X.lost) > 0 {
			var items []replayIn
			for _, s := range r.X.lost {
				items = append(items, replayIn{r.name, tier, s.Vars})
			}
			n := 0
			for i, o := range nat.run(items, 20*time.Second) {
				if n < 5 && suspect(r.X.lost[i].Vars, o) {
					n++
				}
			}
		}
		// translation validation: run completed paths' models natively
		var items []replayIn
		for _, s := range r.X.samples {
			items = append(items, replayIn{r.name, tier, s.Vars})
		}
		if len(items) > 0 {
			outs := nat.run(items, 20*time.Second)
			n := 0
			for i, o := range outs {
				want := r.X.samples[i].Obs
				if n < 5 && suspect(r.X.samples[i].Vars, o) {
					n++
				}
				if o.Result == "ok" && strings.Join(o.Obs, "|") == strings.Join(want, "|") {
					validated++
				} else {
					disagreements++
					if len(disagreeMsgs) < 5 {
						disagreeMsgs = append(disagreeMsgs, fmt.Sprintf("%s: native %s %s obs=%v, encoding obs=%v vars=%v", r.name, o.Result, firstLine(o.Msg), o.Obs, want, r.X.samples[i].Vars))
					}
				}
			}
		}
	}
	for _, m := range disagreeMsgs {
		fmt.Fprintln(os.Stderr, "translation-validation disagreement:", m)
	}
	for _, v := range unconfirmed {
		fmt.Fprintf(os.Stderr, "counterexample not reproduced natively (ignored): %s %s: %s at %s vars=%v\n", v.Harness, v.Kind, v.Msg, v.At, v.Vars)
	}
	writeEvidence(pc, P, workers, results, tier, dir, start, loadT, initT, confirmed, unconfirmed, knownHit, validated, disagreements, disagreeMsgs)
	for _, id := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", pc.ID, id, known[id])
	}
	if len(confirmed) > 0 {
		rd := filepath.Join(dir, "evidence", "replay")
		os.MkdirAll(rd, 0o755)
		for i, v := range confirmed {
			p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", pc.ID, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", pc.ID, p)
			fmt.Printf("  %s %s: %s\n  at %s\n  inputs %s\n", v.Harness, v.Kind, v.Msg, v.At, varsStr(v.Vars))
			for _, s := range v.Stack {
				if verbose {
					fmt.Println("    ", s)
				}
			}
			if i >= 5 {
				break
			}
		}
		return 1
	}
	var paths, asserts int64
	for _, r := range results {
		paths += r.st.pathsDone.Load()
		asserts += r.st.asserts.Load()
	}
	fmt.Printf("OK property=%s tier=%s harnesses=%d paths=%d assertions=%d validated=%d wall=%.1fs\n", pc.ID, tier, len(results), paths, asserts, validated, time.Since(start).Seconds())
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// varsStr prints an assignment, joining byte variables into strings.
func varsStr(m map[string]uint64) string {
	strs := map[string]map[int]byte{}
	var out []string
	for _, k := range sortedKeys(m) {
		if i := strings.LastIndexByte(k, '.'); i > 0 {
			var n int
			if _, err := fmt.Sscanf(k[i+1:], "%d", &n); err == nil {
				if strs[k[:i]] == nil {
					strs[k[:i]] = map[int]byte{}
				}
				strs[k[:i]][n] = byte(m[k])
				continue
			}
		}
		out = append(out, fmt.Sprintf("%s=%d", k, int64(m[k])))
	}
	for _, k := range sortedKeys(strs) {
		b := make([]byte, len(strs[k]))
		for i, c := range strs[k] {
			if i < len(b) {
				b[i] = c
			}
		}
		out = append(out, fmt.Sprintf("%s=%q", k, b))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func writeEvidence(pc *propCfg, P *Program, workers []*Exec, results []*result, tier, dir string, start time.Time, loadT, initT float64, confirmed, unconfirmed []*Violation, knownHit map[string]*Violation, validated, disagreements int, disMsgs []string) {
	fns := map[string]bool{}
	stdN := 0
	stdSeen := map[*Fn]bool{}
	for _, e := range workers {
		for f := range e.encoded {
			if f.repo {
				fns[f.name] = true
			} else if !strings.HasPrefix(f.pkg, "verif/harness") && !stdSeen[f] {
				stdSeen[f] = true
				stdN++
			}
		}
	}
	var states, trans, queries, z3q, cacheH, sat, unsat, unk, asserts, aSolver, aConc, aDis int64
	var solverS float64
	var hl []map[string]any
	var samples []any
	complete := true
	for _, r := range results {
		st := r.st
		states += st.paths.Load()
		trans += st.decisions.Load()
		queries += st.queries.Load()
		z3q += st.z3Queries.Load()
		cacheH += st.cacheHits.Load()
		sat += st.sat.Load()
		unsat += st.unsat.Load()
		unk += st.unknown.Load()
		asserts += st.asserts.Load()
		aSolver += st.assertsSolver.Load()
		aConc += st.assertsConcrete.Load()
		aDis += st.assertsDischarged.Load()
		solverS += float64(st.solverNs.Load()) / 1e9
		h := map[string]any{"harness": r.name, "wall_s": round(r.wall), "paths": st.paths.Load(), "paths_completed": st.pathsDone.Load(), "paths_cut_by_assumption": st.pathsAssume.Load(),
			"assertions": st.asserts.Load(), "z3_queries": st.z3Queries.Load(), "exhaustive_within_bounds": r.complete}
		if r.truncated != "" {
			h["truncated_by"] = r.truncated
		}
		if len(r.X.incon) > 0 {
			h["reduced_bound"] = r.X.incon
		}
		if len(r.X.reach) > 0 {
			h["reachability_witnesses"] = r.X.reach
		}
		if r.X.reach["$asserted"] == 0 && len(r.X.viol) == 0 {
			h["vacuous"] = true
		}
		hl = append(hl, h)
		if !r.complete {
			complete = false
		}
		for i, s := range r.X.samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": r.name, "inputs": varsStr(s.Vars), "observed": s.Obs})
			}
		}
	}
	fl := sortedKeys(fns)
	if len(fl) > 250 {
		fl = append(fl[:250], "...")
	}
	var kf []string
	for _, k := range sortedKeys(knownHit) {
		kf = append(kf, k)
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"exhaustive":                     complete,
		"meaning":                        "states = symbolic paths executed; transitions = path decisions taken; traces_validated = completed paths whose solver model was re-run natively with identical observations",
		"functions_encoded":              fl,
		"stdlib_functions_encoded":       stdN,
		"bounds":                         pc.Bounds,
		"outside_bounds":                 pc.Outside,
		"harnesses":                      hl,
		"assertions":                     asserts,
		"assertions_decided_by_z3":       aSolver,
		"assertions_constant":            aConc,
		"assertions_discharged":          aDis,
		"solver_queries":                 queries,
		"z3_queries":                     z3q,
		"z3_sat":                         sat,
		"z3_unsat":                       unsat,
		"z3_unknown":                     unk,
		"query_cache_hits":               cacheH,
		"solver_s":                       round(solverS),
		"load_s":                         round(loadT),
		"init_s":                         round(initT),
		"validation_disagreements":       disagreements,
		"counterexamples_not_reproduced": len(unconfirmed),
		"known_findings_hit":             kf,
	}
	if len(disMsgs) > 0 {
		cov["disagreement_examples"] = disMsgs
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{"property": pc.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{}, pc.Assumptions...), "wall_s": round(time.Since(start).Seconds()), "violations": len(confirmed)}
	b, _ := json.MarshalIndent(ev, "", " ")
	if len(b) > 60000 {
		cov["functions_encoded"] = len(fl)
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	if pc.ID != "debug" {
		os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
		os.WriteFile(filepath.Join(dir, "evidence", pc.ID+".json"), b, 0o644)
	}
}
func round(f float64) float64 { return float64(int(f*100)) / 100 }
