package main

// SMT back end: one incremental z3 process per worker, constraint slicing and
// a structural query cache.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type satRes uint8

const (
	rUnsat satRes = iota
	rSat
	rUnknown
)

type cacheEnt struct {
	res   satRes
	model map[string]uint64
}

type cacheShard struct {
	mu sync.Mutex
	m  map[[2]uint64]*cacheEnt
}

type Stats struct {
	paths, pathsDone, pathsInfeasible, pathsAssume atomic.Int64
	queries, z3Queries, cacheHits                  atomic.Int64
	sat, unsat, unknown                            atomic.Int64
	solverNs                                       atomic.Int64
	asserts, assertsSolver, assertsConcrete        atomic.Int64
	assertsDischarged                              atomic.Int64
	branches, steps, merges, regionMerges          atomic.Int64
	decisions                                      atomic.Int64
}

type qcache struct {
	shards [64]cacheShard
}

func newQcache() *qcache {
	q := &qcache{}
	for i := range q.shards {
		q.shards[i].m = map[[2]uint64]*cacheEnt{}
	}
	return q
}
func (q *qcache) get(k [2]uint64) *cacheEnt {
	s := &q.shards[k[0]%64]
	s.mu.Lock()
	e := s.m[k]
	s.mu.Unlock()
	return e
}
func (q *qcache) put(k [2]uint64, e *cacheEnt) {
	s := &q.shards[k[0]%64]
	s.mu.Lock()
	if len(s.m) > 40000 {
		s.m = map[[2]uint64]*cacheEnt{}
	}
	s.m[k] = e
	s.mu.Unlock()
}

type Solver struct {
	cmd   *exec.Cmd
	in    *bufio.Writer
	inC   io.WriteCloser
	out   *bufio.Reader
	tmoMs int
	st    *Stats
	cache *qcache
	log   *os.File
	n     int
}

// solverBin is the newer z3 where there is one.
var solverBin = func() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}()

func newSolver(st *Stats, cache *qcache, tmoMs int) *Solver {
	return &Solver{tmoMs: tmoMs, st: st, cache: cache}
}

func (s *Solver) start() {
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.tmoMs)
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		s.log, _ = os.CreateTemp(p, "smt-*.smt2")
	}
}
func (s *Solver) stop() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// z3check decides the conjunction of ts. On sat the model is by var name.
func (s *Solver) z3check(tc *TC, ts []*Term) (satRes, map[string]uint64) {
	if s.cmd == nil {
		s.start()
	}
	s.n++
	if s.n%20000 == 0 { // bound z3's memory
		s.stop()
		s.start()
	}
	t0 := time.Now()
	p := &printer{names: map[*Term]string{}}
	p.sb.WriteString("(push 1)\n")
	refs := make([]string, len(ts))
	for i, t := range ts {
		refs[i] = p.ref(t)
	}
	for _, r := range refs {
		fmt.Fprintf(&p.sb, "(assert %s)\n", r)
	}
	p.sb.WriteString("(check-sat)\n")
	if s.log != nil {
		s.log.WriteString(p.sb.String() + "(pop 1)\n")
	}
	s.in.WriteString(p.sb.String())
	s.in.Flush()
	s.st.z3Queries.Add(1)
	line, err := s.readLine()
	res := rUnknown
	var model map[string]uint64
	if err == nil {
		switch line {
		case "sat":
			res = rSat
			model = map[string]uint64{}
			if len(p.vars) > 0 {
				s.in.WriteString("(get-value (")
				for _, v := range p.vars {
					s.in.WriteString(p.names[v])
					s.in.WriteByte(' ')
				}
				s.in.WriteString("))\n")
				s.in.Flush()
				if !s.readModel(tc, p, model) {
					res = rUnknown
				}
			}
		case "unsat":
			res = rUnsat
		default:
			if strings.HasPrefix(line, "(error") {
				fmt.Fprintln(os.Stderr, "solver error:", line)
				err = fmt.Errorf("%s", line)
			}
		}
	}
	if err != nil {
		s.stop()
		s.cmd = nil
	} else {
		s.in.WriteString("(pop 1)\n")
	}
	s.st.solverNs.Add(int64(time.Since(t0)))
	switch res {
	case rSat:
		s.st.sat.Add(1)
	case rUnsat:
		s.st.unsat.Add(1)
	default:
		s.st.unknown.Add(1)
	}
	return res, model
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readModel(tc *TC, p *printer, m map[string]uint64) bool {
	// ((v0 #x61)\n (v1 #b1) ...)
	var sb strings.Builder
	depth := 0
	started := false
	for !started || depth > 0 {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return false
		}
		if strings.HasPrefix(l, "(error") {
			return false
		}
		for _, c := range l {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteString(l)
	}
	f := strings.FieldsFunc(sb.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i += 2 {
		n, err := strconv.Atoi(f[i][1:])
		if err != nil {
			return false
		}
		var v uint64
		switch {
		case f[i+1] == "true":
			v = 1
		case f[i+1] == "false":
			v = 0
		case strings.HasPrefix(f[i+1], "#x"):
			v, err = strconv.ParseUint(f[i+1][2:], 16, 64)
		case strings.HasPrefix(f[i+1], "#b"):
			v, err = strconv.ParseUint(f[i+1][2:], 2, 64)
		default:
			return false
		}
		if err != nil {
			return false
		}
		m[tc.vars[n].name] = v
	}
	return true
}

// slice returns the members of pc transitively sharing variables with seed.
func slicePC(pc []*Term, seed []uint64) []*Term {
	cur := seed
	used := make([]bool, len(pc))
	var out []*Term
	for {
		changed := false
		for i, t := range pc {
			if !used[i] && intersects(t.vars, cur) {
				used[i] = true
				out = append(out, t)
				n := unionBits(cur, t.vars)
				if len(n) != len(cur) || &n[0] != &cur[0] {
					cur = n
					changed = true
				}
			}
		}
		if !changed {
			return out
		}
	}
}

// check decides pc ∧ c (pc is assumed satisfiable).
func (s *Solver) check(tc *TC, pc []*Term, c *Term) (satRes, map[string]uint64) {
	if c.isFalse() {
		return rUnsat, nil
	}
	if c.isTrue() {
		return rSat, nil
	}
	s.st.queries.Add(1)
	sl := slicePC(pc, c.vars)
	k := [2]uint64{c.h1, c.h2}
	for _, t := range sl {
		k[0] += mix(t.h1, 0x1234567)
		k[1] += mix(t.h2, 0x7654321)
	}
	if e := s.cache.get(k); e != nil {
		s.st.cacheHits.Add(1)
		return e.res, e.model
	}
	res, m := s.z3check(tc, append(sl[:len(sl):len(sl)], c))
	if res != rUnknown {
		s.cache.put(k, &cacheEnt{res, m})
	}
	return res, m
}
