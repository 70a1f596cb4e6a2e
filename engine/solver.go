package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type cacheEntry struct {
	res   SatRes
	model Model
}

// Stats are shared by all workers of one run.
type Stats struct {
	Queries, SatQ, UnsatQ, UnknownQ, CacheHits, DomainDecided, ModelDecided, CrossChecked, CrossDisagree int64
	SolverNS                                                                                             int64
	MaxQueryNS                                                                                           int64
}

var stats Stats

type sharedCache struct {
	sync.RWMutex
	m map[[2]uint64]cacheEntry
}

var qcache = &sharedCache{m: map[[2]uint64]cacheEntry{}}

// Solver drives one `z3 -in` process. Every query is self-contained (push/pop).
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	ts      *TermStore
	n       int
	timeout int // ms
}

var solverBin = "z3"
var crossCheck = false
var dumpDir = ""

func NewSolver(ts *TermStore) *Solver {
	s := &Solver{ts: ts, timeout: 20000}
	s.start()
	return s
}

func (s *Solver) start() {
	cmd := exec.Command(solverBin, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		fatal("cannot start %s: %v", solverBin, err)
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func queryKey(asserts []*Term) [2]uint64 {
	hs := make([][2]uint64, len(asserts))
	for i, a := range asserts {
		hs[i] = a.h
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i][0] < hs[j][0] || hs[i][0] == hs[j][0] && hs[i][1] < hs[j][1] })
	var k [2]uint64
	var prev [2]uint64
	for _, h := range hs {
		if h == prev {
			continue
		}
		prev = h
		k[0] = mix(k[0], h[0])
		k[1] = mix(k[1], h[1])
	}
	return k
}

// Check decides the conjunction of asserts. The model covers their variables only.
func (s *Solver) Check(asserts []*Term) (SatRes, Model) {
	key := queryKey(asserts)
	qcache.RLock()
	e, ok := qcache.m[key]
	qcache.RUnlock()
	if ok {
		atomic.AddInt64(&stats.CacheHits, 1)
		return e.res, e.model
	}
	vars := mergeVars(asserts)
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	writeQuery(&sb, asserts, vars)
	sb.WriteString("(check-sat)\n")
	t0 := time.Now()
	io.WriteString(s.in, sb.String())
	line := s.readLine()
	ns := time.Since(t0).Nanoseconds()
	atomic.AddInt64(&stats.SolverNS, ns)
	for {
		old := atomic.LoadInt64(&stats.MaxQueryNS)
		if ns <= old || atomic.CompareAndSwapInt64(&stats.MaxQueryNS, old, ns) {
			break
		}
	}
	atomic.AddInt64(&stats.Queries, 1)
	var res SatRes
	var model Model
	switch line {
	case "sat":
		res = Sat
		atomic.AddInt64(&stats.SatQ, 1)
		model = Model{}
		if len(vars) > 0 {
			var g strings.Builder
			g.WriteString("(get-value (")
			for _, v := range vars {
				g.WriteString("|" + v.name + "| ")
			}
			g.WriteString("))\n")
			io.WriteString(s.in, g.String())
			s.readModel(vars, model)
		}
		// self-check: the model must satisfy the formula under our own semantics
		memo := map[*Term]uint64{}
		for _, a := range asserts {
			if s.ts.Eval(a, model, memo) != 1 {
				fatal("solver model does not satisfy the query (encoding error): %s", sb.String())
			}
		}
	case "unsat":
		res = Unsat
		atomic.AddInt64(&stats.UnsatQ, 1)
	default:
		if strings.HasPrefix(line, "(error") {
			fatal("solver error: %s\n%s", line, sb.String())
		}
		res = Unknown
		atomic.AddInt64(&stats.UnknownQ, 1)
	}
	io.WriteString(s.in, "(pop 1)\n")
	if crossCheck && res != Unknown {
		s.cross(sb.String(), res)
	}
	if res != Unknown {
		qcache.Lock()
		qcache.m[key] = cacheEntry{res, model}
		qcache.Unlock()
	}
	return res, model
}

// cross re-decides a query with cvc5 (thorough tier).
func (s *Solver) cross(q string, res SatRes) {
	q = strings.Replace(q, "(push 1)\n", "(set-logic QF_BV)\n", 1)
	cmd := exec.Command("cvc5", "--tlimit=20000", "--lang=smt2", "-")
	cmd.Stdin = strings.NewReader(q)
	out, _ := cmd.Output()
	r := strings.TrimSpace(string(out))
	if r != "sat" && r != "unsat" {
		return
	}
	atomic.AddInt64(&stats.CrossChecked, 1)
	if (r == "sat") != (res == Sat) {
		atomic.AddInt64(&stats.CrossDisagree, 1)
		fatal("z3 and cvc5 disagree on\n%s", q)
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		fatal("solver died: %v", err)
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readModel(vars []*Term, m Model) {
	// read a balanced s-expression
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			fatal("solver died: %v", err)
		}
		sb.WriteString(l)
		inBar := false
		for i := 0; i < len(l); i++ {
			switch {
			case l[i] == '|':
				inBar = !inBar
			case inBar:
			case l[i] == '(':
				depth++
			case l[i] == ')':
				depth--
			}
		}
		if depth == 0 {
			break
		}
	}
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		fatal("solver error: %s", txt)
	}
	for _, v := range vars {
		// values come back in order; names may or may not be quoted
		var idx int
		q := "|" + v.name + "| "
		if idx = strings.Index(txt, q); idx < 0 {
			q = "(" + v.name + " "
			if idx = strings.Index(txt, q); idx < 0 {
				fatal("no value for %s in %s", v.name, txt)
			}
		}
		rest := strings.TrimSpace(txt[idx+len(q):])
		end := strings.IndexByte(rest, ')')
		val := strings.TrimSpace(rest[:end])
		var x uint64
		switch {
		case val == "true":
			x = 1
		case val == "false":
			x = 0
		case strings.HasPrefix(val, "#x"):
			fmt.Sscanf(val[2:], "%x", &x)
		case strings.HasPrefix(val, "#b"):
			fmt.Sscanf(val[2:], "%b", &x)
		default:
			fatal("cannot parse model value %q", val)
		}
		m[v.name] = x
		txt = txt[idx+len(q):]
	}
}
