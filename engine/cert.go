package main

import (
	"fmt"
	"io"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Certification: what the engine decides without asking the solver is put to the solver afterwards, many
// claims in one query. A claim is either a rewriting step of the term simplifier (an equality that must be
// valid) or a decision read off the value table of one variable (a conjunction that must be unsatisfiable).
// Claims that the solver has already seen, under whatever path, are not sent again. A refuted claim ends
// the run: the engine is wrong.

type claim struct {
	what string
	bad  []*Term // the conjunction that must be unsatisfiable
	key  [2]uint64
}

var (
	certOff  bool
	certSeen sync.Map // key -> struct{}
	certN    struct{ rewrites, decisions, queries, refuted, unknown, ns int64 }
)

// rawTerm is a term that the simplifier has not seen; it is not part of the store.
func (s *TermStore) rawTerm(op Op, w, lo uint8, args ...*Term) *Term {
	s.next++
	return &Term{op: op, w: w, lo: lo, args: args, id: s.next, vars: mergeVars(args)}
}

// rewrote records that op(args) was simplified to r.
func (s *TermStore) rewrote(op Op, w, lo uint8, r *Term, args ...*Term) {
	if certOff {
		return
	}
	sym := false
	for _, a := range args {
		if a.op != OConst {
			sym = true
		}
	}
	if !sym {
		return
	}
	k := [2]uint64{mix(uint64(op)<<16|uint64(w)<<8|uint64(lo), r.h[0]), mix(uint64(op)*31+uint64(w)*7+uint64(lo), r.h[1])}
	for _, a := range args {
		k[0], k[1] = mix(k[0], a.h[0]), mix(k[1], a.h[1])
	}
	if s.lemmas[k] {
		return
	}
	s.lemmas[k] = true
	if _, dup := certSeen.LoadOrStore(k, struct{}{}); dup {
		return
	}
	atomic.AddInt64(&certN.rewrites, 1)
	raw := s.rawTerm(op, w, lo, append([]*Term(nil), args...)...)
	ne := s.rawTerm(ONot, 0, 0, s.rawTerm(OEq, 0, 0, raw, r))
	s.pending = append(s.pending, claim{"rewriting", []*Term{ne}, k})
}

// decided records that the constraints and t exclude each other.
func (p *Path) decided(v *Term, t *Term) {
	if certOff {
		return
	}
	var k [2]uint64
	for _, c := range p.single[v] {
		k[0], k[1] = k[0]^mix(1, c.h[0]), k[1]^mix(2, c.h[1])
	}
	k[0], k[1] = mix(mix(k[0], t.h[0]), 77), mix(mix(k[1], t.h[1]), 78)
	if p.ts.lemmas[k] {
		return
	}
	p.ts.lemmas[k] = true
	if _, dup := certSeen.LoadOrStore(k, struct{}{}); dup {
		return
	}
	atomic.AddInt64(&certN.decisions, 1)
	bad := append(append([]*Term(nil), p.single[v]...), t)
	p.ts.pending = append(p.ts.pending, claim{"decision", bad, k})
}

// certify sends the pending claims.
func (s *Solver) certify(all bool) {
	for len(s.ts.pending) >= 300 || all && len(s.ts.pending) > 0 {
		n := 300
		if n > len(s.ts.pending) {
			n = len(s.ts.pending)
		}
		batch := s.ts.pending[:n]
		// one query has one width per name
		w := map[string]uint8{}
		for i, c := range batch {
			for _, v := range mergeVars(c.bad) {
				if x, ok := w[v.name]; ok && x != v.w {
					n = i
					break
				}
				w[v.name] = v.w
			}
			if n == i {
				break
			}
		}
		if n == 0 {
			n = 1
		}
		batch = s.ts.pending[:n]
		s.certBatch(batch)
		s.ts.pending = append([]claim(nil), s.ts.pending[n:]...)
	}
}

func (s *Solver) certBatch(cs []claim) {
	var alts []*Term
	for _, c := range cs {
		if len(c.bad) == 1 {
			alts = append(alts, c.bad[0])
		} else {
			alts = append(alts, s.ts.rawTerm(OAnd, 0, 0, c.bad...))
		}
	}
	q := alts[0]
	if len(alts) > 1 {
		q = s.ts.rawTerm(OOr, 0, 0, alts...)
	}
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	writeQuery(&sb, []*Term{q}, mergeVars(alts))
	sb.WriteString("(check-sat)\n")
	t0 := time.Now()
	io.WriteString(s.in, sb.String())
	line := s.readLine()
	io.WriteString(s.in, "(pop 1)\n")
	atomic.AddInt64(&certN.queries, 1)
	atomic.AddInt64(&certN.ns, time.Since(t0).Nanoseconds())
	switch {
	case line == "unsat":
	case strings.HasPrefix(line, "(error"):
		fatal("solver error: %s\n%s", line, sb.String())
	case len(cs) > 1: // find the claim, or decide the halves if the whole was too hard
		s.certBatch(cs[:len(cs)/2])
		s.certBatch(cs[len(cs)/2:])
	case line == "sat":
		atomic.AddInt64(&certN.refuted, 1)
		fatal("the solver refutes a %s of the engine:\n%s", cs[0].what, sb.String())
	default:
		atomic.AddInt64(&certN.unknown, 1)
		reduced(fmt.Sprintf("solver unknown on a %s of the engine", cs[0].what))
	}
}
