package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type report struct {
	o     options
	known []Finding
	runs  []*HarnessRun
	bs    *builds
	loadT time.Duration
	t0    time.Time

	violations  int
	unconfirmed []string
	validated   int
	mismatched  []string
	kfSeen      map[string]string
	replayed    int
	fallback    int
}

func (p *report) say(r *HarnessRun, label string, m Model, log []string) {
	dir := filepath.Join(verifDir, "replays", p.o.prop)
	os.MkdirAll(dir, 0755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.name, p.violations+1))
	b, _ := json.MarshalIndent(replayFile{p.o.prop, r.name, label, r.order, r.deep, m, log}, "", " ")
	os.WriteFile(f, b, 0644)
	p.violations++
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.o.prop, f)
	fmt.Printf("  harness %s: %s\n", r.name, label)
	fmt.Printf("  input: %s\n", renderModel(m))
}

func renderModel(m Model) string {
	// group text bytes
	str := map[string]map[int]byte{}
	var rest []string
	for k, v := range m {
		if strings.HasPrefix(k, "digit#") {
			continue
		}
		name, n, ok := splitStrVar(k)
		if ok && v < 256 {
			if str[name] == nil {
				str[name] = map[int]byte{}
			}
			str[name][n] = byte(v)
			continue
		}
		rest = append(rest, fmt.Sprintf("%s=%d", k, v))
	}
	for k, bs := range str {
		b := make([]byte, len(bs))
		for i := range b {
			b[i] = bs[i]
		}
		rest = append(rest, fmt.Sprintf("%s=%q", k, b))
	}
	sort.Strings(rest)
	return strings.Join(rest, " ")
}

func splitStrVar(k string) (string, int, bool) {
	h := strings.LastIndex(k, "#")
	d := strings.LastIndex(k[:max(h, 0)], ".")
	if h < 0 || d < 0 {
		return "", 0, false
	}
	n := 0
	for _, c := range k[d+1 : h] {
		if c < '0' || c > '9' {
			return "", 0, false
		}
		n = n*10 + int(c-'0')
	}
	return k[:d] + k[h:], n, true
}

func (p *report) replay(r *HarnessRun, m Model, label string) (confirmed bool, res *nativeResult) {
	n := 1
	if r.order {
		n = 40
	}
	for i := 0; i < n; i++ {
		res = p.bs.nativeRun(r.name, m, p.known, r.deep, false)
		p.replayed++
		for _, l := range res.fail {
			if l == label {
				return true, res
			}
		}
	}
	return false, res
}

func (p *report) finish() int {
	p.kfSeen = map[string]string{}
	os.RemoveAll(filepath.Join(verifDir, "replays", p.o.prop))
	said := map[string]bool{}
	for _, r := range p.runs {
		var keys []string
		for k := range r.viol {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			vs := r.viol[k]
			if vs[0].Known != "" {
				if p.kfSeen[vs[0].Known] != "" {
					continue
				}
				for _, v := range vs {
					n := 1
					if r.order {
						n = 40
					}
					for i := 0; i < n && p.kfSeen[v.Known] == ""; i++ {
						res := p.bs.nativeRun(r.name, v.Model, p.known, r.deep, false)
						p.replayed++
						if res.kf[v.Known] != "" {
							p.kfSeen[v.Known] = renderModel(v.Model)
						}
					}
					if p.kfSeen[v.Known] != "" {
						break
					}
				}
				continue
			}
			ok := false
			for _, v := range vs {
				c, res := p.replay(r, v.Model, v.Label)
				if c {
					said[r.name+v.Label] = true
					p.say(r, v.Label, v.Model, res.log)
					ok = true
					break
				}
				if p.o.verbose {
					fmt.Printf("    unconfirmed model %s: %s\n    native: %v %s\n", v.Label, renderModel(v.Model), res.log, res.err)
				}
			}
			if !ok {
				p.unconfirmed = append(p.unconfirmed, r.name+": "+vs[0].Label+" "+renderModel(vs[0].Model))
			}
		}
		// paths outside the encoding: run their models on the real code
		for _, s := range r.unsupModels {
			res := p.bs.nativeRun(r.name, s.model, p.known, r.deep, false)
			p.fallback++
			if len(res.fail) > 0 && !res.dead && !said[r.name+res.fail[0]] {
				said[r.name+res.fail[0]] = true
				p.say(r, res.fail[0], s.model, res.log)
			}
		}
		// sampled paths: the encoding and the real code must agree
		var wg sync.WaitGroup
		rs := make([]*nativeResult, len(r.samples))
		for i := range r.samples {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				rs[i] = p.bs.nativeRun(r.name, r.samples[i].model, p.known, r.deep, false)
			}(i)
		}
		wg.Wait()
		for i, s := range r.samples {
			res := rs[i]
			for _, l := range res.fail {
				if !said[r.name+l] && !res.dead {
					said[r.name+l] = true
					p.say(r, l, s.model, res.log)
				}
			}
			if d := diffLog(s.log, res.log); d != "" {
				p.mismatched = append(p.mismatched, r.name+": "+d+" with "+renderModel(s.model))
			} else {
				p.validated++
			}
		}
	}
	for _, f := range p.known {
		if p.kfSeen[f.ID] != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.o.prop, f.ID, f.What)
		}
	}
	for _, u := range p.unconfirmed {
		fmt.Println("UNCONFIRMED (not reported):", u)
	}
	for _, u := range p.mismatched {
		fmt.Println("ENCODING MISMATCH:", u)
	}
	for m, n := range reductions.m {
		fmt.Println("REDUCED:", m, n)
	}
	vac := []string{}
	for _, r := range p.runs {
		n := 0
		for _, c := range r.labels {
			n += c
		}
		if n == 0 || r.completed == 0 && len(r.viol) == 0 {
			vac = append(vac, r.name)
		}
	}
	if p.o.only == "" {
		p.evidence(vac)
	}
	fmt.Printf("%s: %d violations, %d known findings, %d paths validated on the real binary, solver %d queries %.1fs, wall %.1fs\n",
		p.o.prop, p.violations, len(p.kfSeen), p.validated, stats.Queries, float64(stats.SolverNS)/1e9, time.Since(p.t0).Seconds())
	if p.violations > 0 {
		return 1
	}
	if len(vac) > 0 {
		fmt.Println("VACUOUS:", vac)
		return 2
	}
	return 0
}

func diffLog(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<end>", "<end>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			if strings.HasSuffix(x, " *") && strings.HasPrefix(y, strings.TrimSuffix(x, "*")) {
				continue
			}
			return fmt.Sprintf("step %d: encoded %q, real %q", i, x, y)
		}
	}
	return ""
}

func (p *report) evidence(vac []string) {
	paths, compl, pruned, unsup, trunc := 0, 0, 0, 0, 0
	var steps int64
	reached := map[string]bool{}
	labels := map[string]int{}
	var hs []map[string]any
	var samples []any
	dis := 0
	maxDec := 0
	for _, r := range p.runs {
		paths += r.paths
		compl += r.completed
		pruned += r.pruned
		unsup += r.unsupp
		steps += r.steps
		if r.truncated {
			trunc++
		}
		if r.maxDepth > maxDec {
			maxDec = r.maxDepth
		}
		for f := range r.reached {
			reached[f] = true
		}
		for l, n := range r.passed {
			labels[l] += n
			dis += n
		}
		hs = append(hs, map[string]any{"harness": r.name, "paths": r.paths, "completed": r.completed, "pruned_by_assumption": r.pruned,
			"outside_encoding": r.unsupp, "outside_encoding_reasons": r.unsupMsgs, "truncated_by_time": r.truncated, "frontier_left": len(r.queue),
			"instructions": r.steps, "obligations_reached": r.labels, "obligations_discharged": r.passed, "covers": r.covers, "wall_s": r.wall.Seconds()})
		if len(r.samples) > 0 && len(samples) < 12 {
			samples = append(samples, map[string]any{"harness": r.name, "input": renderModel(r.samples[0].model), "observed": r.samples[0].log})
		}
	}
	var fns []string
	for f := range reached {
		fns = append(fns, strings.ReplaceAll(f, modPath, "oct"))
	}
	sort.Strings(fns)
	var kf []string
	for k := range p.kfSeen {
		kf = append(kf, k)
	}
	sort.Strings(kf)
	ev := map[string]any{
		"property": p.o.prop, "tier": p.o.tier, "seed": p.o.seed, "level": "model_checking", "wall_s": time.Since(p.t0).Seconds(), "violations": p.violations,
		"assumptions": []string{
			"bounds: the sizes and choices in the harness functions (see harnesses and DESIGN.md); every value of the symbolic inputs inside them",
			"call depth 3000, 60M instructions and 20000 decisions per path; a path beyond them is listed as outside the encoding",
			"contracts in place of third party code: encoding/json and yaml (structure), tealeg/xlsx file format (sheets, rows, cell texts), pingcap/parser (run on placeholder text), go-pluralize (run on concrete text), go-cmp (deep equality), fmt, strings, regexp and text/template models; checked by replaying sampled paths on the real binary",
			"file system: in-memory, no I/O failures",
		},
		"coverage": map[string]any{
			"states": compl, "transitions": paths - 1 + dis, "traces_validated_against_impl": p.validated, "samples": samples,
			"rule":          "states = completed symbolic paths, each standing for all inputs that follow it; transitions = path splits plus obligations discharged",
			"paths_started": paths, "paths_pruned_by_assumption": pruned, "paths_outside_encoding": unsup, "harnesses_truncated_by_time": trunc, "exhaustive_within_bounds": trunc == 0 && unsup == 0 && len(reductions.m) == 0,
			"functions_encoded": fns, "functions_encoded_count": len(fns), "obligations_discharged": labels,
			"instructions": steps, "max_decisions_on_a_path": maxDec,
			"solver":    map[string]any{"name": "z3 4.8.12", "queries": stats.Queries, "sat": stats.SatQ, "unsat": stats.UnsatQ, "unknown": stats.UnknownQ, "cache_hits": stats.CacheHits, "decided_by_value_table": stats.DomainDecided, "decided_by_current_model": stats.ModelDecided, "solver_s": float64(stats.SolverNS) / 1e9, "max_query_ms": float64(stats.MaxQueryNS) / 1e6, "certified_rewritings": certN.rewrites, "certified_value_table_decisions": certN.decisions, "certification_queries_unsat": certN.queries, "certification_unknown": certN.unknown, "certification_s": float64(certN.ns) / 1e9, "cross_checked_cvc5": stats.CrossChecked, "cross_check_disagreements": stats.CrossDisagree},
			"harnesses": hs, "native_replays": p.replayed, "native_fallback_runs": p.fallback,
			"encoding_mismatches": p.mismatched, "unconfirmed_counterexamples": p.unconfirmed, "known_findings_seen": kf, "reductions": reductions.m, "vacuous_harnesses": vac,
			"load_s": p.loadT.Seconds(),
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("evidence: %v", err)
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", p.o.prop+".json"), b, 0644); err != nil {
		fatal("evidence: %v", err)
	}
}
