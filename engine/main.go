// Command engine decides properties of octopus-db-tool by symbolic execution of its
// SSA form (built from the working tree) with an SMT solver.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/lechuckroh/octopus-db-tools"

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

var harnessRE = regexp.MustCompile(`(?m)^func (C\d\d_\w+)\(\)`)

// overlay returns the virtual files placed into the repository module.
func overlay() (files map[string]string, gen map[string][]byte, names []string) {
	files = map[string]string{}
	gen = map[string][]byte{}
	for _, d := range []string{"vk", "h", "native", "helper"} {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", d, "*.go"))
		for _, f := range fs {
			files[filepath.Join(repoDir, "zz_verif", d, filepath.Base(f))] = f
			if d == "h" {
				b, err := os.ReadFile(f)
				if err != nil {
					fatal("%v", err)
				}
				for _, m := range harnessRE.FindAllSubmatch(b, -1) {
					names = append(names, string(m[1]))
				}
			}
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("package h\n\nvar All = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
	}
	sb.WriteString("}\n")
	gen[filepath.Join(repoDir, "zz_verif", "h", "all.go")] = []byte(sb.String())
	return
}

func goEnv() []string {
	e := os.Environ()
	return append(e, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on")
}

type builds struct {
	dir                  string
	oct, native, helperB string
	err                  error
}

// build compiles the real binary, the native harness runner and the helper from the working tree.
func build(dir string) *builds {
	b := &builds{dir: dir, oct: filepath.Join(dir, "oct"), native: filepath.Join(dir, "native"), helperB: filepath.Join(dir, "helper")}
	files, gen, _ := overlay()
	rep := map[string]string{}
	for k, v := range files {
		rep[k] = v
	}
	for k, v := range gen {
		f := filepath.Join(dir, "gen_"+filepath.Base(k))
		if err := os.WriteFile(f, v, 0644); err != nil {
			fatal("%v", err)
		}
		rep[k] = f
	}
	ov := filepath.Join(dir, "overlay.json")
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	if err := os.WriteFile(ov, j, 0644); err != nil {
		fatal("%v", err)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, t := range [][2]string{{b.oct, "."}, {b.native, "./zz_verif/native"}, {b.helperB, "./zz_verif/helper"}} {
		wg.Add(1)
		go func(out, pkg string) {
			defer wg.Done()
			cmd := exec.Command("go", "build", "-overlay", ov, "-o", out, pkg)
			cmd.Dir = repoDir
			cmd.Env = goEnv()
			if o, err := cmd.CombinedOutput(); err != nil {
				mu.Lock()
				b.err = fmt.Errorf("go build %s: %v\n%s", pkg, err, o)
				mu.Unlock()
			}
		}(t[0], t[1])
	}
	wg.Wait()
	return b
}

func load() (*Program, []string) {
	files, gen, names := overlay()
	ov := map[string][]byte{}
	for k, v := range files {
		b, err := os.ReadFile(v)
		if err != nil {
			fatal("%v", err)
		}
		ov[k] = b
	}
	for k, v := range gen {
		ov[k] = v
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv(), Overlay: ov}
	pkgs, err := packages.Load(cfg, ".", "./zz_verif/h", parserPath+"/test_driver", xlsxPath)
	if err != nil {
		fatal("load: %v", err)
	}
	bad := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				fmt.Fprintln(os.Stderr, "load error:", p.PkgPath, e)
				bad++
			}
		}
		if p.PkgPath == parserPath {
			loadKeywords(p)
		}
	})
	if bad > 0 {
		fmt.Fprintln(os.Stderr, "the repository or the harness does not compile")
		os.Exit(4)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{prog: prog, modPath: modPath, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
		if p.Pkg.Path() == modPath {
			P.mainPkg = p
		}
	}
	P.harness = P.pkgs[modPath+"/zz_verif/h"]
	if P.mainPkg == nil || P.harness == nil {
		fatal("main or harness package missing")
	}
	P.mainPkg.Build()
	P.harness.Build()
	return P, names
}

// nativeRun replays values on the real binary.
type nativeResult struct {
	log  []string
	fail []string // labels of failed assertions that no known finding covers
	kf   map[string]string
	dead bool
	err  string
}

func (b *builds) nativeRun(h string, m Model, known []Finding, deep bool, traceOut bool) *nativeResult {
	tmp, err := os.MkdirTemp("", "vkrun")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	w := filepath.Join(tmp, "w")
	os.Mkdir(w, 0755)
	wf := filepath.Join(tmp, "witness.json")
	j, _ := json.Marshal(m)
	os.WriteFile(wf, j, 0644)
	args := []string{h, wf, b.oct}
	if deep {
		args = append(args, "deep")
	}
	cmd := exec.Command("timeout", append([]string{"60", b.native}, args...)...)
	cmd.Dir = w
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	if traceOut {
		cmd.Env = append(os.Environ(), "VK_TRACE=1")
		cmd.Stderr = os.Stderr
	}
	rerr := cmd.Run()
	r := &nativeResult{kf: map[string]string{}}
	tags := map[string]bool{}
	for _, l := range strings.Split(strings.TrimSpace(out.String()), "\n") {
		if traceOut {
			fmt.Println(l)
		}
		switch {
		case strings.HasPrefix(l, "TAG "):
			kv := strings.SplitN(l[4:], "=", 2)
			tags[kv[0]] = kv[1] == "true"
			continue
		case strings.HasPrefix(l, "NOTE "):
			continue
		case l == "ASSUME-FAIL":
			r.dead = true
			continue
		case strings.HasPrefix(l, "ASSERT ") && strings.HasSuffix(l, "=false"):
			label := strings.TrimSuffix(l[7:], "=false")
			kid := ""
			for _, f := range known {
				if f.Fixed == "" && f.Label == label && (f.Tag == "" || tags[f.Tag]) {
					kid = f.ID
				}
			}
			if kid != "" {
				r.kf[kid] = label
			} else {
				r.fail = append(r.fail, label)
			}
		}
		if l != "END" && l != "" {
			r.log = append(r.log, l)
		}
	}
	if rerr != nil {
		r.err = rerr.Error() + " " + errb.String()
	}
	return r
}

type options struct {
	prop, tier, only string
	seed             int64
	budget           int
	workers          int
	verbose, trace   bool
	prof             bool
	maxPaths         int
	noNative         bool
}

func main() {
	debug.SetGCPercent(300)
	mem, _ := strconv.Atoi(os.Getenv("VERIF_MEM")) // GB before the collector works harder
	if mem == 0 {
		mem = 12
	}
	debug.SetMemoryLimit(int64(mem) << 30)
	if len(os.Args) < 2 {
		fmt.Println("usage: engine check|replay|list ...")
		os.Exit(3)
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	o := options{}
	fs := flag.NewFlagSet("engine", flag.ExitOnError)
	fs.StringVar(&o.prop, "prop", "", "property id")
	fs.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	fs.StringVar(&o.only, "only", "", "regexp of harness names (debugging; no evidence)")
	fs.IntVar(&o.budget, "budget", 0, "seconds")
	fs.IntVar(&o.workers, "workers", runtime.NumCPU(), "")
	fs.BoolVar(&o.verbose, "v", false, "")
	fs.BoolVar(&o.trace, "trace", false, "")
	fs.BoolVar(&o.prof, "forks", false, "")
	fs.IntVar(&o.maxPaths, "maxpaths", 0, "")
	cpu := fs.String("cpuprofile", "", "")
	file := fs.String("file", "", "replay file")
	fs.Parse(os.Args[2:])
	o.seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		o.seed, _ = strconv.ParseInt(s, 10, 64)
	}
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "check":
		code := check(o)
		pprof.StopCPUProfile()
		os.Exit(code)
	case "replay":
		os.Exit(replay(*file))
	case "build":
		dir, _ := os.MkdirTemp("", "vkbuild")
		defer os.RemoveAll(dir)
		if b := build(dir); b.err != nil {
			fmt.Println(b.err)
			os.Exit(4)
		}
	}
}

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Order    bool              `json:"map_order"`
	Deep     bool              `json:"thorough"`
	Witness  map[string]uint64 `json:"witness"`
	Log      []string          `json:"observed"`
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	dir, _ := os.MkdirTemp("", "vkbuild")
	defer os.RemoveAll(dir)
	bs := build(dir)
	if bs.err != nil {
		fatal("%v", bs.err)
	}
	n := 1
	if rf.Order {
		n = 80
	}
	for i := 0; i < n; i++ {
		r := bs.nativeRun(rf.Harness, rf.Witness, nil, rf.Deep, true)
		for _, l := range r.fail {
			if l == rf.Label {
				fmt.Println("reproduced:", l)
				return 1
			}
		}
	}
	fmt.Println("not reproduced")
	return 0
}

func loadKnown(prop string) []Finding {
	var all []Finding
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var doc struct {
		Findings []Finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fatal("known_findings.json: %v", err)
	}
	for _, f := range doc.Findings {
		if f.Property == prop {
			all = append(all, f)
		}
	}
	return all
}

func check(o options) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "vkbuild")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	var bs *builds
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { bs = build(dir); wg.Done() }()
	P, names := load()
	wg.Wait()
	if bs.err != nil {
		fmt.Fprintln(os.Stderr, bs.err)
		return 4
	}
	helper.bin = bs.helperB
	if o.prof {
		profile = &forkProfile{m: map[string]int{}}
	}
	coverage = os.Getenv("VERIF_COV") != ""
	deep := o.tier == "thorough"
	if deep {
		crossCheck = true
	}
	var hs []string
	for _, n := range names {
		if !strings.HasPrefix(n, o.prop+"_") {
			continue
		}
		if strings.HasSuffix(n, "_T") && !deep {
			continue
		}
		if o.only != "" && !regexp.MustCompile(o.only).MatchString(n) {
			continue
		}
		hs = append(hs, n)
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", o.prop)
		return 3
	}
	budget := o.budget
	if budget == 0 {
		budget = 420
		if deep {
			budget = 5400
		}
	}
	loadT := time.Since(t0)
	known := loadKnown(o.prop)
	var ws []*worker
	for i := 0; i < o.workers; i++ {
		ws = append(ws, newWorker(P))
	}
	defer func() {
		for _, w := range ws {
			w.so.Close()
		}
	}()
	end := time.Now().Add(time.Duration(budget) * time.Second)
	var runs []*HarnessRun
	for i, n := range hs {
		left := time.Until(end) / time.Duration(len(hs)-i)
		if left < 5*time.Second {
			left = 5 * time.Second
		}
		// unused time flows to the later harnesses; each may use up to twice its share
		ro := &runOpts{trace: o.trace, maxPaths: o.maxPaths, deadline: time.Now().Add(2 * left), seed: o.seed, maxStep: 60_000_000, verbose: o.verbose}
		if d := end.Add(-time.Duration(len(hs)-i-1) * 3 * time.Second); ro.deadline.After(d) {
			ro.deadline = d
		}
		r := &HarnessRun{P: P, fn: P.harness.Func(n), name: n, deep: deep, known: known, opt: ro,
			labels: map[string]int{}, passed: map[string]int{}, failed: map[string]int{}, covers: map[string]int{},
			viol: map[string][]Violation{}, unsupMsgs: map[string]int{}, panics: map[string]int{}, reached: map[string]bool{}, sampleMax: 6}
		q0 := stats.Queries
		r.explore(ws)
		runs = append(runs, r)
		fmt.Printf("  %-34s paths=%d done=%d pruned=%d unsup=%d queries=%d steps=%dM %.1fs%s\n", n, r.paths, r.completed, r.pruned, r.unsupp, stats.Queries-q0, r.steps/1e6, r.wall.Seconds(), map[bool]string{true: " TRUNCATED", false: ""}[r.truncated])
		if o.verbose || r.unsupp > 0 {
			for _, s := range sortedCounts(r.unsupMsgs) {
				fmt.Println("    unsupported:", s)
			}
		}
		if o.verbose {
			for _, s := range sortedCounts(r.panics) {
				fmt.Println("    tool panic:", s)
			}
			fmt.Println("    asserts:", sortedCounts(r.labels))
			fmt.Println("    covers:", sortedCounts(r.covers))
		}
	}
	if c := os.Getenv("VERIF_COV"); c != "" {
		P.dumpCoverage(c)
	}
	if profile != nil {
		profile.dump()
	}
	rep := &report{o: o, known: known, runs: runs, bs: bs, loadT: loadT, t0: t0}
	return rep.finish()
}
