package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"vfengine/sym"
)

// Prop configures the check of one property.
type Prop struct {
	Pkgs        []string
	Prepare     func(c *Check) error
	Level       string
	Assumptions []string
	Funcs       []string // prefixes of function names reported as encoded
	QuickSecs   int
	FullSecs    int
	Package     bool // generated packages include test and fuzz files
	Pairs       bool // with the descriptions that pair all forms of members
}

type planEntry struct {
	Name     string   `json:"name"`
	Args     []int    `json:"args"`
	Reach    []string `json:"reach"`
	MaxPaths int      `json:"max_paths"`
	MaxSteps int64    `json:"max_steps"`
	Alloc    uint64   `json:"alloc"`
	MaxConc  int      `json:"max_conc"`
	Ends     bool     `json:"ends"`
	Reps     int      `json:"reps"`
	Note     string   `json:"note"`
	Cover    []string `json:"cover"`
	Sampler  string   `json:"sampler"`

	Names map[int]string `json:"names"`
}

// KnownFinding is an entry of known-findings.json.
type KnownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Harness  string `json:"harness,omitempty"`
	Arg      *int   `json:"arg,omitempty"`
	Name     string `json:"name,omitempty"` // note of the case (e.g. schema name)
	Label    string `json:"label,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

// Replay is a counterexample file.
type Replay struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Arg      int      `json:"arg"`
	Label    string   `json:"label"`
	Detail   string   `json:"detail,omitempty"`
	Kind     string   `json:"kind"` // assertion, panic, alloc, hang, build
	Inputs   []input  `json:"inputs"`
	Native   any      `json:"native"`
	How      string   `json:"how"`
	Files    []string `json:"files,omitempty"`
	Name     string   `json:"name,omitempty"`
	Tier     string   `json:"tier"`
	Seed     int64    `json:"seed"`
}

// Check is a run of one property's check.
type Check struct {
	ID    string
	Tier  string
	Seed  int64
	W     *Workspace
	P     *Prop
	Start time.Time

	mu         sync.Mutex
	viol       []Replay
	known      []string
	knownSeen  map[int]bool
	findings   []KnownFinding
	unrepro    []string
	notes      []string
	extra      map[string]any
	plan       map[string]planEntry
	nativeRuns int64
	stuck      int // paths that ran out of steps and were tried natively
	beyond     int // paths the engine could not follow and were tried natively
	pkgs       []string
}

func (c *Check) note(f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := fmt.Sprintf(f, a...)
	for _, n := range c.notes {
		if n == s {
			return
		}
	}
	if len(c.notes) < 60 {
		c.notes = append(c.notes, s)
	}
}

func checkMain(args []string) int {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: check <property> [tier]")
		return 2
	}
	id := args[0]
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	tier := envOr("VERIF_TIER", "quick")
	if len(args) > 1 {
		tier = args[1]
	}
	seed, _ := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	c := &Check{ID: id, Tier: tier, Seed: seed, P: p, Start: time.Now(), knownSeen: map[int]bool{}, extra: map[string]any{}}
	w, err := newWorkspace(id)
	if err != nil {
		fmt.Fprintln(os.Stderr, "workspace:", err)
		return 2
	}
	c.W = w
	defer w.Close()
	code, err := c.run()
	if err != nil {
		fmt.Fprintln(os.Stderr, "check error:", err)
		return 2
	}
	return code
}

func (c *Check) loadFindings() {
	b, err := os.ReadFile(filepath.Join(c.W.Verif, "known-findings.json"))
	if err != nil {
		return
	}
	if err := json.Unmarshal(b, &c.findings); err != nil {
		fmt.Fprintln(os.Stderr, "known-findings.json:", err)
	}
}

// isKnown matches a reproduced counterexample with the committed list.
func (c *Check) isKnown(harness string, arg int, label, name string) (int, bool) {
	for i, k := range c.findings {
		if k.Status != "open" || k.Property != c.ID || k.Harness != harness || k.Label != label {
			continue
		}
		if k.Arg != nil && *k.Arg != arg || k.Name != "" && k.Name != name {
			continue
		}
		return i, true
	}
	return 0, false
}

// report records a reproduced counterexample.
func (c *Check) report(r Replay) {
	c.mu.Lock()
	defer c.mu.Unlock()
	r.Tier, r.Seed = c.Tier, c.Seed
	if pe, ok := c.plan[r.Harness]; ok && pe.Names != nil {
		r.Name = pe.Names[r.Arg]
	}
	if i, ok := c.isKnown(r.Harness, r.Arg, r.Label, r.Name); ok {
		if !c.knownSeen[i] {
			c.knownSeen[i] = true
			c.known = append(c.known, c.findings[i].What)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, c.findings[i].What)
		}
		return
	}
	c.viol = append(c.viol, r)
}

func toInputs(in []sym.Input) []input {
	out := make([]input, len(in))
	for i, x := range in {
		out[i] = input{x.Label, x.W, x.V}
	}
	return out
}

func (c *Check) countRun(n int) {
	c.mu.Lock()
	c.nativeRuns += int64(n)
	c.mu.Unlock()
}

// confirm replays an assertion violation or panic natively.
func (c *Check) confirm(v sym.Violation) {
	pe := c.plan[v.Job.Name]
	reps := 1
	if pe.Reps > 0 {
		reps = pe.Reps
	}
	rq := request{v.Job.Name, v.Job.Arg, toInputs(v.Inputs)}
	var last reply
	for i := 0; i < reps; i++ {
		last = runOnce(c.W.Runner, rq, 60*time.Second)
		c.countRun(1)
		kind := ""
		switch {
		case last.Panic != "" || last.Crash != "":
			kind = "panic"
		case last.Timeout:
			kind = "hang"
		default:
			for _, f := range last.Fails {
				if f == v.Label {
					kind = "assertion"
				}
			}
			if kind == "" && len(last.Fails) > 0 {
				kind = "assertion"
			}
		}
		if kind != "" {
			label := v.Label
			if kind == "assertion" {
				label = last.Fails[0]
			}
			c.report(Replay{Property: c.ID, Harness: rq.H, Arg: rq.Arg, Label: label, Detail: v.Detail, Kind: kind, Inputs: rq.In, Native: last})
			return
		}
	}
	c.mu.Lock()
	c.unrepro = append(c.unrepro, fmt.Sprintf("%s(%d): %s %s (native: %+v)", rq.H, rq.Arg, v.Label, v.Detail, last))
	c.mu.Unlock()
}

// confirmSpecial replays resource exhaustion. In harnesses that are not about
// resources, only runs that do not end or that crash count, and only some of
// the paths are tried. Paths the engine could not follow to their end are
// finished natively.
func (c *Check) confirmSpecial(s sym.Special) {
	pe := c.plan[s.Job.Name]
	switch s.Kind {
	case sym.EndAlloc:
		if !pe.Ends {
			return
		}
	case sym.EndSteps, sym.EndDepth:
		if !pe.Ends {
			c.mu.Lock()
			c.stuck++
			n := c.stuck
			c.mu.Unlock()
			if n > 40 {
				return
			}
		}
	case sym.EndUnsupported:
		c.mu.Lock()
		c.beyond++
		n := c.beyond
		c.mu.Unlock()
		if n > 400 {
			return
		}
	default:
		return
	}
	rq := request{s.Job.Name, s.Job.Arg, toInputs(s.Inputs)}
	wait := 20 * time.Second
	if s.Kind == sym.EndUnsupported {
		wait = 5 * time.Second
	}
	rp := runOnce(c.W.Runner, rq, wait)
	c.countRun(1)
	kind := ""
	limit := pe.Alloc
	if limit == 0 {
		limit = 64 << 20
	}
	switch {
	case rp.Timeout:
		if s.Kind == sym.EndUnsupported {
			// inputs the path did not get to are zero, which may be unfair
			c.mu.Lock()
			c.beyond += 40
			c.mu.Unlock()
			break
		}
		kind = "hang"
	case rp.Crash != "" || rp.Panic != "":
		kind = "panic"
	case s.Kind == sym.EndUnsupported && len(rp.Fails) > 0:
		kind = "assertion"
	case s.Kind == sym.EndUnsupported:
	case pe.Ends && rp.Alloc > limit:
		kind = "alloc"
	case len(rp.Fails) > 0:
		kind = "assertion"
	}
	if kind != "" {
		label := "terminates within resource bounds"
		if kind == "panic" {
			label = "no panic"
		}
		if kind == "assertion" {
			label = rp.Fails[0]
		}
		c.report(Replay{Property: c.ID, Harness: rq.H, Arg: rq.Arg, Label: label, Detail: s.Kind.String() + ": " + s.Msg, Kind: kind, Inputs: rq.In, Native: rp})
		return
	}
	if s.Kind == sym.EndUnsupported {
		return
	}
	c.note("%s(%d): path ended by %s (%s) but the native run is fine (%d ms, %d bytes)", rq.H, rq.Arg, s.Kind, s.Msg, rp.Millis, rp.Alloc)
}

func (c *Check) run() (int, error) {
	c.loadFindings()
	c.pkgs = c.P.Pkgs
	if c.P.Prepare != nil {
		if err := c.P.Prepare(c); err != nil {
			return 2, err
		}
		if len(c.viol) > 0 && c.pkgs == nil {
			return c.finish(nil, nil, nil)
		}
	}
	if err := c.W.writeMain(c.pkgs); err != nil {
		return 2, err
	}
	if out, err := c.W.buildRunner(); err != nil {
		return 2, fmt.Errorf("building the native runner: %v\n%s", err, tail(out, 4000))
	}
	planOut, err := runCmd(c.W.Runner, "plan", c.Tier)
	if err != nil {
		return 2, fmt.Errorf("plan: %v", err)
	}
	var plan []planEntry
	if err := json.Unmarshal(planOut, &plan); err != nil {
		return 2, fmt.Errorf("plan: %v", err)
	}
	c.plan = map[string]planEntry{}
	for _, e := range plan {
		c.plan[e.Name] = e
	}

	tl := time.Now()
	for _, kv := range goEnv() {
		i := strings.IndexByte(kv, '=')
		os.Setenv(kv[:i], kv[i+1:])
	}
	prog, pkgs, err := sym.Load(c.W.Dir, c.W.Overlay, "./runner")
	if err != nil {
		return 2, err
	}
	c.extra["load_s"] = time.Since(tl).Seconds()
	// Harness packages only have constant tables: these are initialised once.
	perPath := func(p string) bool {
		if p == modPath || strings.HasPrefix(p, modPath+"/") {
			return strings.HasPrefix(p, modPath+"/gp/")
		}
		return strings.HasPrefix(p, "github.com/mmcloughlin/")
	}
	m := sym.NewMachine(prog, modPath+"/vf", perPath)
	var jobs []*sym.Job
	only := os.Getenv("VERIF_ONLY")
	for _, e := range plan {
		i := strings.LastIndexByte(e.Name, '.')
		pkg := pkgs[modPath+"/"+e.Name[:i]]
		if pkg == nil {
			return 2, fmt.Errorf("no package for harness %s", e.Name)
		}
		fn := pkg.Func(e.Name[i+1:])
		if fn == nil {
			return 2, fmt.Errorf("no function for harness %s", e.Name)
		}
		for _, a := range e.Args {
			if only != "" && only != e.Name && only != fmt.Sprintf("%s:%d", e.Name, a) {
				continue
			}
			jobs = append(jobs, &sym.Job{Name: e.Name, Fn: fn, Arg: a, MaxPaths: e.MaxPaths, MaxSteps: e.MaxSteps, MaxConc: e.MaxConc, AllocLimit: e.Alloc})
		}
	}
	secs := c.P.QuickSecs
	if secs == 0 {
		secs = 120
	}
	if c.Tier == "thorough" {
		secs = c.P.FullSecs
		if secs == 0 {
			secs = 480
		}
	}
	ex := &sym.Explorer{
		M: m, Workers: runtime.NumCPU(), Z3: []string{"z3-new", "-in"}, Timeout: 10 * time.Second,
		Cross: []string{"cvc5", "--incremental", "--lang=smt2", "--produce-models", "--tlimit-per=10000"}, CrossEvery: 50,
		Deadline: time.Now().Add(time.Duration(secs) * time.Second), SamplesPer: 3, Seed: c.Seed,
	}
	if c.Tier == "thorough" {
		ex.CrossEvery = 40
	}
	var cw sync.WaitGroup
	sem := make(chan struct{}, 4)
	enough := func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		return len(c.viol) >= 3
	}
	maybeStop := func() {
		if enough() {
			ex.Stop()
		}
	}
	ex.OnViol = func(v sym.Violation) {
		cw.Add(1)
		go func() {
			defer cw.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if enough() {
				return
			}
			c.confirm(v)
			maybeStop()
		}()
	}
	ex.OnSpecial = func(s sym.Special) {
		cw.Add(1)
		go func() {
			defer cw.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if enough() {
				return
			}
			c.confirmSpecial(s)
			maybeStop()
		}()
	}
	ex.Run(jobs)
	cw.Wait()
	return c.finish(ex, jobs, plan)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (c *Check) validate(jobs []*sym.Job) (n int, bad []string) {
	var rqs []request
	var want [][]string
	for _, j := range jobs {
		for _, s := range j.Res.Samples {
			rqs = append(rqs, request{j.Name, j.Arg, toInputs(s.Inputs)})
			want = append(want, s.Obs)
		}
	}
	if len(rqs) == 0 {
		return 0, nil
	}
	if len(rqs) > 3000 {
		step := len(rqs)/3000 + 1
		var r2 []request
		var w2 [][]string
		for i := 0; i < len(rqs); i += step {
			r2 = append(r2, rqs[i])
			w2 = append(w2, want[i])
		}
		rqs, want = r2, w2
	}
	rps := runBatch(c.W.Runner, rqs, 120*time.Second)
	for i, rp := range rps {
		if len(bad) >= 8 {
			break
		}
		if rp.Crash != "" && strings.Contains(rp.Crash, "stopped") {
			rp = runOnce(c.W.Runner, rqs[i], 20*time.Second)
		}
		n++
		got := strings.Join(rp.Obs, "\n")
		if got != strings.Join(want[i], "\n") || rp.Panic != "" || rp.Crash != "" || rp.Diverged || rp.Timeout {
			rp.Obs = nil
			bad = append(bad, fmt.Sprintf("%s(%d) %v\nengine: %s\nnative: %s %+v", rqs[i].H, rqs[i].Arg, fmtInputs(rqs[i].In), strings.Join(want[i], " | "), strings.ReplaceAll(got, "\n", " | "), rp))
		}
	}
	return n, bad
}

func fmtInputs(in []input) string {
	var sb strings.Builder
	for i, x := range in {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i > 60 {
			sb.WriteString("...")
			break
		}
		fmt.Fprintf(&sb, "%s=%#x", x.L, x.V)
	}
	return sb.String()
}

func (c *Check) finish(ex *sym.Explorer, jobs []*sym.Job, plan []planEntry) (int, error) {
	code := 0
	ev := map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.P.Level}
	cov := map[string]any{}
	evdir := filepath.Join(c.W.Verif, "evidence")
	if err := os.MkdirAll(evdir, 0o755); err != nil {
		return 2, err
	}
	var errs []string
	if ex != nil {
		var paths, steps, asserts, tri, unk, under int64
		ends := map[string]int64{}
		reach := map[string]map[string]bool{}
		trunc := map[string]bool{}
		perH := map[string]map[string]any{}
		var specials, hollow []string
		for _, j := range jobs {
			r := &j.Res
			paths += r.Paths
			steps += r.Steps
			asserts += r.Asserts
			tri += r.AssertsTri
			unk += r.Unknowns
			under += r.Under
			for k, n := range r.Ends {
				ends[k] += n
			}
			for k, n := range r.EndMsgs {
				if len(specials) < 40 {
					specials = append(specials, fmt.Sprintf("%s(%d): %s x%d", j.Name, j.Arg, k, n))
				}
			}
			if r.Ends["done"] == 0 && len(r.Viol) == 0 {
				hollow = append(hollow, fmt.Sprintf("%s(%d) %s", j.Name, j.Arg, c.plan[j.Name].Names[j.Arg]))
			}
			if reach[j.Name] == nil {
				reach[j.Name] = map[string]bool{}
			}
			for k := range r.Reach {
				reach[j.Name][k] = true
			}
			if r.Truncated || cutShort(r.Ends) {
				trunc[j.Name] = true
			}
			h := perH[j.Name]
			if h == nil {
				h = map[string]any{"args": []int{}, "paths": int64(0), "solver_asserts": int64(0), "complete": true}
				perH[j.Name] = h
			}
			h["args"] = append(h["args"].([]int), j.Arg)
			h["paths"] = h["paths"].(int64) + r.Paths
			h["solver_asserts"] = h["solver_asserts"].(int64) + r.Asserts
			if r.Truncated || cutShort(r.Ends) {
				h["complete"] = false
			}
		}
		// the exploration is cut short by violations, which says nothing about cover
		explored := len(c.viol) == 0
		for _, j := range jobs {
			if explored && len(c.viol) < 3 {
				c.checkCover(j)
			}
		}
		nval, bad := 0, []string(nil)
		if len(c.viol) == 0 {
			nval, bad = c.validate(jobs)
			c.countRun(nval)
		}
		for _, b := range bad {
			errs = append(errs, "engine and native runs differ: "+b)
		}
		missing := []string{}
		for _, e := range plan {
			for _, l := range e.Reach {
				if len(e.Args) > 0 && reach[e.Name] != nil && !reach[e.Name][l] {
					missing = append(missing, e.Name+":"+l)
					if !trunc[e.Name] && len(c.viol) == 0 && !c.never(jobs, e.Name, l, len(bad) > 0) {
						errs = append(errs, "vacuous: "+e.Name+" never reached "+l)
					}
				}
			}
		}
		sort.Strings(specials)
		cov["states"] = paths
		cov["transitions"] = ex.Branches
		cov["traces_validated_against_impl"] = nval
		cov["samples"] = c.sampleList(jobs)
		cov["paths"] = map[string]any{"total": paths, "by_end": ends, "instructions": steps}
		cov["assertions_decided_by_solver"] = asserts
		cov["assertions_true_by_simplification"] = tri
		cov["solver"] = map[string]any{
			"name": "z3-new", "queries": ex.Stats.Queries, "sat": ex.Stats.Sat, "unsat": ex.Stats.Unsat, "unknown": ex.Stats.Unknown,
			"errors": ex.Stats.Errors, "linear_integer_encoding": ex.Stats.Linear, "cache_hits": ex.Stats.CacheHits, "branches_decided_by_byte_enumeration": ex.Stats.ByteDec,
			"time_s": float64(ex.Stats.Nanos) / 1e9, "cross_checked_unsat_cvc5": ex.Stats.Cross, "cross_disagreements": ex.Stats.CrossBad,
		}
		cov["undecided_branches_or_assertions"] = unk
		cov["values_fixed_by_model"] = under
		cov["native_runs"] = c.nativeRuns
		cov["harnesses"] = perH
		cov["functions_encoded"] = c.encoded(ex)
		cov["abnormal_path_ends"] = specials
		cov["jobs_without_completed_path"] = hollow
		cov["unreached_witnesses"] = missing
		cov["exploration_complete"] = len(trunc) == 0
		if len(ex.Fatal) > 0 {
			cov["engine_faults"] = ex.Fatal
		}
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.unrepro) > 0 {
		if len(c.unrepro) > 20 {
			c.unrepro = c.unrepro[:20]
		}
		cov["counterexamples_not_reproduced"] = c.unrepro
		for _, u := range c.unrepro {
			fmt.Println("note: counterexample not reproduced natively:", tail(u, 400))
		}
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	if len(c.known) > 0 {
		cov["known_findings_seen"] = c.known
	}
	ev["coverage"] = cov
	ev["assumptions"] = c.P.Assumptions
	ev["violations"] = len(c.viol)
	ev["wall_s"] = time.Since(c.Start).Seconds()
	for i, v := range c.viol {
		if i >= 5 {
			break
		}
		v.How = fmt.Sprintf("cd %s && ./check replay evidence/replay-%s-%d.json", c.W.Verif, c.ID, i)
		p := filepath.Join(evdir, fmt.Sprintf("replay-%s-%d.json", c.ID, i))
		b, _ := json.MarshalIndent(v, "", " ")
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return 2, err
		}
		fmt.Printf("%s(%d) %s: %s [%s] %s inputs: %s\n", v.Harness, v.Arg, v.Name, v.Label, v.Kind, tail(v.Detail, 1500), fmtInputs(v.Inputs))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		code = 1
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, c.ID+".json"), b, 0o644); err != nil {
		return 2, err
	}
	if code == 0 && len(errs) > 0 {
		for i, e := range errs {
			if i < 8 {
				fmt.Fprintln(os.Stderr, "check error:", e)
			}
		}
		return 2, nil
	}
	if ex != nil {
		fmt.Printf("%s %s: %d jobs, paths %v, %v solver queries (%.1fs), complete=%v, %.1fs\n", c.ID, c.Tier, len(jobs), cov["paths"].(map[string]any)["by_end"], ex.Stats.Queries, float64(ex.Stats.Nanos)/1e9, cov["exploration_complete"], time.Since(c.Start).Seconds())
	}
	return code, nil
}

// cutShort reports whether paths were given up before their end.
func cutShort(ends map[string]int64) bool {
	for k, n := range ends {
		if n > 0 && k != sym.EndDone.String() && k != sym.EndInfeasible.String() && k != sym.EndPanic.String() {
			return true
		}
	}
	return false
}

// checkCover reports labels a completely explored job cannot reach.
func (c *Check) checkCover(j *sym.Job) {
	pe := c.plan[j.Name]
	for _, l := range pe.Cover {
		if j.Res.Reach[l] {
			continue
		}
		// a sampler decides by itself
		if j.Res.Truncated || j.Res.Unknowns > 0 || pe.Sampler == "" && cutShort(j.Res.Ends) {
			c.note("%s(%d): %s not reached, exploration incomplete", j.Name, j.Arg, l)
			continue
		}
		r := Replay{Property: c.ID, Harness: j.Name, Arg: j.Arg, Label: l, Kind: "cover", Detail: "no input reaches this"}
		if pe.Sampler != "" {
			rp := runOnce(c.W.Runner, request{pe.Sampler, j.Arg, nil}, 30*time.Second)
			c.countRun(1)
			r.Native = rp
			if len(rp.Fails) == 0 && rp.Panic == "" && rp.Crash == "" && !rp.Timeout {
				c.unrepro = append(c.unrepro, fmt.Sprintf("%s(%d): %s cannot be reached, but sampling finds it", j.Name, j.Arg, l))
				continue
			}
		} else if !c.missed(j, l, &r) {
			c.note("%s(%d): %s not reached, but not confirmed natively", j.Name, j.Arg, l)
			continue
		}
		c.report(r)
	}
}

// missed runs the sampled inputs of a job natively and reports whether none of
// them reaches the label.
func (c *Check) missed(j *sym.Job, label string, r *Replay) bool {
	var rqs []request
	for _, s := range j.Res.Samples {
		rqs = append(rqs, request{j.Name, j.Arg, toInputs(s.Inputs)})
	}
	if len(rqs) == 0 {
		return false
	}
	for _, rp := range runBatch(c.W.Runner, rqs, 60*time.Second) {
		c.countRun(1)
		for _, l := range rp.Reached {
			if l == label {
				return false
			}
		}
		r.Native = rp
	}
	r.Inputs = rqs[0].In
	return true
}

// never reports a label no input of any job of a harness reaches, provided the
// exploration left nothing out and native runs do not reach it either.
func (c *Check) never(jobs []*sym.Job, name, label string, bad bool) bool {
	if bad || os.Getenv("VERIF_ONLY") != "" || os.Getenv("VERIF_SCHEMA") != "" {
		return false
	}
	r := Replay{Property: c.ID, Harness: name, Label: label, Kind: "never", Detail: "no input of any job reaches this"}
	var rqs []request
	for _, j := range jobs {
		if j.Name != name {
			continue
		}
		if j.Res.Unknowns > 0 || cutShort(j.Res.Ends) {
			return false
		}
		for _, s := range j.Res.Samples {
			rqs = append(rqs, request{j.Name, j.Arg, toInputs(s.Inputs)})
		}
	}
	if len(rqs) == 0 {
		return false
	}
	if len(rqs) > 200 {
		rqs = rqs[:200]
	}
	for _, rp := range runBatch(c.W.Runner, rqs, 60*time.Second) {
		c.countRun(1)
		for _, l := range rp.Reached {
			if l == label {
				return false
			}
		}
	}
	r.Arg, r.Inputs = rqs[0].Arg, rqs[0].In
	c.report(r)
	return true
}

func (c *Check) sampleList(jobs []*sym.Job) []string {
	var out []string
	for _, j := range jobs {
		for _, s := range j.Res.Samples {
			out = append(out, fmt.Sprintf("%s(%d) %s -> %s", j.Name, j.Arg, tail(fmtInputs(toInputs(s.Inputs)), 300), tail(strings.Join(s.Obs, " "), 300)))
			break
		}
		if len(out) >= 12 {
			break
		}
	}
	return out
}

func (c *Check) encoded(ex *sym.Explorer) map[string]int64 {
	out := map[string]int64{}
	for f, n := range ex.Hits {
		if !strings.Contains(f, "mmcloughlin/trunnel") || strings.Contains(f, modPath) && !strings.Contains(f, modPath+"/gp") {
			continue
		}
		out[strings.ReplaceAll(f, "github.com/mmcloughlin/trunnel/", "")] = n
	}
	if len(out) > 150 {
		ks := make([]string, 0, len(out))
		for k := range out {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool {
			gi, gj := strings.Contains(ks[i], "vfw/gp"), strings.Contains(ks[j], "vfw/gp")
			if gi != gj {
				return !gi
			}
			return ks[i] < ks[j]
		})
		total := len(ks)
		o2 := map[string]int64{"(total functions)": int64(total)}
		for _, k := range ks[:150] {
			o2[k] = out[k]
		}
		return o2
	}
	return out
}
