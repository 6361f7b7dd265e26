package sym

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is one harness run with a parameter.
type Job struct {
	Name       string
	Fn         *ssa.Function
	Arg        int
	MaxPaths   int
	MaxSteps   int64
	MaxConc    int
	AllocLimit uint64
	Priority   int

	mu       sync.Mutex
	paths    int
	stack    []item
	Res      JobResult
	vioSeen  map[string]int
	obsTaken int
}

// JobResult aggregates a job.
type JobResult struct {
	Paths      int64
	Ends       map[string]int64
	EndMsgs    map[string]int64
	Steps      int64
	Asserts    int64
	AssertsTri int64
	Unknowns   int64
	Under      int64
	Viol       []Violation
	Reach      map[string]bool
	Special    []Special // alloc/steps/depth/unsupported/panic ends with inputs
	Samples    []Sample  // completed paths with observations
	Truncated  bool      // not all queued prefixes were explored
	MaxDepth   int
}

// Special is a path that ended abnormally.
type Special struct {
	Kind   EndKind
	Msg    string
	Inputs []Input
	Job    *Job
}

// Sample is a completed path for translation validation.
type Sample struct {
	Inputs []Input
	Obs    []string
	Job    *Job
}

type item struct {
	job    *Job
	prefix []Decision
	model  Model
}

type cacheEnt struct {
	v Verdict
	m Model
}

// Worker explores paths.
type Worker struct {
	m          *Machine
	ctx        *TermCtx
	solver     *Solver
	cross      *Solver
	crossEvery int64
	held       int64 // assertions the solver found to hold
	cache      map[string]cacheEnt
	masks      map[*Term]*[4]uint64
	globals    []*Value
	inited     map[*PkgInfo]bool
	hits       map[*Fn]int64
	branches   int64
}

// Explorer runs jobs in parallel.
type Explorer struct {
	M          *Machine
	Workers    int
	Z3         []string
	Timeout    time.Duration
	Cross      []string
	CrossEvery int64
	Deadline   time.Time
	SamplesPer int
	Seed       int64
	OnViol     func(v Violation)
	OnSpecial  func(s Special)

	mu       sync.Mutex
	cond     *sync.Cond
	ring     []*Job // jobs with queued items
	turn     int
	active   int
	stop     bool
	Stats    SolverStats
	Branches int64
	Hits     map[string]int64
	Fatal    []string
	Done     int64
}

// Stop ends exploration early.
func (e *Explorer) Stop() {
	e.mu.Lock()
	e.stop = true
	e.cond.Broadcast()
	e.mu.Unlock()
}

// Run explores all jobs.
func (e *Explorer) Run(jobs []*Job) {
	e.cond = sync.NewCond(&e.mu)
	e.Hits = map[string]int64{}
	for _, j := range jobs {

		j.vioSeen = map[string]int{}
		j.Res = JobResult{Ends: map[string]int64{}, EndMsgs: map[string]int64{}, Reach: map[string]bool{}}
		if j.MaxConc == 0 {
			j.MaxConc = 300
		}
		if j.AllocLimit == 0 {
			j.AllocLimit = 64 << 20
		}
		if j.MaxSteps == 0 {
			j.MaxSteps = 3_000_000
		}
		if j.MaxPaths == 0 {
			j.MaxPaths = 1 << 30
		}
		j.stack = append(j.stack[:0], item{job: j, model: Model{}})
		e.ring = append(e.ring, j)
	}
	var wg sync.WaitGroup
	for i := 0; i < e.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	wg.Wait()
	// whatever is left was not explored
	for _, j := range e.ring {
		j.Res.Truncated = true
	}
}

// next takes the newest item of the next job in turn.
func (e *Explorer) next() item {
	if e.turn >= len(e.ring) {
		e.turn = 0
	}
	j := e.ring[e.turn]
	n := len(j.stack) - 1
	it := j.stack[n]
	j.stack = j.stack[:n]
	if n == 0 {
		e.ring = append(e.ring[:e.turn], e.ring[e.turn+1:]...)
	} else {
		e.turn++
	}
	return it
}

func (e *Explorer) worker() {
	w := &Worker{m: e.M, crossEvery: e.CrossEvery}
	w.reset()
	w.hits = map[*Fn]int64{}
	w.solver = NewSolver(e.Z3, e.Timeout)
	w.solver.Ints = true
	if len(e.Cross) > 0 {
		w.cross = NewSolver(e.Cross, e.Timeout)
	}
	defer func() {
		w.solver.Close()
		e.mu.Lock()
		e.Stats.add(&w.solver.Stats)
		if w.cross != nil {
			w.cross.Close()
		}
		e.Branches += w.branches
		for f, n := range w.hits {
			e.Hits[f.name] += n
		}
		e.mu.Unlock()
	}()
	for {
		e.mu.Lock()
		for len(e.ring) == 0 && e.active > 0 && !e.stop {
			e.cond.Wait()
		}
		if e.stop || len(e.ring) == 0 || (!e.Deadline.IsZero() && time.Now().After(e.Deadline)) {
			e.stop = e.stop || len(e.ring) > 0
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		it := e.next()
		it.job.mu.Lock()
		if it.job.paths >= it.job.MaxPaths {
			it.job.Res.Truncated = true
			it.job.mu.Unlock()
			e.mu.Unlock()
			continue
		}
		it.job.paths++
		it.job.mu.Unlock()
		e.active++
		e.mu.Unlock()

		if w.ctx.Size() > 400_000 {
			w.reset()
		}
		e.runPath(w, it)

		e.mu.Lock()
		e.active--
		e.Done++
		e.cond.Broadcast()
		e.mu.Unlock()
	}
}

func (w *Worker) reset() {
	w.ctx = NewTermCtx()
	w.cache = map[string]cacheEnt{}
	w.masks = map[*Term]*[4]uint64{}
	w.globals = nil
	w.inited = map[*PkgInfo]bool{}
}

var traceSlow = os.Getenv("VERIF_TRACE") != ""

func (e *Explorer) runPath(w *Worker, it item) {
	ex := &Exec{
		m: e.M, w: w, ctx: w.ctx, job: it.job,
		prefix: it.prefix, model: it.model,
		pcSet: map[*Term]bool{}, byVar: map[int32][]*Term{}, dom: map[int32]*[4]uint64{},
		wide: map[int32]bool{}, known: map[*Term]uint64{},
		inited:   map[*PkgInfo]bool{},
		maxSteps: it.job.MaxSteps,
		deadline: e.Deadline,
	}
	ex.res.Reach = map[string]bool{}
	start := time.Now()
	var queued []item
	ex.enqueue = func(p []Decision, m Model) {
		queued = append(queued, item{job: it.job, prefix: p, model: m})
	}
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
				ex.res.End = EndDone
			case pathEnd:
				ex.res.End, ex.res.Msg = x.kind, x.msg
			case *targetPanic:
				ex.res.End = EndPanic
				func() {
					defer func() {
						if recover() != nil {
							ex.res.Msg = "panic (message unavailable)"
						}
					}()
					ex.res.Msg = ex.panicText(x.v)
				}()
			default:
				ex.res.End = EndUnsupported
				ex.res.Msg = fmt.Sprintf("engine: %v", r)
				e.mu.Lock()
				if len(e.Fatal) < 20 {
					if st := string(debug.Stack()); len(e.Fatal) < 5 {
						if i := strings.LastIndex(st, "panic("); i >= 0 {
							st = st[i:]
						}
						if len(st) > 600 {
							st = st[:600]
						}
						e.Fatal = append(e.Fatal, fmt.Sprintf("%s: %v %s", it.job.Name, r, st))
					}
				}
				e.mu.Unlock()
			}
		}()
		ex.call(e.M.fn(it.job.Fn), []Value{vInt(it.job.Arg)}, nil, nil)
	}()
	if d := time.Since(start); traceSlow && d > 2*time.Second {
		fmt.Fprintf(os.Stderr, "slow path: %s(%d) %.1fs %d steps, %d constraints, %v %s\n", it.job.Name, it.job.Arg, d.Seconds(), ex.steps, len(ex.pc), ex.res.End, ex.res.Msg)
	}
	ex.res.Steps = ex.steps
	ex.res.Depth = len(ex.trace)
	if ex.res.End != EndInfeasible {
		ex.res.Inputs = ex.inputsUnder(ex.model)
		for _, o := range ex.obs {
			ex.res.Obs = append(ex.res.Obs, ex.renderObs(o))
		}
	}
	e.finish(ex, it, queued)
}

func (e *Explorer) finish(ex *Exec, it item, queued []item) {
	j := it.job
	j.mu.Lock()
	r := &j.Res
	r.Paths++
	r.Ends[ex.res.End.String()]++
	if ex.res.Msg != "" && ex.res.End != EndInfeasible && len(r.EndMsgs) < 50 {
		r.EndMsgs[ex.res.End.String()+": "+ex.res.Msg]++
	}
	if ex.res.Msg == timeIsUp {
		r.Truncated = true
	}
	r.Steps += ex.res.Steps
	r.Asserts += ex.res.Asserts
	r.AssertsTri += ex.res.AssertsTri
	r.Unknowns += ex.res.Unknowns
	r.Under += ex.res.Under
	if ex.res.Depth > r.MaxDepth {
		r.MaxDepth = ex.res.Depth
	}
	for k := range ex.res.Reach {
		r.Reach[k] = true
	}
	var newViol []Violation
	if ex.res.End == EndPanic {
		v := Violation{Label: "uncaught panic", Detail: ex.res.Msg, Inputs: ex.res.Inputs, Job: j}
		ex.res.Viol = append(ex.res.Viol, v)
	}
	for _, v := range ex.res.Viol {
		if j.vioSeen[v.Label] < 3 {
			j.vioSeen[v.Label]++
			r.Viol = append(r.Viol, v)
			newViol = append(newViol, v)
		}
	}
	var sp []Special
	switch ex.res.End {
	case EndAlloc, EndSteps, EndDepth, EndUnsupported, EndTruncated:
		if len(r.Special) < 8 {
			s := Special{ex.res.End, ex.res.Msg, ex.res.Inputs, j}
			r.Special = append(r.Special, s)
			sp = append(sp, s)
		}
	case EndDone:
		if len(ex.obs) > 0 && ex.res.Msg == "" {
			j.obsTaken++
			s := Sample{ex.res.Inputs, ex.res.Obs, j}
			if len(r.Samples) < e.SamplesPer {
				r.Samples = append(r.Samples, s)
			} else if e.SamplesPer > 0 {
				// deterministic reservoir
				k := int((uint64(j.obsTaken)*0x9E3779B97F4A7C15 + uint64(e.Seed)) % uint64(j.obsTaken))
				if k < e.SamplesPer {
					r.Samples[k] = s
				}
			}
		}
	}
	j.mu.Unlock()
	e.mu.Lock()
	if e.stop {
		if len(queued) > 0 {
			j.Res.Truncated = true
		}
	} else {
		if len(queued) > 0 {
			if len(it.job.stack) == 0 {
				e.ring = append(e.ring, it.job)
			}
			it.job.stack = append(it.job.stack, queued...)
		}
	}
	e.mu.Unlock()
	for _, v := range newViol {
		if e.OnViol != nil {
			e.OnViol(v)
		}
	}
	for _, s := range sp {
		if e.OnSpecial != nil {
			e.OnSpecial(s)
		}
	}
}

func (ex *Exec) panicText(v Value) string {
	if v.P == nil {
		return "nil"
	}
	i := v.P.(*Iface)
	if s, ok := i.V.P.(string); ok {
		return s
	}
	if f := ex.m.methodByName(i.T, "Error"); f != nil {
		r := ex.call(f, []Value{i.V}, nil, nil)
		if s, ok := ex.concStr(r); ok {
			return s
		}
	}
	return i.T.T.String()
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
