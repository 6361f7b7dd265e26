package vf

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"
)

type planEntry struct {
	Name     string   `json:"name"`
	Args     []int    `json:"args"`
	Reach    []string `json:"reach"`
	MaxPaths int      `json:"max_paths"`
	MaxSteps int64    `json:"max_steps"`
	Alloc    uint64   `json:"alloc"`
	MaxConc  int      `json:"max_conc"`
	Ends     bool     `json:"ends"`
	Reps     int      `json:"reps"`
	Note     string   `json:"note"`
	Cover    []string `json:"cover"`
	Sampler  string   `json:"sampler"`

	Names map[int]string `json:"names"`
}

// Request asks for a native run.
type Request struct {
	H   string  `json:"h"`
	Arg int     `json:"arg"`
	In  []Input `json:"in"`
}

// Reply is the outcome of a native run.
type Reply struct {
	Fails    []string `json:"fails,omitempty"`
	Reached  []string `json:"reached,omitempty"`
	Obs      []string `json:"obs,omitempty"`
	Panic    string   `json:"panic,omitempty"`
	Stop     string   `json:"stop,omitempty"`
	Diverged bool     `json:"diverged,omitempty"`
	Alloc    uint64   `json:"alloc"`
	Millis   int64    `json:"ms"`
}

// Main is the entry point of the native runner.
func Main() {
	if len(os.Args) > 1 && os.Args[1] == "plan" {
		full := len(os.Args) > 2 && os.Args[2] == "thorough"
		var out []planEntry
		for _, s := range Specs {
			e := planEntry{Name: s.Name, Args: s.Quick, Reach: s.Reach, MaxPaths: s.MaxPaths, MaxSteps: s.MaxSteps, Alloc: s.Alloc, MaxConc: s.MaxConc, Ends: s.Ends, Note: s.Note, Reps: s.Reps, Cover: s.Cover, Sampler: s.Sampler}
			if full && s.Full != nil {
				e.Args = s.Full
			}
			if s.Name1 != nil {
				e.Names = map[int]string{}
				for _, a := range e.Args {
					e.Names[a] = s.Name1(a)
				}
			}
			out = append(out, e)
		}
		_ = json.NewEncoder(os.Stdout).Encode(out)
		return
	}
	byName := map[string]func(int){}
	for _, s := range Specs {
		byName[s.Name] = s.F
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	enc := json.NewEncoder(os.Stdout)
	for sc.Scan() {
		var rq Request
		if err := json.Unmarshal(sc.Bytes(), &rq); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		f := byName[rq.H]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness "+rq.H)
			os.Exit(3)
		}
		_ = enc.Encode(runOne(f, rq))
	}
}

func runOne(f func(int), rq Request) (rp Reply) {
	S = &State{In: rq.In}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(StopRun); ok {
				rp.Stop = s.Why
			} else {
				rp.Panic = fmt.Sprint(r)
				if rp.Panic == "" {
					rp.Panic = "panic"
				}
			}
		}
		runtime.ReadMemStats(&m1)
		rp.Alloc = m1.TotalAlloc - m0.TotalAlloc
		rp.Millis = time.Since(t0).Milliseconds()
		if S.limited {
			FileLimit(-1)
		}
		rp.Fails, rp.Reached, rp.Obs, rp.Diverged = S.Fails, S.Reached, S.Obs, S.Diverged
		for _, d := range S.Tmp {
			if strings.HasPrefix(d, os.TempDir()+string(os.PathSeparator)+"vf") {
				_ = os.RemoveAll(d)
			}
		}
	}()
	f(rq.Arg)
	return
}
