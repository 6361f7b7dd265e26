package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"time"

	"vfengine/sym"
)

func runCmd(name string, args ...string) ([]byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stderr = os.Stderr
	return cmd.Output()
}

// replayMain re-runs a recorded counterexample against the current source.
func replayMain(args []string) int {
	if len(args) < 1 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[r.Property]
	if p == nil {
		return 2
	}
	c := &Check{ID: r.Property, Tier: r.Tier, Seed: r.Seed, P: p, Start: time.Now(), knownSeen: map[int]bool{}, extra: map[string]any{}, pkgs: p.Pkgs}
	w, err := newWorkspace("replay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.W = w
	defer w.Close()
	if p.Prepare != nil {
		if err := p.Prepare(c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if r.Kind == "generate" {
		for _, v := range c.viol {
			if v.Label == r.Label && v.Harness == r.Harness {
				fmt.Printf("reproduced: %s: %s\n%s\n", v.Harness, v.Label, v.Detail)
				return 1
			}
		}
		fmt.Println("not reproduced")
		return 0
	}
	if err := w.writeMain(c.pkgs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if out, err := w.buildRunner(); err != nil {
		fmt.Fprintln(os.Stderr, out)
		return 2
	}
	h := r.Harness
	if r.Kind == "cover" {
		planOut, err := runCmd(w.Runner, "plan", c.Tier)
		if err != nil {
			return 2
		}
		var plan []planEntry
		_ = json.Unmarshal(planOut, &plan)
		for _, e := range plan {
			if e.Name == r.Harness {
				h = e.Sampler
			}
		}
		if h == "" {
			h, r.Kind = r.Harness, "never"
		}
	}
	rp := runOnce(w.Runner, request{h, r.Arg, r.Inputs}, 60*time.Second)
	o, _ := json.MarshalIndent(rp, "", " ")
	fmt.Println(string(o))
	if r.Kind == "never" {
		for _, l := range rp.Reached {
			if l == r.Label {
				fmt.Println("not reproduced")
				return 0
			}
		}
		fmt.Println("not reached here; that nothing else does is decided by the check")
		return 1
	}
	if len(rp.Fails) > 0 || rp.Panic != "" || rp.Crash != "" || rp.Timeout || r.Kind == "alloc" && rp.Alloc > 16<<20 {
		fmt.Println("reproduced")
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

// selftest compares the simplifier with evaluation and with the solver.
func selftest() int {
	n, err := sym.SelfTest(rand.New(rand.NewSource(7)), 20000, []string{"z3-new", "-in"})
	fmt.Printf("%d random terms checked\n", n)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	return 0
}
