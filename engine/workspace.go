package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"
)

const modPath = "github.com/mmcloughlin/trunnel/vfw"

// Workspace is the scratch module in which harnesses are compiled against the
// current source of the repository.
type Workspace struct {
	Dir     string
	Repo    string
	Verif   string
	Overlay string
	Runner  string
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

var goFlags = "-mod=mod"

func goEnv() []string {
	env := os.Environ()
	set := map[string]string{
		"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": goFlags, "GO111MODULE": "on",
		"GOWORK": "off", "GONOSUMDB": "*", "GONOSUMCHECK": "1", "GOSUMDB": "off", "CGO_ENABLED": "0",
	}
	for k, v := range set {
		env = append(env, k+"="+v)
	}
	return env
}

func newWorkspace(tag string) (*Workspace, error) {
	w := &Workspace{Repo: envOr("VERIF_REPO", "/repo"), Verif: envOr("VERIF_DIR", "/verif")}
	base := filepath.Join(w.Verif, ".build")
	if err := os.MkdirAll(base, 0o755); err != nil {
		return nil, err
	}
	d, err := os.MkdirTemp(base, "ws-"+tag+"-")
	if err != nil {
		return nil, err
	}
	w.Dir = d
	if err := copyTree(filepath.Join(w.Verif, "harness"), d); err != nil {
		return nil, err
	}
	gomod := fmt.Sprintf(`module %s

go 1.26.0

require (
	github.com/mmcloughlin/random v0.0.0
	github.com/mmcloughlin/trunnel v0.0.0
	github.com/pkg/errors v0.9.1
	github.com/serenize/snaker v0.0.0-20201027110005-a7ad2135616e
	github.com/spf13/afero v1.15.0
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/text v0.28.0 // indirect
)

replace github.com/mmcloughlin/trunnel => %s

replace github.com/mmcloughlin/random => %s
`, modPath, w.Repo, filepath.Join(w.Verif, "stubs", "random"))
	if err := os.WriteFile(filepath.Join(d, "go.mod"), []byte(gomod), 0o644); err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(w.Verif, "stubs", "ws-go.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(d, "go.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	// The repository has no committed go.mod: supply one without touching it.
	ov := map[string]map[string]string{"Replace": {
		filepath.Join(w.Repo, "go.mod"): filepath.Join(w.Verif, "stubs", "repo-go.mod"),
	}}
	b, _ := json.Marshal(ov)
	w.Overlay = filepath.Join(d, "overlay.json")
	return w, os.WriteFile(w.Overlay, b, 0o644)
}

// Close removes the workspace.
func (w *Workspace) Close() {
	if strings.HasPrefix(w.Dir, filepath.Join(w.Verif, ".build", "ws-")) && os.Getenv("VERIF_KEEP") == "" {
		_ = os.RemoveAll(w.Dir)
	}
}

func copyTree(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if d.IsDir() {
			return os.MkdirAll(q, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(q, b, 0o644)
	})
}

// goRun runs the go command in the workspace.
func (w *Workspace) goRun(args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = w.Dir
	cmd.Env = goEnv()
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	return out.String(), err
}

// writeMain writes the runner's main package importing the harness packages.
func (w *Workspace) writeMain(pkgs []string) error {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + modPath + "/vf\"\n")
	for _, p := range pkgs {
		sb.WriteString("\t_ \"" + modPath + "/" + p + "\"\n")
	}
	sb.WriteString(")\n\nfunc main() { vf.Main() }\n")
	if err := os.MkdirAll(filepath.Join(w.Dir, "runner"), 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(w.Dir, "runner", "main.go"), []byte(sb.String()), 0o644)
}

func (w *Workspace) buildRunner() (string, error) {
	w.Runner = filepath.Join(w.Dir, "runner.bin")
	return w.goRun("build", "-overlay="+w.Overlay, "-o", w.Runner, "./runner")
}

type request struct {
	H   string  `json:"h"`
	Arg int     `json:"arg"`
	In  []input `json:"in"`
}

type input struct {
	L string `json:"l"`
	W uint8  `json:"w"`
	V uint64 `json:"v"`
}

type reply struct {
	Fails    []string `json:"fails"`
	Reached  []string `json:"reached"`
	Obs      []string `json:"obs"`
	Panic    string   `json:"panic"`
	Stop     string   `json:"stop"`
	Diverged bool     `json:"diverged"`
	Alloc    uint64   `json:"alloc"`
	Millis   int64    `json:"ms"`
	// set by the caller
	Timeout bool   `json:"timeout,omitempty"`
	Crash   string `json:"crash,omitempty"`
}

// cpuLimit lets a runner end by itself, on all processors, when nobody is left
// to stop it.
func cpuLimit(timeout time.Duration) int {
	return int(timeout.Seconds())*runtime.NumCPU() + 10
}

// runOnce runs one request in a fresh, memory-limited process.
func runOnce(runner string, rq request, timeout time.Duration) reply {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	b, _ := json.Marshal(rq)
	// 6 GB of address space: an allocation bomb must not take the machine down
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", fmt.Sprintf(`ulimit -v 6000000; ulimit -t %d; exec "$0"`, cpuLimit(timeout)), runner)
	tmp, err := os.MkdirTemp(filepath.Dir(runner), "native-")
	if err == nil {
		defer os.RemoveAll(tmp)
		cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "GOMEMLIMIT=4GiB")
		cmd.Dir = tmp
	}
	cmd.Stdin = bytes.NewReader(append(b, '\n'))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	var rp reply
	if ctx.Err() != nil {
		rp.Timeout = true
		return rp
	}
	if err != nil {
		s := se.String()
		if len(s) > 300 {
			s = s[:300]
		}
		rp.Crash = fmt.Sprintf("%v: %s", err, s)
		return rp
	}
	if err := json.Unmarshal(so.Bytes(), &rp); err != nil {
		rp.Crash = "bad reply: " + err.Error()
	}
	return rp
}

// runBatch runs many requests in one process; on a crash or timeout the rest
// is reported as crashed.
func runBatch(runner string, rqs []request, timeout time.Duration) []reply {
	out := make([]reply, len(rqs))
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	var in bytes.Buffer
	for _, r := range rqs {
		b, _ := json.Marshal(r)
		in.Write(b)
		in.WriteByte('\n')
	}
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", fmt.Sprintf(`ulimit -v 12000000; ulimit -t %d; exec "$0"`, cpuLimit(timeout)), runner)
	tmp, err := os.MkdirTemp(filepath.Dir(runner), "native-")
	if err == nil {
		defer os.RemoveAll(tmp)
		cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
		cmd.Dir = tmp
	}
	cmd.Stdin = &in
	var so bytes.Buffer
	cmd.Stdout = &so
	_ = cmd.Run()
	dec := json.NewDecoder(&so)
	for i := range out {
		if err := dec.Decode(&out[i]); err != nil {
			for ; i < len(out); i++ {
				out[i] = reply{Crash: "runner stopped"}
			}
			break
		}
	}
	return out
}
