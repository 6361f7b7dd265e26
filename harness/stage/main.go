// Command stage runs the repository's description parser and code generator
// over a list of descriptions and writes the generated packages.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/vfw/ref"
)

type schema struct {
	Name  string
	Files []string
	// results
	RefBad  bool
	ParseE  string
	GenE    string
	Panic   string
	Structs []strct
	Min     map[string]int
	// Package is whether the test and fuzz files were generated; PackE why not.
	Package bool
	PackE   string
}

type strct struct {
	Name string
	Ctxs []ctx
	Min  int
}

type ctx struct {
	Name   string
	Fields []string
}

func main() {
	dir := os.Args[1]
	if len(os.Args) > 3 {
		one(dir, os.Args[3])
		return
	}
	var ss []*schema
	if err := json.NewDecoder(os.Stdin).Decode(&ss); err != nil {
		panic(err)
	}
	progress, err := os.Create(filepath.Join(filepath.Dir(dir), "stage.at"))
	if err != nil {
		panic(err)
	}
	for _, s := range ss {
		// whoever reads this knows where generation got stuck
		fmt.Fprintln(progress, s.Name)
		var fs []*ref.File
		for _, f := range s.Files {
			rf, ok := ref.Parse([]byte(f))
			if !ok {
				s.RefBad = true
				break
			}
			fs = append(fs, rf)
		}
		if s.RefBad {
			continue
		}
		set := ref.NewSet(fs...)
		for _, f := range fs {
			for _, st := range f.Structs {
				if st.Extern {
					continue
				}
				x := strct{Name: st.Name, Min: set.MinSize(st.Name)}
				for _, c := range st.Ctxs {
					cx := ctx{Name: c}
					if d := set.Context(c); d != nil {
						for _, m := range d.Fields {
							cx.Fields = append(cx.Fields, m.Name)
						}
					}
					x.Ctxs = append(x.Ctxs, cx)
				}
				s.Structs = append(s.Structs, x)
			}
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					s.Panic = fmt.Sprint(r)
				}
			}()
			run(dir, s)
		}()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			os.Exit(3)
		}
		if len(os.Args) > 2 && s.ParseE+s.GenE+s.Panic == "" {
			pack(dir, s)
		}
	}
	if err := json.NewEncoder(os.Stdout).Encode(ss); err != nil {
		panic(err)
	}
}

func run(dir string, s *schema) {
	var fs []*ast.File
	for i, f := range s.Files {
		af, err := parse.Reader(fmt.Sprintf("%s-%d", s.Name, i), strings.NewReader(f))
		if err != nil {
			s.ParseE = err.Error()
			return
		}
		fs = append(fs, af)
	}
	b, err := gen.Marshallers(s.Name, fs)
	if err != nil {
		s.GenE = err.Error()
		return
	}
	p := filepath.Join(dir, s.Name)
	if err := os.MkdirAll(p, 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(p, "gen.go"), b, 0o644); err != nil {
		panic(err)
	}
}

// pack runs package generation in a process of its own, as there may be no end
// to the vectors, and adds the test and fuzz files to the package.
func pack(dir string, s *schema) {
	tmp, err := os.MkdirTemp(filepath.Dir(dir), "pack-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	in, _ := json.Marshal(s.Files)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], tmp, "pack", s.Name)
	cmd.Stdin = bytes.NewReader(in)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
	var se bytes.Buffer
	cmd.Stderr = &se
	if err := cmd.Run(); err != nil {
		s.PackE = err.Error() + ": " + se.String()
		if len(s.PackE) > 600 {
			s.PackE = s.PackE[:600]
		}
		return
	}
	for _, f := range [][2]string{{"gen-marshallers_test.go", "vectors.go"}, {"gen-fuzz.go", "fuzz.go"}} {
		b, err := os.ReadFile(filepath.Join(tmp, f[0]))
		if err != nil {
			return
		}
		if err := os.WriteFile(filepath.Join(dir, s.Name, f[1]), b, 0o644); err != nil {
			panic(err)
		}
	}
	s.Package = true
}

func one(dir, name string) {
	var files []string
	if err := json.NewDecoder(os.Stdin).Decode(&files); err != nil {
		panic(err)
	}
	var fs []*ast.File
	for i, f := range files {
		af, err := parse.Reader(fmt.Sprintf("%s-%d", name, i), strings.NewReader(f))
		if err != nil {
			panic(err)
		}
		fs = append(fs, af)
	}
	if err := gen.Package(gen.Config{Package: name, Dir: dir}, fs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
