package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Schema is a description set and the outcome of generating code for it.
type Schema struct {
	Name    string
	Files   []string
	RefBad  bool
	ParseE  string
	GenE    string
	Panic   string
	Hang    bool
	Structs []SchemaStruct
	Package bool
	PackE   string

	compileE string
	random   bool
}

// SchemaStruct is a structure of a schema.
type SchemaStruct struct {
	Name string
	Ctxs []SchemaCtx
	Min  int
}

// SchemaCtx is a context of a structure.
type SchemaCtx struct {
	Name   string
	Fields []string
}

func readCorpus(path string) ([]*Schema, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var out []*Schema
	for _, line := range strings.SplitAfter(string(b), "\n") {
		switch {
		case strings.HasPrefix(line, "=== "):
			out = append(out, &Schema{Name: strings.TrimSpace(line[4:]), Files: []string{""}})
		case len(out) == 0:
		case strings.HasPrefix(line, "--- file"):
			s := out[len(out)-1]
			s.Files = append(s.Files, "")
		default:
			s := out[len(out)-1]
			s.Files[len(s.Files)-1] += line
		}
	}
	return out, nil
}

// repoSchemas collects the descriptions shipped with the repository that
// belong to generated packages.
func repoSchemas(repo string) []*Schema {
	var out []*Schema
	for _, pat := range []string{"gen/tests/*", "examples/*"} {
		dirs, _ := filepath.Glob(filepath.Join(repo, pat))
		for _, d := range dirs {
			fs, _ := filepath.Glob(filepath.Join(d, "*.trunnel"))
			if len(fs) == 0 {
				continue
			}
			sort.Strings(fs)
			s := &Schema{Name: "repo" + ident(filepath.Dir(pat)) + ident(filepath.Base(d))}
			for _, f := range fs {
				b, err := os.ReadFile(f)
				if err != nil {
					continue
				}
				s.Files = append(s.Files, string(b))
			}
			out = append(out, s)
		}
	}
	return out
}

func ident(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
			return r
		}
		return -1
	}, strings.ToLower(s))
}

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// stage runs the staged generator once.
func (c *Check) stage(bin, gp string, ss []*Schema) ([]*Schema, string, error) {
	in, _ := json.Marshal(ss)
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	args := []string{"-c", `ulimit -v 8000000; exec "$0" "$@"`, bin, gp}
	if c.P.Package {
		args = append(args, "pack")
	}
	cmd := exec.CommandContext(ctx, "/bin/sh", args...)
	cmd.Stdin = bytes.NewReader(in)
	cmd.Env = goEnv()
	cmd.Dir = c.W.Dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		return nil, se.String(), err
	}
	var res []*Schema
	if err := json.Unmarshal(so.Bytes(), &res); err != nil {
		return nil, "", fmt.Errorf("output: %v", err)
	}
	return res, "", nil
}

// buildGenerated runs the staged generator over the schemas and compiles the
// results. It returns the schemas for which that worked.
func (c *Check) buildGenerated(ss []*Schema) ([]*Schema, error) {
	names := map[string]bool{}
	for _, s := range ss {
		if names[s.Name] {
			return nil, fmt.Errorf("two schemas called %s", s.Name)
		}
		names[s.Name] = true
	}
	bin := filepath.Join(c.W.Dir, "stage.bin")
	if out, err := c.W.goRun("build", "-overlay="+c.W.Overlay, "-o", bin, "./stage"); err != nil {
		return nil, fmt.Errorf("building the generator stage: %v\n%s", err, tail(out, 3000))
	}
	gp := filepath.Join(c.W.Dir, "gp")
	if err := os.MkdirAll(gp, 0o755); err != nil {
		return nil, err
	}
	random := map[string]bool{}
	for _, s := range ss {
		random[s.Name] = s.random
	}
	// A description on which generation does not end, or takes the process
	// down, is left out and the rest is done again.
	var res, stuck []*Schema
	for todo := ss; ; {
		var se string
		var err error
		res, se, err = c.stage(bin, gp, todo)
		if err == nil {
			break
		}
		b, _ := os.ReadFile(filepath.Join(c.W.Dir, "stage.at"))
		names := strings.Fields(string(b))
		if len(names) == 0 {
			return nil, fmt.Errorf("generator stage: %v\n%s", err, tail(se, 2000))
		}
		k := len(names) - 1
		s := *todo[k]
		s.Hang = true
		stuck = append(stuck, &s)
		rest := todo[k+1:]
		if len(stuck) >= 4 {
			c.note("%d schemas after %s skipped: generation did not finish for %d others", len(rest), s.Name, len(stuck))
			rest = nil
		}
		todo = append(append([]*Schema{}, todo[:k]...), rest...)
		if len(todo) == 0 {
			break
		}
	}
	res = append(res, stuck...)
	var ok []*Schema
	for _, s := range res {
		s.random = random[s.Name]
		if s.RefBad {
			if strings.HasPrefix(s.Name, "repo") {
				c.note("schema %s is not accepted by the reference grammar; skipped", s.Name)
				continue
			}
			return nil, fmt.Errorf("reference grammar rejects corpus schema %s\n%s", s.Name, strings.Join(s.Files, "--- file\n"))
		}
		if s.ParseE != "" || s.GenE != "" || s.Panic != "" || s.Hang {
			continue
		}
		ok = append(ok, s)
	}
	// Compile; drop packages that do not.
	out, err := c.W.goRun("build", "./gp/...")
	if err != nil {
		re := regexp.MustCompile(`(?m)^# ` + regexp.QuoteMeta(modPath) + `/gp/(\S+)`)
		bad := map[string]string{}
		idx := re.FindAllStringSubmatchIndex(out, -1)
		for k, m := range idx {
			end := len(out)
			if k+1 < len(idx) {
				end = idx[k+1][0]
			}
			bad[out[m[2]:m[3]]] = out[m[1]:end]
		}
		re2 := regexp.MustCompile(`(?m)^gp/([^/]+)/\w+\.go:.*$`)
		for _, m := range re2.FindAllStringSubmatch(out, -1) {
			if _, seen := bad[m[1]]; !seen {
				bad[m[1]] = m[0]
			}
		}
		if len(bad) == 0 {
			return nil, fmt.Errorf("compiling generated packages: %v\n%s", err, tail(out, 2000))
		}
		var ok2 []*Schema
		for _, s := range ok {
			if e, isBad := bad[s.Name]; isBad {
				s.compileE = strings.TrimSpace(e)
				continue
			}
			ok2 = append(ok2, s)
		}
		ok = ok2
	}
	for _, s := range res {
		what := ""
		switch {
		case s.ParseE != "":
			what = "description rejected: " + s.ParseE
		case s.GenE != "":
			what = "generation failed: " + s.GenE
		case s.Panic != "":
			what = "generation panicked: " + s.Panic
		case s.Hang:
			what = "generation does not finish"
		case s.compileE != "":
			what = "generated package does not compile: " + tail(s.compileE, 600)
		}
		if what == "" || s.RefBad {
			continue
		}
		if c.ID == "C01" || c.P.Package && s.compileE != "" && !strings.Contains(s.compileE, "/gen.go:") {
			c.report(Replay{Property: c.ID, Harness: "generate:" + s.Name, Label: "code generation succeeds and compiles", Kind: "generate", Detail: what, Files: s.Files})
		} else {
			c.note("schema %s skipped: %s", s.Name, tail(what, 200))
		}
	}
	if len(ok) == 0 && len(c.viol) == 0 {
		return nil, fmt.Errorf("no schema could be generated")
	}
	return ok, nil
}

type goType struct {
	parse  *ast.FuncDecl
	one    *ast.FuncDecl
	fields [][2]string // name, type
}

func inspectGenerated(path string) (map[string]*goType, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, 0)
	if err != nil {
		return nil, err
	}
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	text := func(n ast.Node) string {
		return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	ts := map[string]*goType{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, sp := range g.Specs {
			t, ok := sp.(*ast.TypeSpec)
			if !ok {
				continue
			}
			st, ok := t.Type.(*ast.StructType)
			if !ok {
				continue
			}
			gt := &goType{}
			for _, fl := range st.Fields.List {
				for _, n := range fl.Names {
					gt.fields = append(gt.fields, [2]string{n.Name, text(fl.Type)})
				}
			}
			ts[t.Name.Name] = gt
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		if fd.Recv == nil {
			if strings.HasPrefix(fd.Name.Name, "Parse") {
				if gt := ts[fd.Name.Name[5:]]; gt != nil {
					gt.one = fd
				}
			}
			continue
		}
		rt := fd.Recv.List[0].Type
		if s, ok := rt.(*ast.StarExpr); ok {
			rt = s.X
		}
		if id, ok := rt.(*ast.Ident); ok && fd.Name.Name == "Parse" && ts[id.Name] != nil {
			ts[id.Name].parse = fd
		}
	}
	return ts, nil
}

// ctxArgs writes the context arguments of a call in the order of the Go
// signature.
func ctxArgs(fd *ast.FuncDecl, pkg string, ts map[string]*goType, st SchemaStruct) (string, error) {
	out := ""
	first := true
	for _, fl := range fd.Type.Params.List {
		k := len(fl.Names)
		if k == 0 {
			k = 1
		}
		for ; k > 0; k-- {
			if first {
				first = false
				continue
			}
			t := fl.Type
			amp := ""
			if s, ok := t.(*ast.StarExpr); ok {
				t, amp = s.X, "&"
			}
			id, ok := t.(*ast.Ident)
			if !ok {
				return "", fmt.Errorf("unexpected parameter type")
			}
			var cx *SchemaCtx
			for i := range st.Ctxs {
				if norm(st.Ctxs[i].Name) == norm(id.Name) {
					cx = &st.Ctxs[i]
				}
			}
			gt := ts[id.Name]
			if cx == nil || gt == nil {
				return "", fmt.Errorf("parameter type %s is no context of the structure", id.Name)
			}
			out += ", " + amp + pkg + "." + id.Name + "{"
			for _, f := range gt.fields {
				for _, n := range cx.Fields {
					if norm(n) == norm(f[0]) {
						out += fmt.Sprintf("%s: %s(c[%q][%q]), ", f[0], f[1], cx.Name, n)
					}
				}
			}
			out += "}"
		}
	}
	return out, nil
}

// writeGlue connects the generated packages with the harnesses.
func (c *Check) writeGlue(ss []*Schema) error {
	var imp, body, src strings.Builder
	src.WriteString("package schemas\n\nvar sources = [][]string{\n")
	n := 0
	for i, s := range ss {
		src.WriteString("\t{")
		for _, f := range s.Files {
			fmt.Fprintf(&src, "%q, ", f)
		}
		src.WriteString("},\n")
		ts, err := inspectGenerated(filepath.Join(c.W.Dir, "gp", s.Name, "gen.go"))
		if err != nil {
			return err
		}
		fuzz := ""
		if s.Package {
			b, err := os.ReadFile(filepath.Join(c.W.Dir, "gp", s.Name, "fuzz.go"))
			if err != nil {
				return err
			}
			fuzz = string(b)
		}
		pkg := fmt.Sprintf("p%d", i)
		used := false
		for _, st := range s.Structs {
			var gt *goType
			var tn string
			for k, t := range ts {
				if norm(k) == norm(st.Name) && t.parse != nil {
					gt, tn = t, k
				}
			}
			bad := ""
			switch {
			case gt == nil:
				bad = "no parser generated for structure " + st.Name
			case gt.one == nil:
				bad = "no one-shot parse function for structure " + st.Name
			}
			if bad == "" {
				a1, err1 := ctxArgs(gt.parse, pkg, ts, st)
				a2, err2 := ctxArgs(gt.one, pkg, ts, st)
				if err1 != nil || err2 != nil {
					return fmt.Errorf("schema %s struct %s: %v %v", s.Name, st.Name, err1, err2)
				}
				used = true
				fmt.Fprintf(&body, "\t{Schema: %d, Name: %q, Struct: %q, Min: %d, Random: %v,\n", i, s.Name, st.Name, st.Min, s.random)
				fmt.Fprintf(&body, "\t\tNew: func() any { return new(%s.%s) },\n", pkg, tn)
				fmt.Fprintf(&body, "\t\tSave: func(v any) any { s := *v.(*%s.%s); return &s },\n", pkg, tn)
				fmt.Fprintf(&body, "\t\tParse: func(v any, d []byte, c ref.Ctx) ([]byte, error) { return v.(*%s.%s).Parse(d%s) },\n", pkg, tn, a1)
				fmt.Fprintf(&body, "\t\tOne: func(d []byte, c ref.Ctx) (any, error) { r, err := %s.Parse%s(d%s); if r == nil { return nil, err }; return r, err },\n", pkg, tn, a2)
				if strings.Contains(fuzz, "func Fuzz"+tn+"(") {
					fmt.Fprintf(&body, "\t\tFuzz: %s.Fuzz%s,\n", pkg, tn)
				}
				body.WriteString("\t},\n")
				n++
				continue
			}
			if c.ID == "C01" || c.ID == "C04" && gt != nil {
				c.report(Replay{Property: c.ID, Harness: "generate:" + s.Name, Label: bad, Kind: "generate", Detail: bad, Files: s.Files})
			}
		}
		if used {
			fmt.Fprintf(&imp, "\t%s %q\n", pkg, modPath+"/gp/"+s.Name)
		}
	}
	src.WriteString("}\n")
	c.extra["schemas"] = len(ss)
	c.extra["generated_parsers"] = n
	glue := fmt.Sprintf(`package glue

import (
	%q
%s)

// Case is a generated parser.
type Case struct {
	Schema int
	Name   string
	Struct string
	Min    int
	Random bool
	New    func() any
	Save   func(v any) any // a copy of the struct alone
	Parse  func(v any, d []byte, c ref.Ctx) ([]byte, error)
	One    func(d []byte, c ref.Ctx) (any, error)
	Fuzz   func(d []byte) int // nil without a fuzz entry
}

// Cases lists the generated parsers.
var Cases = []Case{
%s}
`, modPath+"/ref", imp.String(), body.String())
	for _, f := range [][3]string{{"glue", "glue.go", glue}, {"schemas", "src.go", src.String()}} {
		d := filepath.Join(c.W.Dir, f[0])
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(d, f[1]), []byte(f[2]), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func (c *Check) schemas() ([]*Schema, error) {
	ss, err := readCorpus(filepath.Join(c.W.Verif, "schemas", "corpus.txt"))
	if err != nil {
		return nil, err
	}
	if c.P.Pairs {
		ss = append(ss, pairSchemas()...)
	}
	ss = append(ss, repoSchemas(c.W.Repo)...)
	nr := 24
	if c.Tier == "thorough" {
		nr = 120
	}
	ss = append(ss, randomSchemas(c.Seed, nr)...)
	if only := os.Getenv("VERIF_SCHEMA"); only != "" {
		var o []*Schema
		for _, s := range ss {
			if s.Name == only {
				o = append(o, s)
			}
		}
		ss = o
	}
	return ss, nil
}

// prepareGenerated stages the parsers of all schemas.
func prepareGenerated(c *Check) error {
	ss, err := c.schemas()
	if err != nil {
		return err
	}
	if c.P.Package {
		goFlags = "-mod=mod -tags=gofuzz"
	}
	t := time.Now()
	ok, err := c.buildGenerated(ss)
	if err != nil {
		return err
	}
	if err := c.writeGlue(ok); err != nil {
		return err
	}
	c.extra["generate_s"] = time.Since(t).Seconds()
	return nil
}
