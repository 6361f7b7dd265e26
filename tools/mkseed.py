"""Writes planted bugs with their demonstrations to /verif/seeded.

seed(id, property, needs, breaks, edits, main, schema=None, fuzz=False) applies the edits
(file, old, new) to a scratch copy of /repo, records the difference and lays out
the demonstration: a Go program compiled against the repository, optionally next
to a package p generated from a schema, with fuzz entries if asked for.
"""
import json, os, shutil, subprocess, tempfile

V = "/verif"
GOMOD = """module github.com/mmcloughlin/trunnel/demo

go 1.21

require (
	github.com/mmcloughlin/random v0.0.0
	github.com/mmcloughlin/trunnel v0.0.0
	github.com/pkg/errors v0.9.1
	github.com/serenize/snaker v0.0.0-20201027110005-a7ad2135616e
	github.com/spf13/afero v1.15.0
	golang.org/x/tools v0.52.0
)

replace github.com/mmcloughlin/trunnel => @REPO@

replace github.com/mmcloughlin/random => ./random
"""
DEMO = """#!/bin/bash
# Exits 0 if the behaviour below is right, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
mkdir -p "$work/random" "$work/run" "$work/out"
cp "$here/random.txt" "$work/random/random.go"
printf 'module github.com/mmcloughlin/random\\n\\ngo 1.21\\n' >"$work/random/go.mod"
cp "$here/repo-go.mod" "$work/repo-go.mod"
sed "s|@REPO@|$repo|" "$here/demo-go.mod" >"$work/go.mod"
cp "$here/go.sum" "$work/go.sum"
printf '{"Replace":{"%s/go.mod":"%s/repo-go.mod"}}' "$repo" "$work" >"$work/overlay.json"
cp "$here/main.txt" "$work/run/main.go"
cd "$work" || exit 3
if [ -f "$here/schema.trunnel" ]; then
  mkdir -p "$work/gen" "$work/p"
  cp "$here/gen.txt" "$work/gen/main.go"
  go run -overlay "$work/overlay.json" ./gen "$here/schema.trunnel" "$work/p" || exit 4
fi
go build -overlay "$work/overlay.json" -o "$work/demo" ./run || exit 5
cd "$work/out" && timeout 120 "$work/demo"
"""
GEN = """package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/parse"
)

func main() {
	f, err := parse.File(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	b, err := gen.Marshallers("p", []*ast.File{f})
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if err := os.WriteFile(filepath.Join(os.Args[2], "p.go"), b, 0o644); err != nil {
		panic(err)
	}
}
""".replace('"github.com/mmcloughlin/trunnel/gen"', '"github.com/mmcloughlin/trunnel/ast"\n\t"github.com/mmcloughlin/trunnel/gen"')

FUZZ = """	c, err := tv.GenerateFiles([]*ast.File{f})
	if err != nil {
		panic(err)
	}
	if b, err = gen.Fuzzers("p", c); err != nil {
		panic(err)
	}
	s := strings.NewReplacer("// +build gofuzz", "", "//go:build gofuzz", "").Replace(string(b))
	if err := os.WriteFile(filepath.Join(os.Args[2], "fuzz.go"), []byte(s), 0o644); err != nil {
		panic(err)
	}
}
"""


def put(d, name, text):
    with open(os.path.join(d, name), "w") as f:
        f.write(text)


def seed(id, property, needs, breaks, edits, main, schema=None, fuzz=False):
    work = tempfile.mkdtemp(prefix="seed-", dir="/root/scratch")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", work + "/r"], check=True)
        for f, old, new in edits:
            p = f"{work}/r/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f"{id}: {f}: {s.count(old)} matches of {old!r}")
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", work + "/r", "diff"], check=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(work)
    d = f"{V}/seeded/{id}"
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    put(d, "patch.diff", diff)
    put(d, "meta.json", json.dumps({"property": property, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    put(d, "demo.sh", DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    put(d, "main.txt", main)
    put(d, "demo-go.mod", GOMOD)
    shutil.copy(V + "/stubs/repo-go.mod", d + "/repo-go.mod")
    shutil.copy(V + "/stubs/ws-go.sum", d + "/go.sum")
    shutil.copy(V + "/stubs/random/random.go", d + "/random.txt")
    if schema is not None:
        put(d, "schema.trunnel", schema)
        text = GEN
        if fuzz:
            text = text.rstrip()[:-1] + FUZZ
            text = text.replace('"path/filepath"\n', '"path/filepath"\n\t"strings"\n')
            text = text.replace('trunnel/parse"\n', 'trunnel/parse"\n\t"github.com/mmcloughlin/trunnel/tv"\n')
        put(d, "gen.txt", text)
    print("wrote", id)
