package sym

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Load type-checks the packages matching patterns in dir and creates their SSA
// form (built lazily).
func Load(dir, overlay string, patterns ...string) (*ssa.Program, map[string]*ssa.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "CGO_ENABLED=0"),
	}
	if overlay != "" {
		cfg.BuildFlags = []string{"-overlay=" + overlay}
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	var msgs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, fmt.Sprintf("%s: %v", p.PkgPath, e))
		}
	})
	if len(msgs) > 0 {
		if len(msgs) > 12 {
			msgs = msgs[:12]
		}
		return nil, nil, fmt.Errorf("load errors:\n%s", strings.Join(msgs, "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	out := map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		out[p.Pkg.Path()] = p
	}
	return prog, out, nil
}
