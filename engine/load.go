package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoGo   = "/repo/go"
	verifDir = "/verif"
)

const modPath = "github.com/nanobus/iota/go"

// overlayFiles maps virtual paths under /repo/go to files of /verif/harness/overlay.
func overlayFiles() map[string]string {
	root := filepath.Join(verifDir, "harness", "overlay")
	r := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		r[filepath.Join(repoGo, rel)] = p
		return nil
	})
	return r
}

var harnessRE = regexp.MustCompile(`(?m)^//verif:harness\s+(C\d+)\s*(.*)\nfunc (H\w+)\(`)

type harnessDecl struct {
	prop, name, dir string
	opts            string
}

func findHarnesses(files map[string]string) []harnessDecl {
	var r []harnessDecl
	for v, p := range files {
		b, err := os.ReadFile(p)
		if err != nil {
			fatal("%v", err)
		}
		for _, m := range harnessRE.FindAllStringSubmatch(string(b), -1) {
			r = append(r, harnessDecl{prop: m[1], opts: m[2], name: m[3], dir: filepath.Dir(v)})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

func parseOpts(s, tier string) Options {
	o := Options{unroll: 24, maxIter: 3000, maxSteps: 4000000, maxGor: 24, switches: 2, native: true}
	if tier == "thorough" {
		o.unroll = 64
		o.maxSteps = 20000000
		o.maxIter = 20000
	}
	set := func(k, v string) {
		n, _ := strconv.Atoi(v)
		switch k {
		case "unroll":
			o.unroll = n
		case "iter":
			o.maxIter = n
		case "steps":
			o.maxSteps = n
		case "gor":
			o.maxGor = n
		case "switches":
			o.switches = n
			o.sched = true
		case "sched":
			o.sched = true
		case "race":
			o.race = true
		case "raceviol":
			o.race = true
			o.raceViol = true
		case "budget":
			f, _ := strconv.ParseFloat(v, 64)
			o.budget = f
		case "paths":
			o.maxPaths = n
		case "native":
			o.native = v != "0"
		case "points":
			o.points = strings.Split(v, ",")
		case "net":
			o.net = strings.Split(v, ",")
		case "hook":
			o.hook = strings.Split(v, ",")
		case "mods":
			o.mods = strings.Split(v, ",")
		case "instr":
			o.instr = strings.Split(v, ",")
		case "tier":
			o.tier = v
		default:
			fatal("unknown harness option %s", k)
		}
	}
	for _, f := range strings.Fields(s) {
		k, v, _ := strings.Cut(f, "=")
		if strings.HasPrefix(k, "t.") {
			if tier == "thorough" {
				set(k[2:], v)
			}
			continue
		}
		set(k, v)
	}
	return o
}

func repoEnv() []string { return repoEnvCgo("0") }

func repoEnvCgo(cgo string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "CGO_ENABLED", "GOWORK", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-buildvcs=false", "CGO_ENABLED="+cgo)
}

func (e *Engine) load(decls []harnessDecl, overlay map[string][]byte, sel func(string) bool) {
	pats := map[string]bool{modPath + "/internal/vnd": true, modPath + "/internal/vndm": true}
	for _, d := range decls {
		pats[dirToPkg(d.dir)] = true
	}
	var pl []string
	for p := range pats {
		pl = append(pl, p)
	}
	sort.Strings(pl)
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repoGo,
		Env:     modEnv(repoEnv(), e.modfile),
		Overlay: overlay,

		BuildFlags: modFlags(e.modfile),
	}
	pkgs, err := packages.Load(cfg, pl...)
	if err != nil {
		fatal("load: %v", err)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			if strings.HasPrefix(p.PkgPath, "github.com/nanobus/iota") {
				fmt.Fprintln(os.Stderr, "load error:", er)
				bad = true
			}
		}
	})
	if bad {
		fatal("the harness does not compile against the current tree")
	}
	e.fset = pkgs[0].Fset
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e.prog = prog
	e.sizes = types.SizesFor("gc", "amd64")
	byPath := map[string]*ssa.Package{}
	for i, p := range pkgs {
		byPath[p.PkgPath] = spkgs[i]
	}
	e.vndm = byPath[vndmPath]
	if e.vndm == nil {
		fatal("model package missing")
	}
	e.vndm.Build()
	e.stubs = map[string]*ssa.Function{}
	for _, d := range decls {
		if !sel(d.name) {
			continue
		}
		o := parseOpts(d.opts, e.tier)
		if o.tier != "" && o.tier != e.tier {
			continue
		}
		p := byPath[dirToPkg(d.dir)]
		if p == nil {
			fatal("package of %s not loaded", d.name)
		}
		p.Build()
		fn := p.Func(d.name)
		if fn == nil {
			fatal("harness %s missing", d.name)
		}
		h := &Harness{prop: d.prop, name: d.name, pkg: dirToPkg(d.dir), dir: d.dir, fn: fn, opt: o,
			notes: map[string]int{}, incompl: map[string]int{}, ends: map[string]int{}, reached: map[string]int{}, races: map[string]int{}, active: map[int]bool{}}
		h.doc = reachLabels(pkgs, d)
		e.hs = append(e.hs, h)
	}
}

// reachLabels lists the vnd.Reach labels a harness declares, so that vacuity can be detected.
func reachLabels(pkgs []*packages.Package, d harnessDecl) string {
	var labels []string
	for _, p := range pkgs {
		if p.PkgPath != dirToPkg(d.dir) {
			continue
		}
		for _, f := range p.Syntax {
			for _, dc := range f.Decls {
				fd, ok := dc.(*ast.FuncDecl)
				if !ok || fd.Name.Name != d.name {
					continue
				}
				ast.Inspect(fd, func(n ast.Node) bool {
					if c, ok := n.(*ast.CallExpr); ok {
						if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Reach" && len(c.Args) == 1 {
							if l, ok := c.Args[0].(*ast.BasicLit); ok {
								v, _ := strconv.Unquote(l.Value)
								labels = append(labels, v)
							}
						}
					}
					return true
				})
			}
		}
	}
	return strings.Join(labels, ",")
}

func dirToPkg(dir string) string {
	rel, _ := filepath.Rel(repoGo, dir)
	if rel == "." {
		return modPath
	}
	return modPath + "/" + filepath.ToSlash(rel)
}
