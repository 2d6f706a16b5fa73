package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// prepared is what the harnesses of a run need besides the tree and the overlay.
type prepared struct {
	tmp     string
	points  []PointInfo
	modfile string
}

func (p *prepared) close() {
	if p.tmp != "" {
		os.RemoveAll(p.tmp)
	}
}

// prepare derives instrumented and hooked sources and a module file from the current tree, and
// adds them to the overlay.
func prepare(decls []harnessDecl, tier string, ov map[string][]byte, nat map[string]string) *prepared {
	p := &prepared{}
	tmp := func() string {
		if p.tmp == "" {
			t, err := os.MkdirTemp("", "gosym-prep")
			if err != nil {
				fatal("%v", err)
			}
			p.tmp = t
		}
		return p.tmp
	}
	hooks, mods, nets := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, d := range decls {
		o := parseOpts(d.opts, tier)
		for _, h := range o.hook {
			hooks[h] = true
		}
		for _, m := range o.mods {
			mods[m] = true
		}
		for _, n := range o.net {
			nets[n] = true
		}
	}
	for h := range hooks {
		hook(h, ov, nat, tmp())
	}
	for n := range nets {
		network(n, ov, nat, tmp())
	}
	if dirs := instrDirsOf(decls, tier); len(dirs) > 0 {
		p.points = instrument(dirs, ov, nat, tmp())
	}
	if len(mods) > 0 {
		p.modfile = filepath.Join(tmp(), "go.mod")
		b, err := os.ReadFile(filepath.Join(repoGo, "go.mod"))
		if err != nil {
			fatal("%v", err)
		}
		for m := range mods {
			b = append(b, fmt.Sprintf("\nreplace %s => %s\n", moduleName(m), filepath.Join(verifDir, "harness", "mods", m))...)
		}
		if err := os.WriteFile(p.modfile, b, 0o644); err != nil {
			fatal("%v", err)
		}
		sum, _ := os.ReadFile(filepath.Join(repoGo, "go.sum"))
		if err := os.WriteFile(filepath.Join(tmp(), "go.sum"), sum, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	return p
}

// moduleName reads the module line of a replacement module.
func moduleName(m string) string {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "mods", m, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	fatal("no module line in %s", m)
	return ""
}

func modFlags(modfile string) []string {
	if modfile == "" {
		return nil
	}
	return []string{"-modfile=" + modfile, "-mod=mod"}
}

func modEnv(env []string, modfile string) []string {
	if modfile != "" {
		env = append(env, "GOWORK=off")
	}
	return env
}

const hookPath = modPath + "/internal/vndhook"

// hook makes the package's functions that have an empty body, the stubs of what another
// environment provides, call the harness.
func hook(d string, ov map[string][]byte, nat map[string]string, tmp string) {
	dir := filepath.Join(repoGo, filepath.FromSlash(d))
	es, err := os.ReadDir(dir)
	if err != nil {
		fatal("%v", err)
	}
	n := 0
	for _, e := range es {
		name := e.Name()
		if ok, _ := build.Default.MatchFile(dir, name); !ok || strings.HasSuffix(name, "_test.go") || !strings.HasSuffix(name, ".go") {
			continue
		}
		path := filepath.Join(dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			fatal("%v", err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			fatal("%v", err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		out, at := []byte{}, 0
		put := func(o int, text string) {
			out = append(append(out, src[at:o]...), text...)
			at = o
		}
		put(off(f.Name.End()), `; import vndhook "`+hookPath+`"`)
		found := false
		for _, dc := range f.Decls {
			fd, ok := dc.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Body == nil || len(fd.Body.List) > 0 || fd.Type.Results != nil || len(fd.Type.Params.List) == 0 {
				continue
			}
			var args []string
			for _, fl := range fd.Type.Params.List {
				for _, id := range fl.Names {
					args = append(args, id.Name)
				}
			}
			put(off(fd.Body.Rbrace), fmt.Sprintf(" vndhook.Call(%q, %s) ", fd.Name.Name, strings.Join(args, ", ")))
			found = true
			n++
		}
		if !found {
			continue
		}
		put(len(src), "")
		ov[path] = out
		fn := filepath.Join(tmp, "hook-"+strings.ReplaceAll(d, "/", "-")+"-"+name)
		if err := os.WriteFile(fn, out, 0o644); err != nil {
			fatal("%v", err)
		}
		nat[path] = fn
	}
	if n == 0 {
		fatal("nothing to hook in %s", d)
	}
}

const netPath = modPath + "/internal/vndnet"

// network makes a package dial and listen through the harness's stand-in for the network.
func network(d string, ov map[string][]byte, nat map[string]string, tmp string) {
	dir := filepath.Join(repoGo, filepath.FromSlash(d))
	es, err := os.ReadDir(dir)
	if err != nil {
		fatal("%v", err)
	}
	for _, e := range es {
		name := e.Name()
		if ok, _ := build.Default.MatchFile(dir, name); !ok || strings.HasSuffix(name, "_test.go") || !strings.HasSuffix(name, ".go") {
			continue
		}
		path := filepath.Join(dir, name)
		src, ok := ov[path]
		if !ok {
			if src, err = os.ReadFile(path); err != nil {
				fatal("%v", err)
			}
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			fatal("%v", err)
		}
		pkg := ""
		for _, im := range f.Imports {
			if im.Path.Value == `"net"` {
				pkg = "net"
				if im.Name != nil {
					pkg = im.Name.Name
				}
			}
		}
		var at []int
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == pkg && x.Obj == nil {
					switch s.Sel.Name {
					case "Dialer", "ListenConfig", "Dial", "DialTimeout", "Listen":
						at = append(at, fset.Position(x.Pos()).Offset)
					}
				}
			}
			return true
		})
		if pkg == "" || len(at) == 0 {
			continue
		}
		name0 := fset.Position(f.Name.End()).Offset
		out := append([]byte{}, src[:name0]...)
		out = append(out, `; import vndnet "`+netPath+`"`...)
		prev := name0
		for _, o := range at {
			out = append(append(out, src[prev:o]...), "vndnet"...)
			prev = o + len(pkg)
		}
		out = append(out, src[prev:]...)
		out = append(out, "\nvar _ "+pkg+".Conn\n"...)
		ov[path] = out
		fn := filepath.Join(tmp, "net-"+strings.ReplaceAll(d, "/", "-")+"-"+name)
		if err := os.WriteFile(fn, out, 0o644); err != nil {
			fatal("%v", err)
		}
		nat[path] = fn
	}
}
