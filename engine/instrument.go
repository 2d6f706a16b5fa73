package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func setDebug() { debug = *debugF }

// instrument puts a vnd.Point before every statement of the packages in dirs (relative to the
// repository's go directory), so that the executor and the native run agree on where a context
// switch happens. Line numbers stay as they are.
func instrument(dirs []string, ov map[string][]byte, nat map[string]string, tmp string) []PointInfo {
	var points []PointInfo
	sort.Strings(dirs)
	for _, d := range dirs {
		dir := filepath.Join(repoGo, filepath.FromSlash(d))
		names := map[string]bool{}
		if es, err := os.ReadDir(dir); err == nil {
			for _, e := range es {
				if ok, _ := build.Default.MatchFile(dir, e.Name()); ok && !strings.HasSuffix(e.Name(), "_test.go") && strings.HasSuffix(e.Name(), ".go") {
					names[e.Name()] = true
				}
			}
		}
		for v := range ov {
			if filepath.Dir(v) == dir {
				names[filepath.Base(v)] = true
			}
		}
		if len(names) == 0 {
			fatal("nothing to instrument in %s", d)
		}
		var list []string
		for n := range names {
			list = append(list, n)
		}
		sort.Strings(list)
		for _, n := range list {
			path := filepath.Join(dir, n)
			src, ok := ov[path]
			if !ok {
				b, err := os.ReadFile(path)
				if err != nil {
					fatal("%v", err)
				}
				src = b
			}
			out := instrumentFile(path, src, &points)
			if out == nil {
				continue
			}
			ov[path] = out
			f := filepath.Join(tmp, fmt.Sprintf("%d-%s", len(points), n))
			if err := os.WriteFile(f, out, 0o644); err != nil {
				fatal("%v", err)
			}
			nat[path] = f
		}
	}
	return points
}

type insertion struct {
	off  int
	text string
}

func instrumentFile(path string, src []byte, points *[]PointInfo) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		fatal("%v", err)
	}
	var ins []insertion
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(s ast.Stmt) {
		switch x := s.(type) {
		case *ast.EmptyStmt:
			return
		case *ast.DeclStmt:
			if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
				return
			}
		}
		id := len(*points)
		pos := fset.Position(s.Pos())
		*points = append(*points, PointInfo{ID: id, Pos: fmt.Sprintf("%s:%d", pos.Filename, pos.Line), File: pos.Filename, Line: pos.Line, Sync: syncStmt(s)})
		t := fmt.Sprintf("vndpt.Point(%d); ", id)
		if isGo(s) {
			t += "vndpt.Fork(); "
		}
		ins = append(ins, insertion{off(s.Pos()), t})
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			add(s)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	// the bodies of switch and select statements hold clauses, not statements
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			clause[off(x.Pos())] = true
		case *ast.CommClause:
			clause[off(x.Pos())] = true
		}
		return true
	})
	keep := ins[:0]
	for _, i := range ins {
		if !clause[i.off] {
			keep = append(keep, i)
		}
	}
	ins = keep
	if len(ins) == 0 {
		return nil
	}
	ins = append(ins, insertion{off(f.Name.End()), `; import vndpt "` + vndPath + `"`})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out []byte
	at := 0
	for _, i := range ins {
		out = append(out, src[at:i.off]...)
		out = append(out, i.text...)
		at = i.off
	}
	return append(out, src[at:]...)
}

func isGo(s ast.Stmt) bool {
	for {
		switch x := s.(type) {
		case *ast.LabeledStmt:
			s = x.Stmt
			continue
		case *ast.GoStmt:
			return true
		}
		return false
	}
}

var syncNames = map[string]bool{
	"Lock": true, "RLock": true, "TryLock": true, "Wait": true, "Done": true, "Add": true, "Do": true,
	"Load": true, "Store": true, "Swap": true, "CompareAndSwap": true,
}

// syncStmt says whether a statement itself (not the blocks in it) synchronises with other
// goroutines.
func syncStmt(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
		return true
	case *ast.LabeledStmt:
		return syncStmt(x.Stmt)
	case *ast.BlockStmt:
		return false
	case *ast.DeferStmt:
		return false
	case *ast.IfStmt:
		return x.Init != nil && syncStmt(x.Init) || syncExpr(x.Cond)
	case *ast.ForStmt:
		return x.Init != nil && syncStmt(x.Init) || x.Cond != nil && syncExpr(x.Cond)
	case *ast.RangeStmt:
		return syncExpr(x.X)
	case *ast.SwitchStmt:
		return x.Init != nil && syncStmt(x.Init) || x.Tag != nil && syncExpr(x.Tag)
	case *ast.TypeSwitchStmt:
		return x.Init != nil && syncStmt(x.Init)
	}
	return syncExpr(s)
}

func syncExpr(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			name := ""
			switch f := x.Fun.(type) {
			case *ast.Ident:
				name = f.Name
				if name == "close" || name == "cancel" {
					found = true
				}
			case *ast.SelectorExpr:
				name = f.Sel.Name
				if syncNames[name] {
					found = true
				}
				if id, ok := f.X.(*ast.Ident); ok && id.Name == "atomic" {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// pointsFor lists the points whose statement covers the line of a racing access.
func (e *Engine) pointsFor(site string) []int {
	// site is "function file:line[:column]"
	if i := strings.LastIndex(site, " "); i >= 0 {
		site = site[i+1:]
	}
	parts := strings.Split(site, ":")
	if len(parts) < 2 {
		return nil
	}
	var line int
	fmt.Sscanf(parts[1], "%d", &line)
	best := 0
	for _, p := range e.points {
		if sameFile(p.File, parts[0]) && p.Line <= line && p.Line > best {
			best = p.Line
		}
	}
	var r []int
	for _, p := range e.points {
		if best > 0 && p.Line == best && sameFile(p.File, parts[0]) {
			r = append(r, p.ID)
		}
	}
	return r
}

func sameFile(a, b string) bool {
	return a == b || strings.HasSuffix(a, "/"+b) || strings.HasSuffix(b, "/"+a)
}
