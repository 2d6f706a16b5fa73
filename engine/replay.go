package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Native builds the harness packages with the Go compiler and runs inputs against the real code.
type Native struct {
	dir  string
	bin  map[bool]string // race?
	err  error
	ov   map[string]string
	mod  string
	pkgs map[string]map[string]bool // package -> harness names
}

func newNative(files map[string]string, modfile string, hs []*Harness) (*Native, error) {
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	n := &Native{dir: dir, bin: map[bool]string{}, ov: files, mod: modfile, pkgs: map[string]map[string]bool{}}
	for _, h := range hs {
		if n.pkgs[h.pkg] == nil {
			n.pkgs[h.pkg] = map[string]bool{}
		}
		n.pkgs[h.pkg][h.name] = true
	}
	return n, nil
}

func (n *Native) close() { os.RemoveAll(n.dir) }

func (n *Native) build(race bool) (string, error) {
	if b, ok := n.bin[race]; ok {
		return b, n.err
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + vndPath + "\"\n")
	var ps []string
	for p := range n.pkgs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for i, p := range ps {
		fmt.Fprintf(&sb, "\tp%d %q\n", i, p)
	}
	sb.WriteString(")\n\nfunc main() {\n\tvnd.Main(map[string]func(){\n")
	for i, p := range ps {
		var names []string
		for h := range n.pkgs[p] {
			names = append(names, h)
		}
		sort.Strings(names)
		for _, h := range names {
			fmt.Fprintf(&sb, "\t\t%q: p%d.%s,\n", h, i, h)
		}
	}
	sb.WriteString("\t})\n}\n")
	mainSrc := filepath.Join(n.dir, "main.go")
	if err := os.WriteFile(mainSrc, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep := map[string]string{}
	for v, p := range n.ov {
		rep[v] = p
	}
	vmain := filepath.Join(repoGo, "internal", "verifmain", "main.go")
	rep[vmain] = mainSrc
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(n.dir, "overlay.json")
	if err := os.WriteFile(ovf, js, 0o644); err != nil {
		return "", err
	}
	out := filepath.Join(n.dir, fmt.Sprintf("replay-%v", race))
	args := []string{"build", "-overlay", ovf, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, modFlags(n.mod)...)
	args = append(args, "./internal/verifmain")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoGo
	cmd.Env = repoEnv()
	if race {
		cmd.Env = repoEnvCgo("1")
	}
	cmd.Env = modEnv(cmd.Env, n.mod)
	b, err := cmd.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, b)
		return "", n.err
	}
	n.bin[race] = out
	return out, nil
}

type runResult struct {
	code   int
	out    string
	hung   bool
	signal bool
}

// run executes cases in one native process (one JSON file with a list).
func (n *Native) run(reps []*Replay, race bool, timeout time.Duration) (runResult, error) {
	bin, err := n.build(race)
	if err != nil {
		return runResult{}, err
	}
	f, err := os.CreateTemp(n.dir, "case*.json")
	if err != nil {
		return runResult{}, err
	}
	js, _ := json.Marshal(reps)
	f.Write(js)
	f.Close()
	defer os.Remove(f.Name())
	lim := "ulimit -v 12000000; "
	if race {
		lim = ""
	}
	cmd := exec.Command("bash", "-c", lim+"exec "+bin)
	cmd.Env = append(os.Environ(), "VND_REPLAY="+f.Name(), "GOTRACEBACK=single", "GOMEMLIMIT=4GiB")
	cmd.Dir = n.dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return runResult{}, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var r runResult
	select {
	case err = <-done:
	case <-time.After(timeout):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		r.hung = true
	}
	r.out = out.String()
	r.code = cmd.ProcessState.ExitCode()
	return r, nil
}

// confirms reports whether a native run shows the candidate's violation.
func confirms(kind string, r runResult) bool {
	switch kind {
	case "assert":
		return r.code == 10 || r.code == 2 && !strings.Contains(r.out, "all goroutines are asleep") || r.hung
	case "panic":
		return r.code == 2 || r.code == 10 || r.hung
	case "alloc":
		return r.code == 10 || r.code == 2 || r.hung
	case "deadlock", "hang":
		return r.hung || r.code == 2 && strings.Contains(r.out, "asleep") || r.code == 10
	case "race":
		return r.code == 66 || strings.Contains(r.out, "DATA RACE") || r.code == 2
	}
	return r.code != 0
}
