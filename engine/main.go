package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"

	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	debugF = flag.Bool("debug", false, "")
	traceF = flag.Bool("trace", false, "")
	onlyF  = flag.String("harness", "", "run only harnesses whose name contains this")
	propF  = flag.String("property", "", "property id")
	tierF  = flag.String("tier", "", "quick or thorough")
	budF   = flag.Float64("budget", 0, "seconds")
	workF  = flag.Int("workers", 0, "")
	profF  = flag.String("cpuprofile", "", "")
	noNat  = flag.Bool("nonative", false, "skip native runs")
	evF    = flag.String("evidence", "", "evidence file")
	replF  = flag.String("replay", "", "replay a violation file natively")
	saveF  = flag.Bool("nosave", false, "do not write evidence")
)

var trace bool
var debug bool

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()

	os.Exit(realMain())
}

func realMain() int {
	trace = *traceF
	t0 := time.Now()
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repoGo = v + "/go"
	}
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if *replF != "" {
		return replayFile(*replF)
	}
	if *propF == "" {
		fatal("no property")
	}
	setDebug()
	files := overlayFiles()
	var decls []harnessDecl
	for _, d := range findHarnesses(files) {
		if d.prop == *propF {
			decls = append(decls, d)
		}
	}
	if len(decls) == 0 {
		fatal("no harness for %s", *propF)
	}
	e := &Engine{tier: tier, seed: seed, cands: map[string]*Candidate{}, noInitP: map[string]bool{}}
	e.cond = sync.NewCond(&e.mu)
	e.workers = *workF
	if e.workers == 0 {
		e.workers = min(8, runtime.NumCPU())
	}
	e.timeout = 5000
	budget := 40.0
	if tier == "thorough" {
		e.timeout = 30000
		budget = 600
	}
	if *budF > 0 {
		budget = *budF
	}
	e.known = loadKnown(filepath.Join(verifDir, "known_findings.json"))
	ov := map[string][]byte{}
	natFiles := map[string]string{}
	for v, p := range files {
		b, err := os.ReadFile(p)
		if err != nil {
			fatal("%v", err)
		}
		ov[v] = b
		natFiles[v] = p
	}
	pr := prepare(decls, tier, ov, natFiles)
	defer pr.close()
	e.points, e.modfile = pr.points, pr.modfile
	e.load(decls, ov, func(n string) bool { return *onlyF == "" || strings.Contains(n, *onlyF) })
	tLoad := time.Since(t0)
	if *profF != "" {
		f, _ := os.Create(*profF)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	nat, err := newNative(natFiles, e.modfile, e.hs)
	if err != nil {
		fatal("%v", err)
	}
	defer nat.close()
	var natBuilt chan error
	if !*noNat {
		natBuilt = make(chan error, 1)
		go func() {
			_, err := nat.build(false)
			natBuilt <- err
		}()
	}
	e.deadline.Store(time.Now().Add(time.Duration(budget * float64(time.Second))).UnixNano())
	e.explore()
	tExpl := time.Since(t0) - tLoad

	// confirm candidates natively
	violations := 0
	knownSeen := map[string]string{}
	validated, disagree := 0, 0
	var natErr error
	if natBuilt != nil {
		natErr = <-natBuilt
		if natErr != nil {
			fmt.Fprintln(os.Stderr, natErr)
		}
	}
	confirmed := map[string]*Candidate{}
	spurious := map[string]int{}
	unconf := map[string]int{}
	replayDeadline := time.Now().Add(150 * time.Second)
	for _, c := range e.order {
		k := e.knownOf(c)
		gkey := c.key
		if k != nil {
			if _, ok := knownSeen[k.ID]; ok {
				continue
			}
		} else if confirmed[gkey] != nil || len(confirmed) >= 6 {
			continue
		}
		if *noNat || natErr != nil {
			unconf[gkey]++
			fmt.Printf("unconfirmed candidate: %s %s at %s\n", c.h.name, c.msg, c.site)
			continue
		}
		if time.Now().After(replayDeadline) {
			unconf[gkey]++
			continue
		}
		r, err := nat.run([]*Replay{c.rep}, c.kind == "race", replayTimeout(c))
		if err != nil {
			natErr = err
			unconf[gkey]++
			continue
		}
		for try := 0; try < 3 && c.h.opt.sched && !confirms(c.kind, r); try++ {
			if r, err = nat.run([]*Replay{c.rep}, c.kind == "race", replayTimeout(c)); err != nil {
				break
			}
		}
		c.out = r.out
		if confirms(c.kind, r) {
			if k != nil {
				knownSeen[k.ID] = k.What
				continue
			}
			confirmed[gkey] = c
		} else {
			spurious[gkey]++
			if debug {
				fmt.Printf("not reproduced natively: %s %s at %s\n  exit %d\n%s\n", c.h.name, c.msg, c.site, r.code, r.out)
				js, _ := json.Marshal(c.rep)
				fmt.Println(string(js))
			}
		}
	}
	// replay a sample of passing paths: the real code must agree
	type natDis struct {
		h   *Harness
		rep *Replay
		out string
	}
	var dis []natDis
	if !*noNat && natErr == nil {
		for _, h := range e.hs {
			if !h.opt.native || len(h.pathMods) == 0 {
				continue
			}
			if h.opt.sched {
				// the schedule is followed as far as possible; only agreement counts
				for i := 0; i < len(h.pathMods) && i < 3; i++ {
					if r, err := nat.run(h.pathMods[i:i+1], false, 10*time.Second); err == nil && r.code == 0 {
						validated++
					} else if err == nil && debug {
						js, _ := json.Marshal(h.pathMods[i])
						fmt.Printf("native run of a passing schedule of %s: exit %d\n%s\n%s\n", h.name, r.code, r.out, js)
					}
				}
				continue
			}
			mods := h.pathMods
			lim := 12
			if tier == "thorough" {
				lim = 40
			}
			if len(mods) > lim {
				mods = mods[:lim]
			}
			r, err := nat.run(mods, false, 20*time.Second)
			if err != nil {
				continue
			}
			if r.code == 0 {
				validated += len(mods)
				continue
			}
			// find which
			for _, mrep := range mods {
				r, err := nat.run([]*Replay{mrep}, false, 10*time.Second)
				if err != nil {
					continue
				}
				if r.code == 0 {
					validated++
				} else if !r.hung && r.code == 10 || r.code == 2 {
					disagree++
					dis = append(dis, natDis{h, mrep, r.out})
					if debug {
						js, _ := json.Marshal(mrep)
						fmt.Printf("ENGINE DISAGREES with native for %s: exit %d\n%s\n%s\n", h.name, r.code, r.out, js)
					}
				} else if debug {
					js, _ := json.Marshal(mrep)
					fmt.Printf("native run of a passing path of %s: exit %d hung=%v\n%s\n%s\n", h.name, r.code, r.hung, r.out, js)
				}
			}
		}
	}
	_ = dis
	// output
	replayDir := filepath.Join(verifDir, "evidence", "replay")
	for _, f := range e.known {
		if f.Property == *propF && f.Fixed == "" {
			if w, ok := knownSeen[f.ID]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *propF, f.ID, w)
			}
		}
	}
	var ckeys []string
	for k := range confirmed {
		ckeys = append(ckeys, k)
	}
	sort.Strings(ckeys)
	for i, k := range ckeys {
		c := confirmed[k]
		os.MkdirAll(replayDir, 0o755)
		p := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", *propF, i))
		js, _ := json.MarshalIndent(map[string]interface{}{"property": *propF, "case": c.rep, "kind": c.kind, "message": c.msg, "site": c.site, "engine_stack": c.stack, "native_output": tail(c.out, 3000)}, "", " ")
		os.WriteFile(p, js, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *propF, p)
		fmt.Printf("  harness %s: %s\n  at %s\n", c.h.name, c.msg, c.site)
		violations++
	}
	for i, d := range dis {
		if i >= 3 {
			break
		}
		os.MkdirAll(replayDir, 0o755)
		p := filepath.Join(replayDir, fmt.Sprintf("%s-n%d.json", *propF, i))
		js, _ := json.MarshalIndent(map[string]interface{}{"property": *propF, "case": d.rep, "native_output": tail(d.out, 3000)}, "", " ")
		os.WriteFile(p, js, 0o644)
		if e.disKnown(d.h, d.out) {
			continue
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *propF, p)
		fmt.Printf("  harness %s: the real code fails on an explored input\n%s\n", d.h.name, tail(d.out, 600))
		violations++
	}
	wall := time.Since(t0).Seconds()
	e.writeEvidence(evInfo{violations: violations, wall: wall, load: tLoad.Seconds(), expl: tExpl.Seconds(), validated: validated, disagree: disagree, spurious: spurious, unconf: unconf, known: knownSeen, natErr: natErr, budget: budget})
	if violations > 0 {
		return 1
	}
	return 0
}

// instrDirsOf lists the packages to instrument for a property (the same for all its harnesses, so
// that point numbers are stable).
func instrDirsOf(decls []harnessDecl, tier string) []string {
	var r []string
	seen := map[string]bool{}
	for _, d := range decls {
		for _, x := range parseOpts(d.opts, tier).instr {
			if !seen[x] {
				seen[x] = true
				r = append(r, x)
			}
		}
	}
	return r
}

// replayFile re-runs a reported violation natively.
func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var v struct {
		Case *Replay `json:"case"`
		Kind string  `json:"kind"`
	}
	if err := json.Unmarshal(b, &v); err != nil || v.Case == nil {
		fatal("not a violation file: %v", err)
	}
	files := overlayFiles()
	ov, natFiles := map[string][]byte{}, map[string]string{}
	for vp, p := range files {
		c, err := os.ReadFile(p)
		if err != nil {
			fatal("%v", err)
		}
		ov[vp], natFiles[vp] = c, p
	}
	var h *Harness
	modfile := ""
	for _, d := range findHarnesses(files) {
		if d.name == v.Case.Harness {
			o := parseOpts(d.opts, "quick")
			h = &Harness{prop: d.prop, name: d.name, pkg: dirToPkg(d.dir), dir: d.dir, opt: o}
			var same []harnessDecl
			for _, x := range findHarnesses(files) {
				if x.prop == d.prop {
					same = append(same, x)
				}
			}
			pr := prepare(same, "quick", ov, natFiles)
			defer pr.close()
			modfile = pr.modfile
		}
	}
	if h == nil {
		fatal("no harness %s", v.Case.Harness)
	}
	nat, err := newNative(natFiles, modfile, []*Harness{h})
	if err != nil {
		fatal("%v", err)
	}
	defer nat.close()
	r, err := nat.run([]*Replay{v.Case}, v.Kind == "race", 30*time.Second)
	if err != nil {
		fatal("%v", err)
	}
	fmt.Println(r.out)
	if confirms(v.Kind, r) || v.Kind == "" && r.code != 0 {
		fmt.Println("reproduced")
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

func (e *Engine) disKnown(h *Harness, out string) bool {
	for _, k := range e.known {
		if k.Fixed == "" && k.Harness == h.name && (k.Msg == "" || strings.Contains(out, k.Msg)) {
			return true
		}
	}
	return false
}

func replayTimeout(c *Candidate) time.Duration {
	if c.h.opt.sched {
		return 20 * time.Second
	}
	return 10 * time.Second
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

type evInfo struct {
	violations               int
	wall, load, expl, budget float64
	validated, disagree      int
	spurious, unconf         map[string]int
	known                    map[string]string
	natErr                   error
}

func (e *Engine) writeEvidence(x evInfo) {
	var paths, steps, dec, forks int64
	var samples []map[string]interface{}
	hs := []map[string]interface{}{}
	exhaustive := true
	for _, h := range e.hs {
		paths += h.stats.paths
		steps += h.stats.steps
		dec += h.stats.decisions
		forks += h.stats.forks
		samples = append(samples, h.samples...)
		var notes []string
		for _, n := range sortedKeys(h.notes) {
			notes = append(notes, fmt.Sprintf("%dx %s", h.notes[n], n))
		}
		if len(notes) > 12 {
			notes = append(notes[:12], fmt.Sprintf("... %d more", len(notes)-12))
		}
		var missing []string
		for _, l := range strings.Split(h.doc, ",") {
			if l != "" && h.reached[l] == 0 {
				missing = append(missing, l)
			}
		}
		full := !h.cut && h.ends["bound"] == 0 && h.ends["unsupported"] == 0 && h.ends["desync"] == 0 && len(h.incompl) == 0 && h.ends["timeout"] == 0
		if !full {
			exhaustive = false
		}
		d := map[string]interface{}{
			"harness": h.name, "paths": h.stats.paths, "instructions": h.stats.steps, "path_ends": h.ends, "all_paths_explored_within_bounds": full,
			"bounds":  map[string]interface{}{"symbolic_branches_per_site": h.opt.unroll, "loop_iterations": h.opt.maxIter, "instructions_per_path": h.opt.maxSteps, "goroutines": h.opt.maxGor, "schedule_deviations": schedStr(h)},
			"reached": h.reached, "worker_s": float64(h.spent) / 1e9,
		}
		if len(notes) > 0 {
			d["cut_paths"] = notes
		}
		if len(h.incompl) > 0 {
			d["solver_gaps"] = h.incompl
		}
		if len(missing) > 0 {
			d["labels_not_reached"] = missing
		}
		if len(h.races) > 0 {
			d["racy_pairs_seen"] = sortedKeys(h.races)
		}
		if h.rounds > 0 {
			d["rounds_with_racing_points"] = h.rounds
		}
		if h.cut {
			d["time_budget_hit"] = true
		}
		hs = append(hs, d)
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	var fns []string
	e.fnSeen.Range(func(k, _ interface{}) bool {
		f := k.(*ssa.Function)
		n := f.String()
		if strings.Contains(n, "github.com/nanobus/iota") && !strings.Contains(n, "/internal/vnd") && !strings.Contains(n, "/verifh") && !strings.Contains(n, ".H_") {
			fns = append(fns, strings.ReplaceAll(n, "github.com/nanobus/iota/go/", ""))
		}
		return true
	})
	sort.Strings(fns)
	nf := len(fns)
	cov := map[string]interface{}{
		"states": paths, "transitions": dec, "traces_validated_against_impl": x.validated,
		"samples":                      samples,
		"exhaustive":                   exhaustive,
		"functions_encoded":            fns,
		"functions_encoded_count":      nf,
		"instructions_executed":        steps,
		"assertions_checked":           e.gst.asserts,
		"assertions_closed_by_folding": e.gst.assertsConst,
		"solver":                       map[string]interface{}{"binary": z3bin, "queries": e.solver.queries, "sat": e.solver.sat, "unsat": e.solver.unsat, "unknown": e.solver.unknown, "one_shot": e.solver.solo, "seconds": float64(e.solver.ns) / 1e9},
		"harnesses":                    hs,
		"meaning":                      "states = symbolic paths executed over the repository's SSA; transitions = symbolic branch/value/schedule decisions taken, each with its alternative decided by the solver",
		"seconds":                      map[string]float64{"load": x.load, "explore": x.expl},
		"engine_native_disagreements":  x.disagree,
	}
	if len(x.spurious) > 0 {
		cov["candidates_not_reproduced_natively"] = x.spurious
	}
	if len(x.unconf) > 0 {
		cov["candidates_not_replayed"] = x.unconf
	}
	if len(x.known) > 0 {
		cov["known_findings_seen"] = x.known
	}
	if x.natErr != nil {
		cov["native_build_error"] = x.natErr.Error()
	}
	ev := map[string]interface{}{
		"property": *propF, "tier": e.tier, "seed": e.seed, "level": "model_checking", "coverage": cov, "wall_s": x.wall, "violations": x.violations,
		"assumptions": []string{
			"go/ssa's translation and this engine's instruction semantics stand for the compiler (passing paths are re-run natively as a check)",
			"bounds are those listed per harness; behaviour beyond them is not covered",
			"fmt, errors.Is, context.WithValue, sync, sync/atomic, time and crypto/rand are modelled (see DESIGN.md)",
		},
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	p := *evF
	if p == "" {
		p = filepath.Join(verifDir, "evidence", *propF+".json")
	}
	if !*saveF {
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, js, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	if debug || os.Getenv("GOSYM_SUMMARY") != "" {
		for _, h := range hs {
			js, _ := json.Marshal(h)
			fmt.Println(string(js))
		}
		fmt.Printf("wall %.1fs load %.1fs explore %.1fs queries %d solver %.1fs asserts %d/%d validated %d disagree %d spurious %v\n", x.wall, x.load, x.expl, e.solver.queries, float64(e.solver.ns)/1e9, e.gst.asserts, e.gst.assertsConst, x.validated, x.disagree, x.spurious)
	}
}

func schedStr(h *Harness) interface{} {
	if !h.opt.sched {
		return "none (deterministic schedule)"
	}
	return h.opt.switches
}
