package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Sat int

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

type SolverStats struct {
	queries, sat, unsat, unknown int64
	ns                           int64
	restarts                     int64
	solo                         int64
}

type Solver struct {
	tt      *TermTable
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     strings.Builder
	emitted map[int]string // term id -> name or literal
	decl    map[string]bool
	stack   []*Term
	timeout int // ms
	stats   *SolverStats
	nm      int
	bin     string
	logw    io.Writer
}

var z3bin = "z3-new"
var slowDir = os.Getenv("GOSYM_SLOWQ")
var slowN int64

// firstTry is the time in ms the incremental solver gets before the one-shot solvers are tried.
const firstTry = 120

func newSolver(tt *TermTable, timeoutMs int, st *SolverStats) *Solver {
	s := &Solver{tt: tt, timeout: timeoutMs, stats: st}
	s.start()
	return s
}

func (s *Solver) start() {
	bin := z3bin
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.bin = bin
	s.cmd = exec.Command(bin, "-in", "-smt2", "memory_max_size=3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	if err := s.cmd.Start(); err != nil {
		fatal("solver: %v", err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.emitted = map[int]string{}
	s.decl = map[string]bool{}
	s.stack = nil
	s.buf.Reset()
	fmt.Fprintf(&s.buf, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", min(s.timeout, firstTry))
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	atomic.AddInt64(&s.stats.restarts, 1)
	s.close()
	s.start()
}

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func lit(w int, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v&mask(w))
	}
	return fmt.Sprintf("#b%0*b", w, v&mask(w))
}

func quote(n string) string { return "|" + n + "|" }

// ref returns an SMT reference for the term, emitting definitions as needed.
func (s *Solver) ref(t *Term) string {
	if t.op == OpConst {
		return lit(t.w, t.k)
	}
	if r, ok := s.emitted[t.id]; ok {
		return r
	}
	if t.op == OpVar {
		n := quote(t.name)
		if !s.decl[t.name] {
			s.decl[t.name] = true
			fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", n, sortStr(t.w))
		}
		s.emitted[t.id] = n
		return n
	}
	if t.op == OpApp {
		if !s.decl[t.name] {
			s.decl[t.name] = true
			fmt.Fprintf(&s.buf, "(declare-fun %s ((_ BitVec 64)) %s)\n", quote(t.name), sortStr(t.w))
		}
	}
	args := make([]string, len(t.args))
	for i, a := range t.args {
		args[i] = s.ref(a)
	}
	body := s.body(t, args)
	s.nm++
	n := "t" + strconv.Itoa(s.nm)
	fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", n, sortStr(t.w), body)
	s.emitted[t.id] = n
	return n
}

func fpSort(w int) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (s *Solver) body(t *Term, a []string) string {
	bin := func(op string) string { return "(" + op + " " + a[0] + " " + a[1] + ")" }
	toFP := func(x string, w int) string { return "((_ to_fp " + fpSort(w) + ") " + x + ")" }
	switch t.op {
	case OpApp:
		return "(" + quote(t.name) + " " + a[0] + ")"
	case OpAdd:
		r := "(bvadd"
		for _, x := range a {
			r += " " + x
		}
		if t.k != 0 {
			r += " " + lit(t.w, t.k)
		}
		return r + ")"
	case OpMul:
		return bin("bvmul")
	case OpUDiv:
		return bin("bvudiv")
	case OpURem:
		return bin("bvurem")
	case OpSDiv:
		return bin("bvsdiv")
	case OpSRem:
		return bin("bvsrem")
	case OpAnd:
		return bin("bvand")
	case OpOr:
		return bin("bvor")
	case OpXor:
		return bin("bvxor")
	case OpShl:
		return bin("bvshl")
	case OpLShr:
		return bin("bvlshr")
	case OpAShr:
		return bin("bvashr")
	case OpNot:
		return "(bvnot " + a[0] + ")"
	case OpConcat:
		return bin("concat")
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&0xff, a[0])
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, a[0])
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, a[0])
	case OpIte:
		return "(ite " + a[0] + " " + a[1] + " " + a[2] + ")"
	case OpEq:
		return bin("=")
	case OpUlt:
		return bin("bvult")
	case OpUle:
		return bin("bvule")
	case OpSlt:
		return bin("bvslt")
	case OpSle:
		return bin("bvsle")
	case OpBNot:
		return "(not " + a[0] + ")"
	case OpBAnd:
		return bin("and")
	case OpBOr:
		return bin("or")
	}
	w0 := t.args[0].w
	switch t.op {
	case OpFLt:
		return "(fp.lt " + toFP(a[0], w0) + " " + toFP(a[1], w0) + ")"
	case OpFLe:
		return "(fp.leq " + toFP(a[0], w0) + " " + toFP(a[1], w0) + ")"
	case OpFEq:
		return "(fp.eq " + toFP(a[0], w0) + " " + toFP(a[1], w0) + ")"
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		op := map[Op]string{OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div"}[t.op]
		return "(fp.to_ieee_bv (" + op + " RNE " + toFP(a[0], w0) + " " + toFP(a[1], w0) + "))"
	case OpFtoF:
		return "(fp.to_ieee_bv ((_ to_fp " + fpSort(t.w) + ") RNE " + toFP(a[0], w0) + "))"
	case OpStoF:
		return "(fp.to_ieee_bv ((_ to_fp " + fpSort(t.w) + ") RNE " + a[0] + "))"
	case OpUtoF:
		return "(fp.to_ieee_bv ((_ to_fp_unsigned " + fpSort(t.w) + ") RNE " + a[0] + "))"
	case OpFtoS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, toFP(a[0], w0))
	case OpFtoU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, toFP(a[0], w0))
	}
	panic("body")
}

// support: the variables and applications a set of constraints depends on.
type support struct {
	seen  map[*Term]bool
	leafs []*Term
}

func newSupport() *support { return &support{seen: map[*Term]bool{}} }
func (s *support) add(t *Term) {
	if !t.hasVar || s.seen[t] {
		return
	}
	s.seen[t] = true
	if t.op == OpVar || t.op == OpApp {
		s.leafs = append(s.leafs, t)
	}
	for _, a := range t.args {
		s.add(a)
	}
}

func (s *Solver) flush() error {
	if s.logw != nil {
		io.WriteString(s.logw, s.buf.String())
	}
	_, err := io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	return err
}

// check decides satisfiability of pc ∧ extra. With wantModel, a model over sup's leaves is returned.
func (s *Solver) check(pc []*Term, extra *Term, sup *support, wantModel bool) (Sat, *Model) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.stats.ns, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.stats.queries, 1)
	if s.nm > 150000 {
		s.restart()
		s.nm = 0
	}
	for try := 0; try < 2; try++ {
		r, m, err := s.check1(pc, extra, sup, wantModel)
		if err == nil {
			if r == Unknown {
				r, m = s.portfolio(pc, extra, sup, time.Duration(s.timeout)*time.Millisecond)
			}
			switch r {
			case Unsat:
				atomic.AddInt64(&s.stats.unsat, 1)
			case SatYes:
				atomic.AddInt64(&s.stats.sat, 1)
			default:
				atomic.AddInt64(&s.stats.unknown, 1)
			}
			if slowDir != "" && time.Since(t0) > time.Second {
				n := atomic.AddInt64(&slowN, 1)
				q, _ := s.script(pc, extra, nil)
				os.WriteFile(fmt.Sprintf("%s/q%d-%v-%.1f.smt2", slowDir, n, r, time.Since(t0).Seconds()), []byte(q), 0o644)
			}
			return r, m
		}
		if debug {
			fmt.Println("solver error:", err)
		}
		s.restart()
	}
	atomic.AddInt64(&s.stats.unknown, 1)
	return Unknown, nil
}

func (s *Solver) check1(pc []*Term, extra *Term, sup *support, wantModel bool) (Sat, *Model, error) {
	common := 0
	for common < len(pc) && common < len(s.stack) && pc[common] == s.stack[common] {
		common++
	}
	if n := len(s.stack) - common; n > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", n)
		s.stack = s.stack[:common]
	}
	for _, t := range pc[common:] {
		r := s.ref(t)
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", r)
		s.bounds(t)
		s.stack = append(s.stack, t)
	}
	if extra != nil {
		r := s.ref(extra)
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", r)
		s.bounds(extra)
	}
	s.buf.WriteString("(check-sat)\n")
	if err := s.flush(); err != nil {
		return Unknown, nil, err
	}
	line, err := s.line()
	if err != nil {
		return Unknown, nil, err
	}
	var res Sat
	switch line {
	case "sat":
		res = SatYes
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	var model *Model
	if res == SatYes && wantModel {
		model = newModel()
		var ls []*Term
		for _, l := range sup.leafs {
			ls = append(ls, l)
		}
		if extra != nil {
			s2 := &support{seen: map[*Term]bool{}}
			s2.add(extra)
			for _, l := range s2.leafs {
				if !sup.seen[l] {
					ls = append(ls, l)
				}
			}
		}
		if len(ls) > 0 {
			var names []string
			s.buf.Reset()
			for _, l := range ls {
				if l.op == OpApp {
					names = append(names, s.ref(l.args[0]), s.ref(l))
				} else {
					names = append(names, s.ref(l))
				}
			}
			s.buf.WriteString("(get-value (" + strings.Join(names, " ") + "))\n")
			if err := s.flush(); err != nil {
				return Unknown, nil, err
			}
			sx, err := s.sexpr()
			if err != nil {
				return Unknown, nil, err
			}
			if len(sx.kids) != len(names) {
				return Unknown, nil, fmt.Errorf("model: %d values for %d terms", len(sx.kids), len(names))
			}
			i := 0
			val := func() uint64 {
				k := sx.kids[i]
				i++
				return parseVal(k.kids[1])
			}
			for _, l := range ls {
				if l.op == OpApp {
					ix := val()
					v := val()
					if model.ufs[l.name] == nil {
						model.ufs[l.name] = map[uint64]uint64{}
					}
					model.ufs[l.name][ix] = v
				} else {
					model.vars[l.name] = val()
				}
			}
		}
	}
	if extra != nil {
		s.buf.WriteString("(pop 1)\n")
	}
	return res, model, nil
}

// bounds asserts the declared maxima of variables in t (in the current scope; cheap and idempotent).
func (s *Solver) bounds(t *Term) {
	sp := newSupport()
	sp.add(t)
	for _, l := range sp.leafs {
		if l.op == OpVar && l.k != 0 {
			fmt.Fprintf(&s.buf, "(assert (bvule %s %s))\n", s.ref(l), lit(l.w, l.k))
		}
	}
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

type sexp struct {
	atom string
	kids []*sexp
}

func (s *Solver) sexpr() (*sexp, error) {
	var skip func() (byte, error)
	skip = func() (byte, error) {
		for {
			b, err := s.out.ReadByte()
			if err != nil {
				return 0, err
			}
			if b > ' ' {
				return b, nil
			}
		}
	}
	var rd func(b byte) (*sexp, error)
	rd = func(b byte) (*sexp, error) {
		if b == '(' {
			r := &sexp{}
			for {
				c, err := skip()
				if err != nil {
					return nil, err
				}
				if c == ')' {
					return r, nil
				}
				k, err := rd(c)
				if err != nil {
					return nil, err
				}
				r.kids = append(r.kids, k)
			}
		}
		if b == '|' || b == '"' {
			str, err := s.out.ReadString(b)
			return &sexp{atom: str}, err
		}
		at := []byte{b}
		for {
			p, err := s.out.Peek(1)
			if err != nil {
				return nil, err
			}
			if p[0] <= ' ' || p[0] == '(' || p[0] == ')' {
				break
			}
			s.out.ReadByte()
			at = append(at, p[0])
		}
		return &sexp{atom: string(at)}, nil
	}
	b, err := skip()
	if err != nil {
		return nil, err
	}
	r, err := rd(b)
	if err == nil && len(r.kids) > 0 && r.kids[0].atom == "error" {
		return nil, fmt.Errorf("solver: %v", r.kids[1].atom)
	}
	return r, err
}

func parseVal(x *sexp) uint64 {
	a := x.atom
	switch {
	case a == "true":
		return 1
	case a == "false":
		return 0
	case strings.HasPrefix(a, "#x"):
		v, _ := strconv.ParseUint(a[2:], 16, 64)
		return v
	case strings.HasPrefix(a, "#b"):
		v, _ := strconv.ParseUint(a[2:], 2, 64)
		return v
	}
	if len(x.kids) == 3 && x.kids[0].atom == "_" && strings.HasPrefix(x.kids[1].atom, "bv") {
		v, _ := strconv.ParseUint(x.kids[1].atom[2:], 10, 64)
		return v
	}
	panic("model value " + a)
}

// modelLeaves lists the leaves a model has to cover.
func modelLeaves(extra *Term, sup *support) []*Term {
	ls := append([]*Term(nil), sup.leafs...)
	if extra != nil {
		s2 := newSupport()
		s2.add(extra)
		for _, l := range s2.leafs {
			if !sup.seen[l] {
				ls = append(ls, l)
			}
		}
	}
	return ls
}

// script renders pc ∧ extra as a self-contained SMT-LIB script, with a get-value for the leaves.
func (s *Solver) script(pc []*Term, extra *Term, leaves []*Term) (string, int) {
	o := &Solver{tt: s.tt, emitted: map[int]string{}, decl: map[string]bool{}, stats: &SolverStats{}}
	o.buf.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	ts := append([]*Term{}, pc...)
	if extra != nil {
		ts = append(ts, extra)
	}
	done := map[*Term]bool{}
	for _, t := range ts {
		r := o.ref(t)
		fmt.Fprintf(&o.buf, "(assert %s)\n", r)
		sp := &support{seen: done}
		sp.add(t)
		for _, l := range sp.leafs {
			if l.op == OpVar && l.k != 0 {
				fmt.Fprintf(&o.buf, "(assert (bvule %s %s))\n", o.ref(l), lit(l.w, l.k))
			}
		}
	}
	var names []string
	for _, l := range leaves {
		if l.op == OpApp {
			names = append(names, o.ref(l.args[0]), o.ref(l))
		} else {
			names = append(names, o.ref(l))
		}
	}
	o.buf.WriteString("(check-sat)\n")
	if len(names) > 0 {
		o.buf.WriteString("(get-value (" + strings.Join(names, " ") + "))\n")
	}
	return o.buf.String(), len(names)
}

func readModel(sx *sexp, ls []*Term) (m *Model, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("model: %v", r)
		}
	}()
	m = newModel()
	i := 0
	val := func() uint64 {
		k := sx.kids[i]
		i++
		return parseVal(k.kids[1])
	}
	for _, l := range ls {
		if l.op == OpApp {
			ix := val()
			v := val()
			if m.ufs[l.name] == nil {
				m.ufs[l.name] = map[uint64]uint64{}
			}
			m.ufs[l.name][ix] = v
		} else {
			m.vars[l.name] = val()
		}
	}
	return m, nil
}

type soloRes struct {
	r   Sat
	m   *Model
	who string
}

// portfolio races one-shot solvers with different encodings of machine arithmetic.
func (s *Solver) portfolio(pc []*Term, extra *Term, sup *support, timeout time.Duration) (Sat, *Model) {
	leaves := modelLeaves(extra, sup)
	scr, _ := s.script(pc, extra, leaves)
	cmds := [][]string{
		{"cvc5", "--solve-bv-as-int=sum", "--produce-models", "--lang=smt2", "-"},
		{s.bin, "-in", "-smt2", "memory_max_size=3000"},
	}
	if _, err := exec.LookPath("cvc5"); err != nil {
		cmds = cmds[1:]
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	ch := make(chan soloRes, len(cmds))
	for _, c := range cmds {
		go func(c []string) {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(scr)
			out, _ := cmd.Output()
			res := soloRes{r: Unknown, who: c[0]}
			line, rest, _ := strings.Cut(string(out), "\n")
			switch strings.TrimSpace(line) {
			case "unsat":
				res.r = Unsat
			case "sat":
				m := newModel()
				if len(leaves) > 0 {
					rd := &Solver{out: bufio.NewReader(strings.NewReader(rest))}
					sx, err := rd.sexpr()
					if err == nil {
						m, err = readModel(sx, leaves)
					}
					if err != nil {
						if debug {
							fmt.Println("portfolio model:", err)
						}
						break
					}
				}
				res.r, res.m = SatYes, m
			}
			ch <- res
		}(c)
	}
	for range cmds {
		r := <-ch
		if r.r == Unknown {
			continue
		}
		if r.r == SatYes && !s.modelOK(pc, extra, r.m) {
			if debug {
				fmt.Println("portfolio: model of", r.who, "does not satisfy the query")
			}
			continue
		}
		atomic.AddInt64(&s.stats.solo, 1)
		return r.r, r.m
	}
	return Unknown, nil
}

// modelOK evaluates the query under the model.
func (s *Solver) modelOK(pc []*Term, extra *Term, m *Model) bool {
	s.tt.scratch--
	for _, t := range pc {
		if s.tt.eval(t, m, s.tt.scratch) != 1 {
			return false
		}
	}
	return extra == nil || s.tt.eval(extra, m, s.tt.scratch) == 1
}
