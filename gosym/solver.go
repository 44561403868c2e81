package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Errors int
	Fallback                             int
	CrossChecked, CrossDisagree          int
	BadModels                            int
	Time                                 time.Duration
}

type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	emitted []bool
	stack   []*Term
	seq     int
	st      *SolverStats
	timeout int // ms
	path    string
	crossN  int // cross-check every n-th unsat answer with the second solver (0: never)
	dead    bool
	age     int     // queries since the process started
	slow    bool    // the last query was slow
	nl      []uint8 // per term: 0 not known, 1 linear, 2 nonlinear
}

func NewSolver(ctx *Ctx, st *SolverStats, path string, timeoutMS int) *Solver {
	s := &Solver{ctx: ctx, st: st, timeout: timeoutMS, path: path}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.path, "-in", "-memory:3000")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start solver:", err)
		os.Exit(3)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.age, s.slow = 0, false
	s.emitted = make([]bool, 1024)
	s.stack = nil
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func ref(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.k, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OpVar:
		return t.name
	}
	return "t" + strconv.Itoa(int(t.id))
}

var smtName = map[Op]string{OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpNot: "bvnot", OpNeg: "bvneg",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpSlt: "bvslt",
	OpBNot: "not", OpBAnd: "and"}

func nodeText(t *Term) string {
	switch t.op {
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, ref(t.a))
	}
	n := "(" + smtName[t.op] + " " + ref(t.a)
	if t.b != nil {
		n += " " + ref(t.b)
	}
	if t.c != nil {
		n += " " + ref(t.c)
	}
	return n + ")"
}

func emitTo(w io.Writer, t *Term, done func(*Term) bool) {
	if t.op == OpConst || done(t) {
		return
	}
	// iterative post-order to avoid deep recursion surprises is unnecessary in Go
	if t.op == OpVar {
		fmt.Fprintf(w, "(declare-const %s %s)\n", t.name, sortName(t.w))
		return
	}
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			emitTo(w, x, done)
		}
	}
	fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), nodeText(t))
}

func (s *Solver) emit(t *Term) {
	if t.op == OpConst {
		return
	}
	if int(t.id) < len(s.emitted) && s.emitted[t.id] {
		return
	}
	emitTo(s.in, t, func(x *Term) bool {
		if int(x.id) >= len(s.emitted) {
			n := make([]bool, len(s.ctx.terms)*2+1024)
			copy(n, s.emitted)
			s.emitted = n
		}
		if s.emitted[x.id] {
			return true
		}
		s.emitted[x.id] = true
		return false
	})
}

// varBound is the intrinsic range constraint of a variable (nil if none).
func (c *Ctx) varBound(v *Term) string {
	m := mask(v.w)
	if v.w == 0 || (v.lo == 0 && v.hi == m) {
		return ""
	}
	return fmt.Sprintf("(and (bvule (_ bv%d %d) %s) (bvule %s (_ bv%d %d)))", v.lo, v.w, v.name, v.name, v.hi, v.w)
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		t := pc[i]
		s.emit(t)
		if t.op == OpVar && t.w != 0 {
			// declaration marker: assert its range
			fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", s.ctx.varBound(t))
		} else {
			fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", ref(t))
		}
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) readUntil(mark string) ([]string, error) {
	var lines []string
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if err != nil {
			return lines, err
		}
		if l == mark || l == "\""+mark+"\"" {
			return lines, nil
		}
		lines = append(lines, l)
	}
}

// Check decides pc /\ extra. On Sat and with vars != nil a model is returned.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, Model) {
	t0 := time.Now()
	defer func() { s.st.Time += time.Since(t0) }()
	s.st.Queries++
	s.age++
	if s.age > 20000 || s.slow { // an old process is large, and slower
		s.Close()
		s.start()
	}
	var r Result
	var m Model
	if s.hard(pc, extra) { // incremental z3 does badly on these
		r, m = s.checkOther(pc, extra, vars, false)
	} else {
		r, m = s.check1(pc, extra, vars)
		if r == Sat && !s.holds(pc, extra, vars, m) {
			s.st.BadModels++
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "solver: refused a model of the incremental process, age %d, %v\n", s.age, time.Since(t0))
			}
			s.dead = true
			r, m = Unknown, nil
		}
		s.slow = s.age > 20 && time.Since(t0) > 250*time.Millisecond
	}
	if r == Unknown {
		s.st.Fallback++
		r, m = s.checkOther(pc, extra, vars, false)
	} else if s.crossN > 0 && s.st.Queries%s.crossN == 0 {
		r2, _ := s.checkOther(pc, extra, nil, true)
		if r2 != Unknown {
			s.st.CrossChecked++
			if r2 != r {
				s.st.CrossDisagree++
				r = Unknown
			}
		}
	}
	switch r {
	case Sat:
		s.st.Sat++
	case Unsat:
		s.st.Unsat++
	default:
		s.st.Unknown++
	}
	return r, m
}

// holds evaluates a query under the model a solver gave for it: no answer "sat" is
// believed without a model that satisfies it.
func (s *Solver) holds(pc []*Term, extra *Term, vars []*Term, m Model) bool {
	if len(vars) == 0 {
		return true // a cross-check: only its verdict counts
	}
	s.ctx.NewEval()
	for _, v := range vars {
		if x, ok := m[v]; ok && v.w != 0 && (x < v.lo || x > v.hi) {
			return false
		}
	}
	for _, t := range pc {
		if t.op == OpVar && t.w != 0 {
			continue // the declaration of a variable
		}
		if s.ctx.Eval(t, m) == 0 {
			return false
		}
	}
	return extra == nil || s.ctx.Eval(extra, m) != 0
}

// hard says whether a query contains a product or quotient of two variable terms.
func (s *Solver) hard(pc []*Term, extra *Term) bool {
	for _, t := range pc {
		if s.nonlinear(t) {
			return true
		}
	}
	return extra != nil && s.nonlinear(extra)
}

func (s *Solver) nonlinear(t *Term) bool {
	if int(t.id) >= len(s.nl) {
		n := make([]uint8, len(s.ctx.terms)*2+1024)
		copy(n, s.nl)
		s.nl = n
	}
	if v := s.nl[t.id]; v != 0 {
		return v == 2
	}
	res := false
	switch t.op {
	case OpMul, OpUDiv, OpURem, OpSDiv, OpSRem:
		res = t.a.op != OpConst && t.b.op != OpConst && t.w > 16
	}
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil && !res {
			res = s.nonlinear(x)
		}
	}
	s.nl[t.id] = 1
	if res {
		s.nl[t.id] = 2
	}
	return res
}

func (s *Solver) check1(pc []*Term, extra *Term, vars []*Term) (Result, Model) {
	if s.dead {
		s.Close()
		s.start()
		s.dead = false
	}
	s.sync(pc)
	for _, v := range vars {
		s.emit(v)
	}
	s.seq++
	mark := "m" + strconv.Itoa(s.seq)
	if extra != nil {
		s.emit(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", ref(extra))
	}
	fmt.Fprintf(s.in, "(check-sat)\n(echo \"%s\")\n", mark)
	s.in.Flush()
	// z3 is given no time limit of its own: after one has run out, the next answers of the
	// same process can be wrong (z3-new gave models that its assertions exclude)
	proc := s.cmd.Process
	dog := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond, func() { proc.Kill() })
	lines, err := s.readUntil(mark)
	fired := !dog.Stop()
	res := Unknown
	if fired {
		s.dead = true
		return Unknown, nil
	}
	if err != nil {
		s.dead = true
		s.st.Errors++
		return Unknown, nil
	}
	for _, l := range lines {
		if strings.HasPrefix(l, "(error") {
			s.st.Errors++
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver:", l)
			}
			s.dead = true
			return Unknown, nil
		}
		switch l {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		}
	}
	if res == Unknown {
		s.dead = true
		return Unknown, nil
	}
	var m Model
	if res == Sat && len(vars) > 0 {
		var b strings.Builder
		b.WriteString("(get-value (")
		for _, v := range vars {
			b.WriteString(v.name)
			b.WriteByte(' ')
		}
		b.WriteString("))\n")
		s.in.WriteString(b.String())
		fmt.Fprintf(s.in, "(echo \"%s\")\n", mark)
		s.in.Flush()
		lines, err := s.readUntil(mark)
		if err != nil {
			s.dead = true
			s.st.Errors++
			return Unknown, nil
		}
		m = parseModel(strings.Join(lines, " "), vars)
		if m == nil {
			s.st.Errors++
			s.dead = true
			return Unknown, nil
		}
	}
	if extra != nil {
		s.in.WriteString("(pop 1)\n")
	}
	return res, m
}

func parseModel(text string, vars []*Term) Model {
	if strings.Contains(text, "(error") {
		return nil
	}
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.name] = v
	}
	m := Model{}
	f := strings.FieldsFunc(text, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	for i := 0; i+1 < len(f); i += 2 {
		v := byName[f[i]]
		if v == nil {
			return nil
		}
		x := f[i+1]
		switch {
		case x == "true":
			m[v] = 1
		case x == "false":
			m[v] = 0
		case strings.HasPrefix(x, "#x"):
			n, err := strconv.ParseUint(x[2:], 16, 64)
			if err != nil {
				return nil
			}
			m[v] = n
		case strings.HasPrefix(x, "#b"):
			n, err := strconv.ParseUint(x[2:], 2, 64)
			if err != nil {
				return nil
			}
			m[v] = n
		case x == "_" && i+3 < len(f) && strings.HasPrefix(f[i+2], "bv"):
			n, err := strconv.ParseUint(f[i+2][2:], 10, 64)
			if err != nil {
				return nil
			}
			m[v] = n
			i += 2
		default:
			return nil
		}
	}
	return m
}

// checkOther asks one-shot processes (z3 without incremental mode, cvc5, cvc5 with
// integer blasting) and takes the first definite answer; a cross-check leaves z3 out.
func (s *Solver) checkOther(pc []*Term, extra *Term, vars []*Term, cross bool) (Result, Model) {
	var b bytes.Buffer
	b.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	done := map[*Term]bool{}
	em := func(t *Term) {
		emitTo(&b, t, func(x *Term) bool {
			if done[x] {
				return true
			}
			done[x] = true
			return false
		})
	}
	for _, v := range vars {
		em(v)
	}
	for _, t := range pc {
		em(t)
		if t.op == OpVar && t.w != 0 {
			fmt.Fprintf(&b, "(assert %s)\n", s.ctx.varBound(t))
		} else {
			fmt.Fprintf(&b, "(assert %s)\n", ref(t))
		}
	}
	if extra != nil {
		em(extra)
		fmt.Fprintf(&b, "(assert %s)\n", ref(extra))
	}
	b.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		b.WriteString("(get-value (")
		for _, v := range vars {
			b.WriteString(v.name + " ")
		}
		b.WriteString("))\n")
	}
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", d, os.Getpid(), time.Now().UnixNano()), b.Bytes(), 0o644)
	}
	var racers [][]string
	if !cross {
		racers = append(racers, []string{s.path, "-in", "-memory:3000"}, []string{"z3", "-in", "-memory:3000"})
	}
	racers = append(racers, []string{"cvc5", "--lang", "smt2", "--solve-bv-as-int=sum", "-"},
		[]string{"cvc5", "--lang", "smt2", "-"})
	limit := 60 * time.Second
	if cross {
		limit = 20 * time.Second
	}
	cx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	type answer struct {
		r Result
		m Model
	}
	ch := make(chan answer, len(racers))
	text := b.String()
	for i, args := range racers {
		go func() {
			if i > 0 { // the later ones only join in if the first is not quick
				select {
				case <-cx.Done():
					ch <- answer{Unknown, nil}
					return
				case <-time.After(time.Duration(i*i) * 150 * time.Millisecond):
				}
			}
			r, m := oneShot(cx, args, text, vars)
			ch <- answer{r, m}
		}()
	}
	for range racers {
		x := <-ch
		if x.r == Sat && !s.holds(pc, extra, vars, x.m) {
			s.st.BadModels++
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver: refused a model of a one-shot process")
			}
			continue
		}
		if x.r != Unknown {
			return x.r, x.m
		}
	}
	return Unknown, nil
}

func oneShot(cx context.Context, args []string, text string, vars []*Term) (Result, Model) {
	cmd := exec.CommandContext(cx, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(text)
	out, _ := cmd.Output()
	txt := string(out)
	i := strings.IndexByte(txt, '\n')
	if i < 0 {
		return Unknown, nil
	}
	switch strings.TrimSpace(txt[:i]) {
	case "unsat":
		return Unsat, nil
	case "sat":
		if len(vars) == 0 {
			return Sat, Model{}
		}
		m := parseModel(strings.ReplaceAll(txt[i+1:], "\n", " "), vars)
		if m == nil {
			return Unknown, nil
		}
		return Sat, m
	}
	return Unknown, nil
}
