package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type dkind uint8

const (
	dBranch dkind = iota
	dTake
	dExcl
	dAssert
)

type dec struct {
	kind    dkind
	implied bool // already entailed by the path condition: not asserted
	val     uint64
}

type item struct {
	job    *Job
	prefix []dec
	vals   []uint64 // model values of the variables in creation order
}

type obsRec struct {
	name string
	vals []value
}

type Violation struct {
	Job    *Job
	Label  string
	Kind   string // assert, panic, steps, depth, alloc
	Where  string
	Vals   []uint64
	Ops    string
	Native string
}

type sample struct {
	vals []uint64
	obs  []string
	out  string
}

// Job is one harness function under exploration.
type Job struct {
	Name     string
	fn       *ssa.Function
	mu       sync.Mutex
	Paths    int // completed paths
	Ended    int // cut by an assumption
	Decs     int
	Asserts  map[string]int
	Covers   map[string]int
	Unsup    map[string]int
	Limits   map[string]int
	NUnsup   int
	Viols    []*Violation
	vcount   map[string]int
	Samples  []*sample
	nsamp    int
	queue    []*item
	busy     int           // workers on it
	spent    time.Duration // guarded by the engine's lock
	Dropped  int
	Steps    int64
	MaxDecs  int
	Bounds   map[string]int
	stop     bool
	Time     time.Duration
	rng      *rand.Rand
	deadline time.Time
	maxVars  int
	unk      int
}

type Engine struct {
	prog      *ssa.Program
	fset      *token.FileSet
	repo      string
	sizes     types.Sizes
	lib       *ssa.Package
	models    *ssa.Package
	mcsv      *ssa.Package      // model of csvutil
	embeds    map[string]string // contents of //go:embed variables
	canon     sync.Map
	rtErrType types.Type
	tier      string
	solver    string
	seed      int64
	mu        sync.Mutex
	cond      *sync.Cond
	queued    int
	active    int
	deadline  time.Time
	firstOnly bool // stop at the first counterexample (tools/mutate.py)
	found     atomic.Bool
	jobs      []*Job
	notes     map[string]int
	funcs     map[string]int
	st        []*SolverStats
	maxSteps  int
	nWorkers  int
	maxViol   int
	timeout   int
	cross     int
	memLimit  bool
}

func (e *Engine) note(s string) {
	e.mu.Lock()
	if len(s) > 300 {
		s = s[:300]
	}
	e.notes[s]++
	e.mu.Unlock()
}

type Worker struct {
	on        *Job // the harness the worker keeps to
	since     time.Time
	id        int
	eng       *Engine
	ctx       *Ctx
	sol       *Solver
	st        *SolverStats
	globals   map[*ssa.Global]*value
	pkgState  map[*ssa.Package]int
	fns       map[*ssa.Function]*cfunc
	methods   map[methKey]*ssa.Function
	impl      map[implKey]bool
	logging   bool
	undo      []undoRec
	nOpaque   int
	inInit    int
	steps     int
	maxSteps  int
	depth     int
	callStack []*cfunc
	arena     []value
	asp       int
	spec      bool
	natState  map[string]any

	// path state
	job    *Job
	prefix []dec
	pos    int
	trace  []dec
	pc     []*Term
	vars   []*Term
	hints  []uint64
	model  Model
	facts  map[*Term]*Term
	memo   map[*Term]*Term
	pb     map[*Term][2]uint64
	inputs []*Term
	obs    []obsRec
	covers []string
	nAss   map[string]int
}

func newWorker(e *Engine, id int, st *SolverStats) *Worker {
	w := &Worker{id: id, eng: e, st: st}
	w.reset()
	return w
}

func (w *Worker) reset() {
	if w.sol != nil {
		w.sol.Close()
	}
	w.ctx = NewCtx()
	w.sol = NewSolver(w.ctx, w.st, w.eng.solver, w.eng.timeout)
	w.sol.crossN = w.eng.cross
	w.flushFuncs()
	w.globals = map[*ssa.Global]*value{}
	w.pkgState = map[*ssa.Package]int{}
	w.fns = map[*ssa.Function]*cfunc{}
	w.methods = map[methKey]*ssa.Function{}
	w.impl = map[implKey]bool{}
	w.maxSteps = w.eng.maxSteps
	w.arena = make([]value, 1<<19)
	w.natState = map[string]any{}
}

func (w *Worker) flushFuncs() {
	if w.fns == nil {
		return
	}
	w.eng.mu.Lock()
	for _, cf := range w.fns {
		if cf.inRepo && cf.hits > 0 {
			w.eng.funcs[cf.name] += cf.hits
		}
		cf.hits = 0
	}
	w.eng.mu.Unlock()
}

// ------------------------------------------------------------- symbolic core

func (w *Worker) newVar(wd uint8, lo, hi uint64) *Term {
	if w.inInit > 0 {
		unsup("symbolic input during package initialisation")
	}
	if w.spec {
		panic(specAbort{})
	}
	i := len(w.vars)
	t := w.ctx.Var(fmt.Sprintf("i%d", i), wd, lo, hi)
	w.vars = append(w.vars, t)
	if i < len(w.hints) {
		w.model[t] = w.hints[i]
	} else {
		w.model[t] = lo
	}
	if wd != 0 && (lo != 0 || hi != mask(wd)) {
		w.pc = append(w.pc, t)
	}
	w.inputs = append(w.inputs, t)
	return t
}

func (w *Worker) pbounds(t *Term) (uint64, uint64) { return w.pbnd(t, 0) }

func (w *Worker) pbnd(t *Term, depth int) (uint64, uint64) {
	lo, hi := t.lo, t.hi
	if t.op == OpConst {
		return lo, hi
	}
	if b, ok := w.pb[t]; ok {
		lo, hi = max(lo, b[0]), min(hi, b[1])
	}
	if depth < 6 && len(w.pb) > 0 {
		m := mask(t.w)
		switch t.op {
		case OpZExt:
			a, b := w.pbnd(t.a, depth+1)
			lo, hi = max(lo, a), min(hi, b)
		case OpAdd:
			a, b := w.pbnd(t.a, depth+1)
			c, d := w.pbnd(t.b, depth+1)
			if b <= m-d {
				lo, hi = max(lo, a+c), min(hi, b+d)
			} else if t.b.op == OpConst {
				nk := (-t.b.k) & m
				if a >= nk {
					lo, hi = max(lo, a-nk), min(hi, b-nk)
				}
			}
		case OpSub:
			a, b := w.pbnd(t.a, depth+1)
			c, d := w.pbnd(t.b, depth+1)
			if a >= d {
				lo, hi = max(lo, a-d), min(hi, b-c)
			}
		case OpShl:
			if t.b.op == OpConst && t.b.k < 64 {
				a, b := w.pbnd(t.a, depth+1)
				if b <= m>>t.b.k {
					lo, hi = max(lo, a<<t.b.k), min(hi, b<<t.b.k)
				}
			}
		case OpLShr:
			if t.b.op == OpConst && t.b.k < 64 {
				a, b := w.pbnd(t.a, depth+1)
				lo, hi = max(lo, a>>t.b.k), min(hi, b>>t.b.k)
			}
		case OpUDiv:
			if t.b.op == OpConst && t.b.k > 0 {
				a, b := w.pbnd(t.a, depth+1)
				lo, hi = max(lo, a/t.b.k), min(hi, b/t.b.k)
			}
		case OpExtract:
			if t.k == 0 {
				a, b := w.pbnd(t.a, depth+1)
				if b <= m {
					lo, hi = max(lo, a), min(hi, b)
				}
			}
		case OpIte:
			if t.w > 0 {
				a, b := w.pbnd(t.b, depth+1)
				c, d := w.pbnd(t.c, depth+1)
				lo, hi = max(lo, min(a, c)), min(hi, max(b, d))
			}
		}
	}
	if lo > hi { // inconsistent path
		return t.lo, t.hi
	}
	return lo, hi
}

func (w *Worker) simp(t *Term) *Term {
	if t.op == OpConst {
		return t
	}
	if len(w.facts) > 0 {
		t = w.ctx.Subst(t, w.facts, w.memo)
		if t.op == OpConst {
			return t
		}
	}
	if t.w == 0 && len(w.pb) > 0 {
		if r := w.decide(t); r >= 0 {
			return w.ctx.Bool(r == 1)
		}
	} else if t.w > 0 {
		if lo, hi := w.pbounds(t); lo == hi {
			return w.ctx.Const(t.w, lo)
		}
	}
	return t
}

// decide evaluates a condition from path bounds: 1 true, 0 false, -1 unknown.
func (w *Worker) decide(t *Term) int {
	switch t.op {
	case OpConst:
		return int(t.k)
	case OpBNot:
		if r := w.decide(t.a); r >= 0 {
			return 1 - r
		}
	case OpUlt:
		a, b := w.pbounds(t.a)
		c, d := w.pbounds(t.b)
		if b < c {
			return 1
		}
		if a >= d {
			return 0
		}
	case OpEq:
		if t.a.w == 0 {
			return -1
		}
		a, b := w.pbounds(t.a)
		c, d := w.pbounds(t.b)
		if b < c || d < a {
			return 0
		}
	case OpSlt:
		h := uint64(1) << (t.a.w - 1)
		a, b := w.pbounds(t.a)
		c, d := w.pbounds(t.b)
		if (b < h || a >= h) && (d < h || c >= h) {
			a, b, c, d = a^h, b^h, c^h, d^h
			if b < c {
				return 1
			}
			if a >= d {
				return 0
			}
		}
	case OpBAnd:
		r1, r2 := w.decide(t.a), w.decide(t.b)
		if r1 == 0 || r2 == 0 {
			return 0
		}
		if r1 == 1 && r2 == 1 {
			return 1
		}
	}
	return -1
}

func (w *Worker) narrow(x *Term, lo, hi uint64) {
	if x.op == OpConst {
		return
	}
	l, h := w.pbounds(x)
	if lo > l {
		l = lo
	}
	if hi < h {
		h = hi
	}
	if l > h {
		return
	}
	w.pb[x] = [2]uint64{l, h}
	if x.op == OpZExt {
		w.narrow(x.a, l, min(h, mask(x.a.w)))
	}
	if x.op == OpAdd && x.b.op == OpConst {
		_, ah := w.pbounds(x.a)
		if ah <= mask(x.w)-x.b.k && l >= x.b.k {
			w.narrow(x.a, l-x.b.k, h-x.b.k)
		}
	}
	if l == h {
		w.facts[x] = w.ctx.Const(x.w, l)
	}
}

func (w *Worker) addFact(c *Term, val bool) {
	if c.op == OpConst {
		return
	}
	if c.op == OpBNot {
		w.addFact(c.a, !val)
		return
	}
	w.facts[c] = w.ctx.Bool(val)
	switch c.op {
	case OpBAnd:
		if val {
			w.addFact(c.a, true)
			w.addFact(c.b, true)
		}
	case OpEq:
		if val && c.a.w > 0 {
			if c.b.op == OpConst {
				w.facts[c.a] = c.b
				w.narrow(c.a, c.b.k, c.b.k)
			}
		} else if !val && c.b.op == OpConst && c.a.w > 0 {
			lo, hi := w.pbounds(c.a)
			if c.b.k == lo && lo < hi {
				w.narrow(c.a, lo+1, hi)
			} else if c.b.k == hi && lo < hi {
				w.narrow(c.a, lo, hi-1)
			}
		}
	case OpUlt:
		al, ah := w.pbounds(c.a)
		bl, bh := w.pbounds(c.b)
		if val { // a < b
			if bh > 0 {
				w.narrow(c.a, 0, bh-1)
			}
			if al < ^uint64(0) {
				w.narrow(c.b, al+1, mask(c.b.w))
			}
		} else { // a >= b
			w.narrow(c.a, bl, mask(c.a.w))
			w.narrow(c.b, 0, ah)
		}
	case OpSlt:
		h := uint64(1) << (c.a.w - 1)
		al, ah := w.pbounds(c.a)
		bl, bh := w.pbounds(c.b)
		if val { // a <s b
			if al < h && ah < h && bl < h && bh < h {
				w.narrow(c.a, 0, bh-1)
				w.narrow(c.b, al+1, h-1)
			} else if al < h && ah < h { // a >= 0 => b > 0
				w.narrow(c.b, al+1, h-1)
			} else if c.b.op == OpConst && c.b.k == 0 {
				w.narrow(c.a, h, mask(c.a.w))
			}
		} else { // a >=s b
			if bh < h { // b non-negative => a non-negative
				w.narrow(c.a, bl, h-1)
			}
			if ah < h && bh < h {
				w.narrow(c.b, 0, ah)
			}
		}
	}
}

func (w *Worker) assertPC(c *Term) {
	w.pc = append(w.pc, c)
	w.addFact(c, true)
	clear(w.memo)
}

func (w *Worker) learn(c *Term) { // implied: no need to assert
	w.addFact(c, true)
	clear(w.memo)
}

func (w *Worker) setModel(m Model) {
	for k, v := range m {
		w.model[k] = v
	}
}

func (w *Worker) modelVals(m Model) []uint64 {
	r := make([]uint64, len(w.vars))
	for i, v := range w.vars {
		x, ok := m[v]
		if !ok {
			x = w.model[v]
		}
		r[i] = x
	}
	return r
}

func (w *Worker) evalModel(t *Term) uint64 {
	w.ctx.NewEval()
	return w.ctx.Eval(t, w.model)
}

func (w *Worker) fork(d dec, m Model) {
	w.job.mu.Lock()
	stop := w.job.stop
	w.job.mu.Unlock()
	if stop {
		return
	}
	p := make([]dec, len(w.trace)+1)
	copy(p, w.trace)
	p[len(w.trace)] = d
	w.eng.push(&item{job: w.job, prefix: p, vals: w.modelVals(m)})
}

func (w *Worker) checkStop() {
	if w.eng.expired() || time.Now().After(w.job.deadline) {
		panic(endPath{"timeout"})
	}
}

func (w *Worker) unknownAt(what string) {
	w.job.mu.Lock()
	w.job.unk++
	w.job.mu.Unlock()
	w.eng.note("solver gave no answer: " + what + " at " + w.where())
}

func (w *Worker) branch(c *Term) bool {
	if c.op == OpConst {
		return c.k != 0
	}
	c = w.simp(c)
	if c.op == OpConst {
		return c.k != 0
	}
	if w.spec {
		panic(specAbort{})
	}
	if w.inInit > 0 {
		unsup("symbolic branch during package initialisation")
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		if d.kind != dBranch {
			panic(fatalEngine{"replay mismatch: branch"})
		}
		w.trace = append(w.trace, d)
		l := c
		if d.val == 0 {
			l = w.ctx.BNot(c)
		}
		if d.implied {
			w.learn(l)
		} else {
			w.assertPC(l)
		}
		return d.val != 0
	}
	w.checkStop()
	v := w.evalModel(c) != 0
	this, other := c, w.ctx.BNot(c)
	if !v {
		this, other = other, this
	}
	r, m := w.sol.Check(w.pc, other, w.vars)
	implied := false
	switch r {
	case Sat:
		w.fork(dec{kind: dBranch, val: b2u(!v)}, m)
	case Unsat:
		implied = true
	default:
		w.unknownAt("branch")
	}
	w.trace = append(w.trace, dec{dBranch, implied, b2u(v)})
	if implied {
		w.learn(this)
	} else {
		w.assertPC(this)
	}
	return v
}

func (w *Worker) concretize(t *Term) uint64 {
	if t.op == OpConst {
		return t.k
	}
	n := 0
	for {
		t = w.simp(t)
		if t.op == OpConst {
			return t.k
		}
		if w.spec {
			panic(specAbort{})
		}
		if w.inInit > 0 {
			unsup("symbolic value during package initialisation")
		}
		if w.pos < len(w.prefix) {
			d := w.prefix[w.pos]
			w.pos++
			w.trace = append(w.trace, d)
			eq := w.ctx.Eq(t, w.ctx.Const(t.w, d.val))
			switch d.kind {
			case dTake:
				if d.implied {
					w.learn(eq)
				} else {
					w.assertPC(eq)
				}
				return d.val
			case dExcl:
				w.assertPC(w.ctx.BNot(eq))
				n++
				continue
			default:
				panic(fatalEngine{"replay mismatch: concretize"})
			}
		}
		w.checkStop()
		v := w.evalModel(t)
		eq := w.ctx.Eq(t, w.ctx.Const(t.w, v))
		implied := false
		if n > 4100 {
			w.eng.note("enumeration of values cut: " + w.where())
			w.job.mu.Lock()
			w.job.Dropped++
			w.job.mu.Unlock()
		} else {
			r, m := w.sol.Check(w.pc, w.ctx.BNot(eq), w.vars)
			switch r {
			case Sat:
				w.fork(dec{kind: dExcl, val: v}, m)
			case Unsat:
				implied = true
			default:
				w.unknownAt("concretize")
			}
		}
		w.trace = append(w.trace, dec{dTake, implied, v})
		if implied {
			w.learn(eq)
		} else {
			w.assertPC(eq)
		}
		return v
	}
}

// choose forks one path per value of a fresh variable in [0,n). Every value of
// a fresh variable is feasible, so no query is needed.
func (w *Worker) choose(n uint64) uint64 {
	if n == 0 {
		panic(endPath{"empty choice"})
	}
	v := w.newVar(64, 0, n-1)
	if n == 1 {
		return 0
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		if d.kind != dTake {
			panic(fatalEngine{"replay mismatch: choose"})
		}
		w.trace = append(w.trace, d)
		w.model[v] = d.val
		w.assertPC(w.ctx.Eq(v, w.ctx.Const(64, d.val)))
		return d.val
	}
	w.checkStop()
	for k := n - 1; k > 0; k-- {
		w.fork(dec{kind: dTake, val: k}, Model{v: k})
	}
	w.trace = append(w.trace, dec{dTake, false, 0})
	w.model[v] = 0
	w.assertPC(w.ctx.Eq(v, w.ctx.Const(64, 0)))
	return 0
}

func (w *Worker) assume(c *Term) {
	c = w.simp(c)
	if c.op == OpConst {
		if c.k == 0 {
			panic(endPath{"assume"})
		}
		return
	}
	if w.evalModel(c) != 0 {
		w.assertPC(c)
		return
	}
	w.checkStop()
	r, m := w.sol.Check(w.pc, c, w.vars)
	switch r {
	case Sat:
		w.setModel(m)
		w.assertPC(c)
	case Unsat:
		panic(endPath{"assume"})
	default:
		w.unknownAt("assume")
		panic(endPath{"unknown"})
	}
}

func (w *Worker) violation(kind, label, where string, m Model) {
	w.eng.found.Store(true)
	v := &Violation{Job: w.job, Label: label, Kind: kind, Where: where, Vals: w.modelVals(m)}
	j := w.job
	j.mu.Lock()
	defer j.mu.Unlock()
	key := kind + "|" + label
	j.vcount[key]++
	if j.vcount[key] <= 4 {
		j.Viols = append(j.Viols, v)
	}
	if j.vcount[key] >= w.eng.maxViol {
		j.stop = true
	}
}

func (w *Worker) assert(c *Term, label string) {
	w.nAss[label]++
	c = w.simp(c)
	if c.op == OpConst {
		if c.k == 0 {
			w.violation("assert", label, w.where(), nil)
			panic(endPath{"violation"})
		}
		return
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		if d.kind != dAssert {
			panic(fatalEngine{"replay mismatch: assert"})
		}
		w.trace = append(w.trace, d)
		if d.implied {
			w.learn(c)
		} else {
			w.assertPC(c)
		}
		return
	}
	w.checkStop()
	neg := w.ctx.BNot(c)
	r, m := w.sol.Check(w.pc, neg, w.vars)
	switch r {
	case Unsat:
		w.trace = append(w.trace, dec{dAssert, true, 1})
		w.learn(c)
	case Sat:
		w.violation("assert", label, w.where(), m)
		if w.evalModel(c) == 0 {
			r, m := w.sol.Check(w.pc, c, w.vars)
			if r != Sat {
				panic(endPath{"violation"})
			}
			w.setModel(m)
		}
		w.trace = append(w.trace, dec{dAssert, false, 1})
		w.assertPC(c)
	default:
		w.unknownAt("assertion " + label)
		w.trace = append(w.trace, dec{dAssert, false, 1})
		if w.evalModel(c) == 0 {
			w.violation("assert", label, w.where(), nil)
			panic(endPath{"violation"})
		}
		w.assertPC(c)
	}
}

// ------------------------------------------------------------------- queueing

func (e *Engine) expired() bool { return time.Now().After(e.deadline) || e.firstOnly && e.found.Load() }

func (e *Engine) push(it *item) {
	e.mu.Lock()
	it.job.queue = append(it.job.queue, it)
	e.queued++
	e.cond.Signal()
	e.mu.Unlock()
}

// stay is how long a worker keeps to one harness before the harnesses are weighed
// against each other again.
const stay = 2 * time.Second

// pop takes the newest item of the harness on which least time has been spent.
func (e *Engine) pop(w *Worker) *item {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.queued > 0 {
			j := w.on
			if j == nil || len(j.queue) == 0 || time.Since(w.since) > stay {
				j = nil
				for _, x := range e.jobs {
					if len(x.queue) > 0 && (j == nil || x.spent+time.Duration(x.busy)*stay < j.spent+time.Duration(j.busy)*stay) {
						j = x
					}
				}
				w.on, w.since = j, time.Now()
			}
			n := len(j.queue)
			it := j.queue[n-1]
			j.queue = j.queue[:n-1]
			j.busy++
			e.queued--
			e.active++
			return it
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) done(j *Job, d time.Duration) {
	e.mu.Lock()
	e.active--
	j.busy--
	j.spent += d
	if e.active == 0 && e.queued == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (w *Worker) loop() {
	for {
		it := w.eng.pop(w)
		if it == nil {
			break
		}
		j := it.job
		var d time.Duration
		j.mu.Lock()
		stop := j.stop
		j.mu.Unlock()
		if stop || w.eng.expired() || time.Now().After(j.deadline) {
			j.mu.Lock()
			j.Dropped++
			j.mu.Unlock()
		} else {
			t0 := time.Now()
			w.runPath(it)
			d = time.Since(t0)
			j.mu.Lock()
			j.Time += d
			j.mu.Unlock()
			if len(w.ctx.terms) > 4_000_000 {
				w.reset()
			}
		}
		w.eng.done(j, d)
	}
	w.flushFuncs()
	w.sol.Close()
}

func (w *Worker) runPath(it *item) {
	w.job = it.job
	w.prefix, w.pos = it.prefix, 0
	w.trace = nil
	w.pc = w.pc[:0:0]
	w.vars = nil
	w.hints = it.vals
	w.model = Model{}
	w.facts = map[*Term]*Term{}
	w.memo = map[*Term]*Term{}
	w.pb = map[*Term][2]uint64{}
	w.inputs, w.obs, w.covers = nil, nil, nil
	w.nAss = map[string]int{}
	w.steps, w.depth, w.asp = 0, 0, 0
	w.callStack = w.callStack[:0]
	w.spec = false
	w.inInit = 0
	w.logging = true
	clear(w.natState)

	why := "ok"
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			w.spec = false
			switch x := r.(type) {
			case endPath:
				why = "end:" + x.why
			case targetPanic:
				why = "panic"
				w.violation("panic", "uncaught panic: "+w.describe(x.v), x.where, nil)
			case unsupported:
				why = "unsupported:" + x.msg + " @ " + w.where()
			case limitHit:
				why = "limit"
				w.violation("limit", x.msg, "", nil)
			case fatalEngine:
				why = "unsupported:engine " + x.msg
				w.eng.note("ENGINE " + x.msg + " " + w.where())
			case specAbort:
				why = "unsupported:engine stray speculation"
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", r, debug.Stack())
				}
				if re, ok := r.(runtime.Error); ok {
					why = "unsupported:engine " + re.Error() + " @ " + w.where()
				} else {
					why = fmt.Sprintf("unsupported:engine %v", r)
				}
			}
		}()
		w.call(w.job.fn, nil, nil, nil)
	}()
	w.logging = false
	var smp *sample
	j := w.job
	if why == "ok" {
		j.mu.Lock()
		j.nsamp++
		keep := len(j.Samples) < maxSamples || j.rng.Intn(j.nsamp) < maxSamples
		j.mu.Unlock()
		if keep {
			smp = &sample{vals: w.modelVals(nil), obs: w.renderObs(), out: "ok"}
		}
	}
	w.rollback()
	j.mu.Lock()
	defer j.mu.Unlock()
	j.Steps += int64(w.steps)
	j.Decs += len(w.trace) - len(w.prefix)
	j.MaxDecs = max(j.MaxDecs, len(w.trace))
	j.maxVars = max(j.maxVars, len(w.vars))
	for l, n := range w.nAss {
		j.Asserts[l] += n
	}
	switch {
	case why == "ok":
		j.Paths++
	case strings.HasPrefix(why, "unsupported:"):
		j.NUnsup++
		j.Unsup[why[12:]]++
	case why == "end:timeout":
		j.Dropped++
	case strings.HasPrefix(why, "end:"):
		j.Ended++
	default:
		j.Paths++
	}
	for _, c := range w.covers {
		j.Covers[c]++
	}
	if smp != nil {
		if len(j.Samples) < maxSamples {
			j.Samples = append(j.Samples, smp)
		} else {
			j.Samples[j.rng.Intn(maxSamples)] = smp
		}
	}
}

const maxSamples = 24

func (w *Worker) describe(v iface) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic of type " + v.t.String()
		}
	}()
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case string:
		return x
	case *Term:
		if x.op == OpConst {
			return fmt.Sprint(x.k)
		}
	}
	return "panic of type " + v.t.String()
}

func (e *Engine) explore() {
	e.cond = sync.NewCond(&e.mu)
	var wg sync.WaitGroup
	// breadth over harnesses first: root items are pushed in reverse
	for i := len(e.jobs) - 1; i >= 0; i-- {
		e.push(&item{job: e.jobs[i]})
	}
	for i := 0; i < e.nWorkers; i++ {
		st := &SolverStats{}
		e.st = append(e.st, st)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			newWorker(e, i, st).loop()
		}(i)
	}
	wg.Wait()
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
