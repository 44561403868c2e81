package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"runtime"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	slot int
	v    value
}

func (o *opnd) get(fr *frame) value {
	if o.slot >= 0 {
		return fr.env[o.slot]
	}
	return o.v
}

type move struct {
	dst int
	src opnd
}

type cedge struct {
	to    *cblock
	moves []move
}

type plan struct {
	instrs []func(*frame)
	leaf   []opnd // phi values (when t == nil)
	cond   opnd
	t, f   *plan
}

type cblock struct {
	idx    int
	instrs []func(*frame)
	term   func(*frame) int // index into succs, -1 return, -2: fr.jump
	succs  []cedge
	// if-conversion
	mplan  *plan
	mjoin  *cblock
	mdsts  []int
	mtried int
}

type cfunc struct {
	fn     *ssa.Function
	nslots int
	slots  map[ssa.Value]int
	blocks []*cblock
	rec    *cblock
	native func(w *Worker, args []value) value
	name   string
	inRepo bool
	hits   int
}

type deferred struct {
	fn   value
	args []value
	bi   *ssa.Builtin
	call *ssa.CallCommon
}

type frame struct {
	w      *Worker
	cf     *cfunc
	env    []value
	defers []deferred
	res    value
	pan    *targetPanic
	recd   bool
	jump   *cblock
	dfr    *frame // frame whose deferred call this is
}

func (w *Worker) throw(msg string) {
	panic(targetPanic{v: iface{w.eng.rtErrType, msg}, fault: true, where: w.where()})
}

func (w *Worker) where() string {
	var names []string
	for i := len(w.callStack) - 1; i >= 0 && len(names) < 8; i-- {
		names = append(names, w.callStack[i].name)
	}
	return strings.Join(names, " < ")
}

// ------------------------------------------------------------------ compiling

func (w *Worker) compiled(fn *ssa.Function) *cfunc {
	if cf, ok := w.fns[fn]; ok {
		return cf
	}
	cf := &cfunc{fn: fn, name: fn.String()}
	w.fns[fn] = cf
	if nat := w.lookupNative(fn); nat != nil {
		cf.native = nat
		return cf
	}
	if fn.Blocks == nil {
		name := cf.name
		cf.native = func(w *Worker, args []value) value {
			unsup("no body: %s", name)
			return nil
		}
		return cf
	}
	pos := w.eng.fset.Position(fn.Pos())
	cf.inRepo = strings.HasPrefix(pos.Filename, w.eng.repo+"/") && !strings.Contains(pos.Filename, "/zz_verif/")
	cf.slots = map[ssa.Value]int{}
	add := func(v ssa.Value) {
		cf.slots[v] = cf.nslots
		cf.nslots++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	cf.blocks = make([]*cblock, len(fn.Blocks))
	for i := range fn.Blocks {
		cf.blocks[i] = &cblock{idx: i}
	}
	for i, b := range fn.Blocks {
		w.compileBlock(cf, b, cf.blocks[i])
	}
	for i, b := range fn.Blocks {
		w.compilePlan(cf, b, cf.blocks[i])
	}
	if fn.Recover != nil {
		cf.rec = cf.blocks[fn.Recover.Index]
	}
	return cf
}

func (w *Worker) operand(cf *cfunc, v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{-1, w.constVal(x)}
	case *ssa.Global:
		return opnd{-1, w.global(x)}
	case *ssa.Function:
		return opnd{-1, &funcval{fn: x}}
	case *ssa.Builtin:
		return opnd{-1, x}
	}
	s, ok := cf.slots[v]
	if !ok {
		unsup("operand %T", v)
	}
	return opnd{slot: s}
}

func (w *Worker) constVal(c *ssa.Const) value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Basic); ok {
		switch {
		case tp.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			n, _ := constant.Int64Val(c.Value)
			return string(rune(n))
		case tp.Info()&types.IsBoolean != 0:
			return w.ctx.Bool(constant.BoolVal(c.Value))
		case tp.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return f
		case tp.Info()&types.IsComplex != 0:
			return poison{}
		}
		wd, _, ok := intInfo(t)
		if ok {
			v := constant.ToInt(c.Value)
			if u, exact := constant.Uint64Val(v); exact {
				return w.ctx.Const(wd, u)
			}
			n, _ := constant.Int64Val(v)
			return w.ctx.Const(wd, uint64(n))
		}
	}
	return poison{}
}

func (w *Worker) global(g *ssa.Global) *value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	p := new(value)
	w.globals[g] = p
	if g.Pkg.Pkg.Path() == "os" {
		switch n := g.Name(); n {
		case "Args", "Stdin", "Stdout", "Stderr":
			*p = w.zero(g.Type().Underlying().(*types.Pointer).Elem())
			return p
		case "ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed":
			if fs := w.eng.prog.ImportedPackage("io/fs"); fs != nil {
				if o, ok := fs.Members[n].(*ssa.Global); ok {
					q := w.global(o)
					w.unpoison(q)
					*p = *q
					return p
				}
			}
		}
	}
	if st := w.pkgState[g.Pkg]; st != 0 || strings.HasPrefix(strings.ToLower(g.Name()), "zz") && g.Pkg.Pkg.Path() == "os" {
		*p = w.zero(g.Type().Underlying().(*types.Pointer).Elem())
	} else {
		*p = poison{what: g.String(), pkg: g.Pkg}
	}
	return p
}

// unpoison initialises the package of the poisoned cell.
func (w *Worker) unpoison(p *value) {
	po, ok := (*p).(poison)
	if !ok {
		return
	}
	if po.pkg == nil {
		unsup("use of an unmodelled value %s", po.what)
	}
	w.initPkg(po.pkg)
	if _, still := (*p).(poison); still {
		unsup("use of uninitialised %s", po.what)
	}
}

func (w *Worker) initPkg(pkg *ssa.Package) {
	switch w.pkgState[pkg] {
	case 1, 2:
		return
	case 3:
		unsup("package %s cannot be initialised", pkg.Pkg.Path())
	}
	if !w.eng.canInit(pkg) {
		unsup("use of package state of %s", pkg.Pkg.Path())
	}
	w.pkgState[pkg] = 1
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			p := w.globals[g]
			if p == nil {
				p = new(value)
				w.globals[g] = p
			}
			et := g.Type().Underlying().(*types.Pointer).Elem()
			*p = w.zero(et)
			if text, ok := w.eng.embeds[pkg.Pkg.Path()+"."+g.Name()]; ok {
				switch et.Underlying().(type) {
				case *types.Basic:
					*p = text
				case *types.Slice:
					b := make([]value, len(text))
					for i := range b {
						b[i] = w.ctx.Const(8, uint64(text[i]))
					}
					*p = b
				}
			}
		}
	}
	ol, os, od, osp := w.logging, w.steps, w.depth, w.spec
	w.logging = false
	w.spec = false
	w.inInit++
	defer func() {
		w.inInit--
		w.logging, w.steps, w.depth, w.spec = ol, os, od, osp
		if r := recover(); r != nil {
			w.pkgState[pkg] = 3
			w.eng.note("init of " + pkg.Pkg.Path() + " failed: " + fmt.Sprint(r))
			panic(r)
		}
	}()
	w.call(pkg.Func("init"), nil, nil, nil)
	w.pkgState[pkg] = 2
}

func pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.DebugRef:
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
	}
	return false
}

func (w *Worker) buildPlan(cf *cfunc, from, b, join *ssa.BasicBlock, depth int) *plan {
	if b == join {
		p := &plan{}
		edge := -1
		for i, pr := range join.Preds {
			if pr == from {
				if edge >= 0 {
					return nil // ambiguous
				}
				edge = i
			}
		}
		for _, in := range join.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			p.leaf = append(p.leaf, w.operand(cf, phi.Edges[edge]))
		}
		return p
	}
	if depth > 4 || len(b.Preds) != 1 || len(b.Instrs) > 14 {
		return nil
	}
	p := &plan{}
	cb := cf.blocks[b.Index]
	n := len(b.Instrs) - 1
	for _, in := range b.Instrs[:n] {
		if !pureInstr(in) {
			return nil
		}
	}
	p.instrs = cb.instrs
	switch t := b.Instrs[n].(type) {
	case *ssa.Jump:
		q := w.buildPlan(cf, b, b.Succs[0], join, depth+1)
		if q == nil {
			return nil
		}
		if q.t == nil && len(q.instrs) == 0 {
			p.leaf = q.leaf
			return p
		}
		q.instrs = append(append([]func(*frame){}, p.instrs...), q.instrs...)
		return q
	case *ssa.If:
		p.cond = w.operand(cf, t.Cond)
		p.t = w.buildPlan(cf, b, b.Succs[0], join, depth+1)
		if p.t == nil {
			return nil
		}
		p.f = w.buildPlan(cf, b, b.Succs[1], join, depth+1)
		if p.f == nil {
			return nil
		}
		return p
	}
	return nil
}

func (w *Worker) compilePlan(cf *cfunc, b *ssa.BasicBlock, cb *cblock) {
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return
	}
	var cands []*ssa.BasicBlock
	var walk func(x *ssa.BasicBlock, d int)
	walk = func(x *ssa.BasicBlock, d int) {
		for _, c := range cands {
			if c == x {
				return
			}
		}
		cands = append(cands, x)
		if d > 0 {
			for _, s := range x.Succs {
				walk(s, d-1)
			}
		}
	}
	walk(b.Succs[0], 3)
	walk(b.Succs[1], 3)
	for _, j := range cands {
		if j == b || len(j.Preds) < 2 {
			continue
		}
		if _, ok := j.Instrs[0].(*ssa.Phi); !ok {
			continue
		}
		t := w.buildPlan(cf, b, b.Succs[0], j, 0)
		if t == nil {
			continue
		}
		f := w.buildPlan(cf, b, b.Succs[1], j, 0)
		if f == nil {
			continue
		}
		cb.mplan = &plan{cond: w.operand(cf, ifi.Cond), t: t, f: f}
		cb.mjoin = cf.blocks[j.Index]
		for _, in := range j.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			cb.mdsts = append(cb.mdsts, cf.slots[phi])
		}
		return
	}
}

type specAbort struct{}

func (w *Worker) runPlan(fr *frame, p *plan) []value {
	for _, in := range p.instrs {
		in(fr)
	}
	if p.t == nil {
		out := make([]value, len(p.leaf))
		for i := range p.leaf {
			out[i] = p.leaf[i].get(fr)
		}
		return out
	}
	c := w.simp(p.cond.get(fr).(*Term))
	if c.op == OpConst {
		if c.k != 0 {
			return w.runPlan(fr, p.t)
		}
		return w.runPlan(fr, p.f)
	}
	a := w.runPlan(fr, p.t)
	b := w.runPlan(fr, p.f)
	for i := range a {
		x, ok1 := a[i].(*Term)
		y, ok2 := b[i].(*Term)
		if ok1 && ok2 && x.w == y.w {
			a[i] = w.ctx.Ite(c, x, y)
			continue
		}
		if s1, ok := a[i].(string); ok {
			if s2, ok := b[i].(string); ok && s1 == s2 {
				continue
			}
		}
		if p1, ok := a[i].(*value); ok {
			if p2, ok := b[i].(*value); ok && p1 == p2 {
				continue
			}
		}
		if i1, ok := a[i].(iface); ok {
			if i2, ok := b[i].(iface); ok && i1.t == nil && i2.t == nil {
				continue
			}
		}
		panic(specAbort{})
	}
	return a
}

// tryMerge evaluates a pure conditional region without forking.
func (w *Worker) tryMerge(fr *frame, cb *cblock) (ok bool) {
	if w.spec {
		return false
	}
	od, oa, ocs := w.depth, w.asp, len(w.callStack)
	w.spec = true
	defer func() {
		w.spec = false
		if r := recover(); r != nil {
			switch r.(type) {
			case specAbort, targetPanic, unsupported:
				w.depth, w.asp = od, oa
				w.callStack = w.callStack[:ocs]
				ok = false
				return
			}
			panic(r)
		}
	}()
	vals := w.runPlan(fr, cb.mplan)
	for i, d := range cb.mdsts {
		fr.env[d] = vals[i]
	}
	return true
}

func (w *Worker) compileBlock(cf *cfunc, b *ssa.BasicBlock, cb *cblock) {
	for si, s := range b.Succs {
		e := cedge{to: cf.blocks[s.Index]}
		// which predecessor edge of s is this?
		nth := 0
		for i := 0; i < si; i++ {
			if b.Succs[i] == s {
				nth++
			}
		}
		pi := -1
		for i, p := range s.Preds {
			if p == b {
				if nth == 0 {
					pi = i
					break
				}
				nth--
			}
		}
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e.moves = append(e.moves, move{cf.slots[phi], w.operand(cf, phi.Edges[pi])})
		}
		cb.succs = append(cb.succs, e)
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			cb.term = func(fr *frame) int { return 0 }
		case *ssa.If:
			c := w.operand(cf, x.Cond)
			cb.term = func(fr *frame) int {
				t := c.get(fr).(*Term)
				if t.op == OpConst {
					return int(1 - t.k)
				}
				w := fr.w
				t = w.simp(t)
				if t.op == OpConst {
					return int(1 - t.k)
				}
				if cb.mplan != nil && w.tryMerge(fr, cb) {
					fr.jump = cb.mjoin
					return -2
				}
				if w.branch(t) {
					return 0
				}
				return 1
			}
		case *ssa.Return:
			switch len(x.Results) {
			case 0:
				cb.term = func(fr *frame) int { return -1 }
			case 1:
				o := w.operand(cf, x.Results[0])
				cb.term = func(fr *frame) int { fr.res = o.get(fr); return -1 }
			default:
				os := make([]opnd, len(x.Results))
				for i, r := range x.Results {
					os[i] = w.operand(cf, r)
				}
				cb.term = func(fr *frame) int {
					t := make(tuple, len(os))
					for i := range os {
						t[i] = os[i].get(fr)
					}
					fr.res = t
					return -1
				}
			}
		case *ssa.Panic:
			o := w.operand(cf, x.X)
			cb.term = func(fr *frame) int {
				v := o.get(fr).(iface)
				panic(targetPanic{v: v, where: fr.w.where()})
			}
		default:
			f := w.compileInstr(cf, in)
			if f != nil {
				cb.instrs = append(cb.instrs, f)
			}
		}
	}
	if cb.term == nil {
		cb.term = func(fr *frame) int { unsup("block without terminator"); return -1 }
	}
}

// -------------------------------------------------------------------- calling

func (w *Worker) alloc(n int) []value {
	if w.asp+n > len(w.arena) {
		sz := max(1<<16, n*2)
		w.arena = make([]value, sz)
		w.asp = 0
	}
	s := w.arena[w.asp : w.asp+n : w.asp+n]
	w.asp += n
	return s
}

func (w *Worker) call(fn *ssa.Function, args []value, env []value, dfr *frame) value {
	cf := w.compiled(fn)
	if cf.native != nil {
		return cf.native(w, args)
	}
	if w.spec {
		panic(specAbort{})
	}
	w.depth++
	if w.depth > maxDepth {
		panic(limitHit{"call depth exceeds " + fmt.Sprint(maxDepth) + ": " + w.where()})
	}
	cf.hits++
	w.callStack = append(w.callStack, cf)
	arena, asp := w.arena, w.asp
	fr := &frame{w: w, cf: cf, env: w.alloc(cf.nslots), dfr: dfr}
	copy(fr.env, args)
	copy(fr.env[len(args):], env)
	if fn.Recover == nil {
		w.run(fr, cf.blocks[0])
	} else {
		w.runRec(fr)
	}
	w.arena, w.asp = arena, asp
	w.callStack = w.callStack[:len(w.callStack)-1]
	w.depth--
	return fr.res
}

func (w *Worker) runRec(fr *frame) {
	depth, cs := w.depth, len(w.callStack)
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if re, ok := r.(runtime.Error); ok {
				panic(unsupported{"engine: " + re.Error() + " at " + w.where()})
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			w.depth = depth
			w.callStack = w.callStack[:cs]
			// the arena may have moved on; it is restored by call()
			fr.pan = &tp
			w.runDefers(fr)
			if fr.pan != nil {
				panic(*fr.pan)
			}
			fr.recd = true
		}()
		w.run(fr, fr.cf.blocks[0])
	}()
	if fr.recd {
		if fr.cf.rec != nil {
			w.run(fr, fr.cf.rec)
		} else {
			fr.res = w.zero(fr.cf.fn.Signature.Results())
		}
	}
}

func (w *Worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, cs := w.depth, len(w.callStack)
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					w.depth = depth
					w.callStack = w.callStack[:cs]
					fr.pan = &tp
				}
			}()
			if d.bi != nil {
				w.callBuiltin(fr, d.bi, d.call, d.args)
				return
			}
			w.callValue(d.fn, d.args, fr)
		}()
	}
}

func (w *Worker) callValue(f value, args []value, dfr *frame) value {
	fv, ok := f.(*funcval)
	if !ok {
		unsup("call of %T", f)
	}
	if fv == nil {
		w.throw("runtime error: invalid memory address or nil pointer dereference")
	}
	if fv.nat != nil {
		return fv.nat(w, args)
	}
	return w.call(fv.fn, args, fv.env, dfr)
}

func (w *Worker) run(fr *frame, b *cblock) {
	var tmp [8]value
	for {
		w.steps++
		if w.steps > w.maxSteps {
			panic(limitHit{fmt.Sprintf("more than %d basic blocks executed: %s", w.maxSteps, w.where())})
		}
		for _, in := range b.instrs {
			in(fr)
		}
		k := b.term(fr)
		if k < 0 {
			if k == -2 {
				b = fr.jump
				continue
			}
			return
		}
		e := &b.succs[k]
		switch n := len(e.moves); {
		case n == 0:
		case n == 1:
			fr.env[e.moves[0].dst] = e.moves[0].src.get(fr)
		case n <= len(tmp):
			for i := range e.moves {
				tmp[i] = e.moves[i].src.get(fr)
			}
			for i := range e.moves {
				fr.env[e.moves[i].dst] = tmp[i]
			}
		default:
			t := make([]value, n)
			for i := range e.moves {
				t[i] = e.moves[i].src.get(fr)
			}
			for i := range e.moves {
				fr.env[e.moves[i].dst] = t[i]
			}
		}
		b = e.to
	}
}

const maxDepth = 2500

// findMethod resolves a dynamic method call.
type methKey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.methods[k] = f
	return f
}

// callMethod calls the named method of an interface value, if it has one.
func (w *Worker) callMethod(x iface, name string, args ...value) (value, bool) {
	ms := w.eng.prog.MethodSets.MethodSet(x.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			fn := w.eng.prog.MethodValue(ms.At(i))
			return w.call(fn, append([]value{x.v}, args...), nil, nil), true
		}
	}
	return nil, false
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := w.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	w.impl[k] = r
	return r
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func floatBits(f float64) uint64 { return math.Float64bits(f) }
