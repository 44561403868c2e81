package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

const nilDeref = "runtime error: invalid memory address or nil pointer dereference"

// deref resolves an address operand to a single cell, checking for nil.
func (w *Worker) cell(a value) *value {
	switch p := a.(type) {
	case *value:
		if p == nil {
			w.throw(nilDeref)
		}
		if _, bad := (*p).(poison); bad {
			w.unpoison(p)
		}
		return p
	case *symPtr:
		return w.concPtr(p)
	case poison:
		unsup("use of uninitialised %s", p.what)
	}
	unsup("dereference of %T", a)
	return nil
}

func (w *Worker) concPtr(p *symPtr) *value {
	return p.cells[w.concretize(p.idx)]
}

func (w *Worker) load(a value) value {
	if p, ok := a.(*value); ok {
		if p == nil {
			w.throw(nilDeref)
		}
		v := *p
		if _, bad := v.(poison); bad {
			w.unpoison(p)
			v = *p
		}
		switch v.(type) {
		case structure, array:
			return copyVal(v)
		}
		return v
	}
	if p, ok := a.(*symPtr); ok {
		if v, ok := w.muxCells(p); ok {
			return v
		}
		return copyVal(*w.concPtr(p))
	}
	return copyVal(*w.cell(a))
}

func (w *Worker) muxCells(p *symPtr) (value, bool) {
	if len(p.cells) > 2048 {
		return nil, false
	}
	var wd uint8
	ts := make([]*Term, len(p.cells))
	for i, c := range p.cells {
		t, ok := (*c).(*Term)
		if !ok || (i > 0 && t.w != wd) {
			return nil, false
		}
		wd = t.w
		ts[i] = t
	}
	return w.mux(ts, p.idx), true
}

// mux selects ts[idx]; idx is known to be in range.
func (w *Worker) mux(ts []*Term, idx *Term) *Term {
	lo, hi := w.pbounds(idx)
	if hi >= uint64(len(ts)) {
		hi = uint64(len(ts) - 1)
	}
	if lo > hi {
		lo = hi
	}
	same := true
	for i := lo + 1; i <= hi; i++ {
		if ts[i] != ts[lo] {
			same = false
			break
		}
	}
	if same {
		return ts[lo]
	}
	if hi-lo < 16 {
		r := ts[hi]
		for i := int(hi) - 1; i >= int(lo); i-- {
			r = w.ctx.Ite(w.ctx.Eq(idx, w.ctx.Const(64, uint64(i))), ts[i], r)
		}
		return r
	}
	// runs of equal values: threshold comparisons
	runs := 1
	for i := lo + 1; i <= hi; i++ {
		if ts[i] != ts[i-1] {
			runs++
		}
	}
	if runs <= int(hi-lo)/4 {
		// build from the end
		r := ts[hi]
		for i := int(hi) - 1; i >= int(lo); i-- {
			if ts[i] != ts[i+1] {
				r = w.ctx.Ite(w.ctx.Ult(idx, w.ctx.Const(64, uint64(i+1))), ts[i], r)
			}
		}
		return r
	}
	return w.muxTree(ts, idx, lo, hi)
}

func (w *Worker) muxTree(ts []*Term, idx *Term, lo, hi uint64) *Term {
	if lo == hi {
		return ts[lo]
	}
	mid := lo + (hi-lo)/2 + 1
	a := w.muxTree(ts, idx, lo, mid-1)
	b := w.muxTree(ts, idx, mid, hi)
	if a == b {
		return a
	}
	return w.ctx.Ite(w.ctx.Ult(idx, w.ctx.Const(64, mid)), a, b)
}

func (w *Worker) storeTo(a value, v value, fresh bool) {
	if p, ok := a.(*value); ok {
		if p == nil {
			w.throw(nilDeref)
		}
		if w.spec {
			panic(specAbort{})
		}
		if fresh && w.inInit == 0 {
			l := w.logging
			w.logging = false
			w.store(p, v)
			w.logging = l
			return
		}
		w.store(p, v)
		return
	}
	if p, ok := a.(*symPtr); ok {
		t, isT := v.(*Term)
		if isT && len(p.cells) <= 1024 {
			all := true
			for _, c := range p.cells {
				if o, ok := (*c).(*Term); !ok || o.w != t.w {
					all = false
					break
				}
			}
			if all {
				lo, hi := w.pbounds(p.idx)
				for i, c := range p.cells {
					if uint64(i) < lo || uint64(i) > hi {
						continue
					}
					o := (*c).(*Term)
					w.logStore(c)
					*c = w.ctx.Ite(w.ctx.Eq(p.idx, w.ctx.Const(64, uint64(i))), t, o)
				}
				return
			}
		}
		w.store(w.concPtr(p), v)
		return
	}
	w.store(w.cell(a), v)
}

// index64 turns an index operand into a 64-bit term (sign- or zero-extended).
func (w *Worker) index64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	_, signed, _ := intInfo(ty)
	if signed {
		return w.ctx.SExt(t, 64)
	}
	return w.ctx.ZExt(t, 64)
}

// checkIndex makes sure idx is in [0,n) on this path or panics.
func (w *Worker) checkIndex(idx *Term, n int) *Term {
	if idx.op != OpConst {
		idx = w.simp(idx)
	}
	if idx.op == OpConst {
		if idx.k >= uint64(n) {
			w.throw(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(idx.k), n))
		}
		return idx
	}
	if !w.branch(w.ctx.Ult(idx, w.ctx.Const(64, uint64(n)))) {
		w.throw(fmt.Sprintf("runtime error: index out of range [?] with length %d", n))
	}
	return w.simp(idx)
}

func isScalarType(t types.Type) bool {
	_, _, ok := intInfo(t)
	return ok
}

func freshRoot(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				if _, ok := x.X.(*ssa.MakeSlice); !ok {
					return false
				}
			}
			v = x.X
		default:
			return false
		}
	}
}

func (w *Worker) compileInstr(cf *cfunc, in ssa.Instruction) func(*frame) {
	switch x := in.(type) {
	case *ssa.Alloc:
		d := cf.slots[x]
		et := x.Type().Underlying().(*types.Pointer).Elem()
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			return func(fr *frame) {
				p := new(value)
				*p = fr.w.zero(et)
				fr.env[d] = p
			}
		}
		var z value
		func() {
			defer func() {
				if r := recover(); r != nil {
					z = poison{what: fmt.Sprint(r)}
				}
			}()
			z = w.zero(et)
		}()
		return func(fr *frame) {
			p := new(value)
			*p = z
			fr.env[d] = p
		}
	case *ssa.Store:
		a, v := w.operand(cf, x.Addr), w.operand(cf, x.Val)
		fresh := freshRoot(x.Addr)
		return func(fr *frame) { fr.w.storeTo(a.get(fr), v.get(fr), fresh) }
	case *ssa.UnOp:
		return w.compileUnOp(cf, x)
	case *ssa.BinOp:
		return w.compileBinOp(cf, x)
	case *ssa.FieldAddr:
		d, a, f := cf.slots[x], w.operand(cf, x.X), x.Field
		return func(fr *frame) {
			av := a.get(fr)
			p, ok := av.(*value)
			if !ok {
				p = fr.w.cell(av)
			}
			if p == nil {
				fr.w.throw(nilDeref)
			}
			s, ok := (*p).(structure)
			if !ok {
				fr.w.unpoison(p)
				s, ok = (*p).(structure)
				if !ok {
					unsup("field of %T", *p)
				}
			}
			fr.env[d] = &s[f]
		}
	case *ssa.Field:
		d, a, f := cf.slots[x], w.operand(cf, x.X), x.Field
		return func(fr *frame) {
			s, ok := a.get(fr).(structure)
			if !ok {
				unsup("field of %T", a.get(fr))
			}
			fr.env[d] = s[f]
		}
	case *ssa.IndexAddr:
		d, a, i := cf.slots[x], w.operand(cf, x.X), w.operand(cf, x.Index)
		it := x.Index.Type()
		var et types.Type
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Pointer:
			et = u.Elem().Underlying().(*types.Array).Elem()
		}
		scalar := isScalarType(et)
		return func(fr *frame) {
			w := fr.w
			var cells []value
			switch b := a.get(fr).(type) {
			case []value:
				cells = b
			default:
				p := w.cell(b)
				arr, ok := (*p).(array)
				if !ok {
					unsup("index of %T", *p)
				}
				cells = arr
			}
			idx := i.get(fr).(*Term)
			if idx.op == OpConst && idx.w == 64 {
				if idx.k >= uint64(len(cells)) {
					w.throw(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(idx.k), len(cells)))
				}
				fr.env[d] = &cells[idx.k]
				return
			}
			idx = w.checkIndex(w.index64(idx, it), len(cells))
			if idx.op == OpConst {
				fr.env[d] = &cells[idx.k]
				return
			}
			if !scalar || len(cells) > 2048 {
				fr.env[d] = &cells[w.concretize(idx)]
				return
			}
			cs := make([]*value, len(cells))
			for j := range cells {
				cs[j] = &cells[j]
			}
			fr.env[d] = &symPtr{cs, idx}
		}
	case *ssa.Index:
		d, a, i := cf.slots[x], w.operand(cf, x.X), w.operand(cf, x.Index)
		it := x.Index.Type()
		return func(fr *frame) {
			w := fr.w
			switch b := a.get(fr).(type) {
			case array:
				idx := w.checkIndex(w.index64(i.get(fr).(*Term), it), len(b))
				if idx.op == OpConst {
					fr.env[d] = copyVal(b[idx.k])
					return
				}
				cs := make([]*value, len(b))
				for j := range b {
					cs[j] = &b[j]
				}
				fr.env[d] = w.load(&symPtr{cs, idx})
			default:
				n := strLen(b)
				idx := w.checkIndex(w.index64(i.get(fr).(*Term), it), n)
				if idx.op == OpConst {
					fr.env[d] = w.strByte(b, int(idx.k))
					return
				}
				fr.env[d] = w.mux(w.strTerms(b), idx)
			}
		}
	case *ssa.Slice:
		return w.compileSlice(cf, x)
	case *ssa.MakeSlice:
		d, l, c := cf.slots[x], w.operand(cf, x.Len), w.operand(cf, x.Cap)
		lt, ct := x.Len.Type(), x.Cap.Type()
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			w := fr.w
			n := w.makeLen(w.index64(l.get(fr).(*Term), lt), "len")
			cp := n
			if c != l {
				cp = w.makeLen(w.index64(c.get(fr).(*Term), ct), "cap")
				if cp < n {
					w.throw("runtime error: makeslice: cap out of range")
				}
			}
			fr.env[d] = w.makeSlice(et, n, cp)
		}
	case *ssa.MakeMap:
		d := cf.slots[x]
		return func(fr *frame) { fr.env[d] = newMap() }
	case *ssa.MakeInterface:
		d, a, t := cf.slots[x], w.operand(cf, x.X), x.X.Type()
		return func(fr *frame) { fr.env[d] = iface{t, copyVal(a.get(fr))} }
	case *ssa.MakeClosure:
		d := cf.slots[x]
		fn := x.Fn.(*ssa.Function)
		bs := make([]opnd, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = w.operand(cf, b)
		}
		return func(fr *frame) {
			env := make([]value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.env[d] = &funcval{fn: fn, env: env}
		}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var o ssa.Value
		if y, ok := x.(*ssa.ChangeType); ok {
			o = y.X
		} else {
			o = x.(*ssa.ChangeInterface).X
		}
		d, a := cf.slots[x.(ssa.Value)], w.operand(cf, o)
		return func(fr *frame) { fr.env[d] = a.get(fr) }
	case *ssa.Convert:
		return w.compileConvert(cf, x)
	case *ssa.MultiConvert:
		return func(fr *frame) { unsup("multi-convert") }
	case *ssa.SliceToArrayPointer:
		d, a := cf.slots[x], w.operand(cf, x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *frame) {
			s := a.get(fr).([]value)
			if int64(len(s)) < n {
				fr.w.throw("runtime error: cannot convert slice to array: length too short")
			}
			if s == nil {
				fr.env[d] = (*value)(nil)
				return
			}
			p := new(value)
			*p = array(s[:n:n])
			fr.env[d] = p
		}
	case *ssa.TypeAssert:
		return w.compileTypeAssert(cf, x)
	case *ssa.Extract:
		d, a, k := cf.slots[x], w.operand(cf, x.Tuple), x.Index
		return func(fr *frame) { fr.env[d] = a.get(fr).(tuple)[k] }
	case *ssa.Lookup:
		d, a, i := cf.slots[x], w.operand(cf, x.X), w.operand(cf, x.Index)
		if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
			it := x.Index.Type()
			return func(fr *frame) {
				w := fr.w
				s := a.get(fr)
				idx := w.checkIndex(w.index64(i.get(fr).(*Term), it), strLen(s))
				if idx.op == OpConst {
					fr.env[d] = w.strByte(s, int(idx.k))
				} else {
					fr.env[d] = w.mux(w.strTerms(s), idx)
				}
			}
		}
		mt := x.X.Type().Underlying().(*types.Map)
		commaOk := x.CommaOk
		return func(fr *frame) {
			w := fr.w
			m, ok := a.get(fr).(*hmap)
			if !ok {
				unsup("map is %T", a.get(fr))
			}
			e := w.mapFind(mt.Key(), m, i.get(fr))
			var v value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = w.zero(mt.Elem())
			}
			if commaOk {
				fr.env[d] = tuple{v, w.ctx.Bool(e != nil)}
			} else {
				fr.env[d] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := w.operand(cf, x.Map), w.operand(cf, x.Key), w.operand(cf, x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			mm, ok := m.get(fr).(*hmap)
			if !ok {
				unsup("map is %T", m.get(fr))
			}
			fr.w.mapSet(kt, mm, k.get(fr), v.get(fr))
		}
	case *ssa.Range:
		d, a := cf.slots[x], w.operand(cf, x.X)
		return func(fr *frame) {
			switch v := a.get(fr).(type) {
			case *hmap:
				fr.env[d] = &mapIter{m: v}
			default:
				fr.env[d] = &strIter{s: v}
			}
		}
	case *ssa.Next:
		d, a := cf.slots[x], w.operand(cf, x.Iter)
		tt := x.Type().(*types.Tuple)
		return func(fr *frame) { fr.env[d] = fr.w.next(a.get(fr), tt) }
	case *ssa.Call:
		return w.compileCall(cf, &x.Call, cf.slots[x])
	case *ssa.Defer:
		cc := &x.Call
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			as := w.operands(cf, cc.Args)
			return func(fr *frame) {
				fr.defers = append(fr.defers, deferred{bi: b, call: cc, args: getAll(fr, as)})
			}
		}
		prep := w.compileTarget(cf, cc)
		return func(fr *frame) {
			fn, args := prep(fr)
			fr.defers = append(fr.defers, deferred{fn: fn, args: args})
		}
	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.w.runDefers(fr)
			if fr.pan != nil {
				p := *fr.pan
				fr.pan = nil
				panic(p)
			}
		}
	case *ssa.Go:
		return func(fr *frame) { unsup("go statement") }
	case *ssa.Send:
		return func(fr *frame) { unsup("channel send") }
	case *ssa.Select:
		return func(fr *frame) { unsup("select") }
	case *ssa.MakeChan:
		d := cf.slots[x]
		return func(fr *frame) { fr.env[d] = new(value) }
	}
	return func(fr *frame) { unsup("instruction %T", in) }
}

func (w *Worker) operands(cf *cfunc, vs []ssa.Value) []opnd {
	os := make([]opnd, len(vs))
	for i, v := range vs {
		os[i] = w.operand(cf, v)
	}
	return os
}

func getAll(fr *frame, os []opnd) []value {
	r := make([]value, len(os))
	for i := range os {
		r[i] = os[i].get(fr)
	}
	return r
}

func (w *Worker) makeLen(t *Term, what string) int {
	t = w.simp(t)
	if t.op != OpConst {
		if !w.branch(w.ctx.Ult(t, w.ctx.Const(64, 1<<47))) {
			w.throw("runtime error: makeslice: " + what + " out of range")
		}
		t = w.simp(t)
	}
	n := w.concretize(t)
	if n >= 1<<47 {
		w.throw("runtime error: makeslice: " + what + " out of range")
	}
	if n > 1<<24 {
		panic(limitHit{"allocation of " + fmt.Sprint(n) + " elements: " + w.where()})
	}
	return int(n)
}

func (w *Worker) makeSlice(et types.Type, n, cp int) []value {
	if w.spec {
		panic(specAbort{})
	}
	s := make([]value, cp)
	if cp > 0 {
		z := w.zero(et)
		switch z.(type) {
		case structure, array:
			s[0] = z
			for i := 1; i < cp; i++ {
				s[i] = w.zero(et)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
	}
	w.steps += cp / 64
	return s[:n]
}

func (w *Worker) compileUnOp(cf *cfunc, x *ssa.UnOp) func(*frame) {
	d, a := cf.slots[x], w.operand(cf, x.X)
	switch x.Op {
	case token.MUL:
		return func(fr *frame) { fr.env[d] = fr.w.load(a.get(fr)) }
	case token.NOT:
		return func(fr *frame) { fr.env[d] = fr.w.ctx.BNot(a.get(fr).(*Term)) }
	case token.SUB:
		return func(fr *frame) {
			switch v := a.get(fr).(type) {
			case *Term:
				fr.env[d] = fr.w.ctx.Neg(v)
			case float64:
				fr.env[d] = -v
			default:
				unsup("neg %T", v)
			}
		}
	case token.XOR:
		return func(fr *frame) { fr.env[d] = fr.w.ctx.Not(a.get(fr).(*Term)) }
	}
	return func(fr *frame) { unsup("unop %s", x.Op) }
}

func (w *Worker) compileBinOp(cf *cfunc, x *ssa.BinOp) func(*frame) {
	d, a, b := cf.slots[x], w.operand(cf, x.X), w.operand(cf, x.Y)
	xt, yt := x.X.Type(), x.Y.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		t := xt
		if _, ok := xt.Underlying().(*types.Interface); ok {
			if _, ok2 := yt.Underlying().(*types.Interface); !ok2 {
				yt0 := yt
				return func(fr *frame) {
					r := fr.w.eq(t, a.get(fr), iface{yt0, b.get(fr)})
					if neg {
						r = fr.w.ctx.BNot(r)
					}
					fr.env[d] = r
				}
			}
		} else if _, ok := yt.Underlying().(*types.Interface); ok {
			return func(fr *frame) {
				r := fr.w.eq(yt, iface{xt, a.get(fr)}, b.get(fr))
				if neg {
					r = fr.w.ctx.BNot(r)
				}
				fr.env[d] = r
			}
		}
		return func(fr *frame) {
			r := fr.w.eq(t, a.get(fr), b.get(fr))
			if neg {
				r = fr.w.ctx.BNot(r)
			}
			fr.env[d] = r
		}
	}
	if isString(xt) {
		switch x.Op {
		case token.ADD:
			return func(fr *frame) { fr.env[d] = fr.w.strConcat(a.get(fr), b.get(fr)) }
		case token.LSS:
			return func(fr *frame) { fr.env[d] = fr.w.strLess(a.get(fr), b.get(fr)) }
		case token.GTR:
			return func(fr *frame) { fr.env[d] = fr.w.strLess(b.get(fr), a.get(fr)) }
		case token.LEQ:
			return func(fr *frame) { fr.env[d] = fr.w.ctx.BNot(fr.w.strLess(b.get(fr), a.get(fr))) }
		case token.GEQ:
			return func(fr *frame) { fr.env[d] = fr.w.ctx.BNot(fr.w.strLess(a.get(fr), b.get(fr))) }
		}
	}
	if isFloat(xt) {
		op := x.Op
		f32 := xt.Underlying().(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			p, ok1 := a.get(fr).(float64)
			q, ok2 := b.get(fr).(float64)
			if !ok1 || !ok2 {
				unsup("symbolic float")
			}
			c := fr.w.ctx
			var r float64
			switch op {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				r = p / q
			case token.LSS:
				fr.env[d] = c.Bool(p < q)
				return
			case token.LEQ:
				fr.env[d] = c.Bool(p <= q)
				return
			case token.GTR:
				fr.env[d] = c.Bool(p > q)
				return
			case token.GEQ:
				fr.env[d] = c.Bool(p >= q)
				return
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.env[d] = r
		}
	}
	wd, signed, ok := intInfo(xt)
	if !ok {
		return func(fr *frame) { unsup("binop on %s", xt) }
	}
	simple := func(op Op) func(*frame) {
		return func(fr *frame) {
			fr.env[d] = fr.w.ctx.Bin(op, a.get(fr).(*Term), b.get(fr).(*Term))
		}
	}
	switch x.Op {
	case token.ADD:
		return simple(OpAdd)
	case token.SUB:
		return simple(OpSub)
	case token.MUL:
		return simple(OpMul)
	case token.AND:
		if wd == 0 {
			break
		}
		return simple(OpAnd)
	case token.OR:
		return simple(OpOr)
	case token.XOR:
		return simple(OpXor)
	case token.AND_NOT:
		return func(fr *frame) {
			c := fr.w.ctx
			fr.env[d] = c.Bin(OpAnd, a.get(fr).(*Term), c.Not(b.get(fr).(*Term)))
		}
	case token.QUO, token.REM:
		op := OpUDiv
		if x.Op == token.REM {
			op = OpURem
		}
		if signed {
			op = OpSDiv
			if x.Op == token.REM {
				op = OpSRem
			}
		}
		return func(fr *frame) {
			w := fr.w
			q := b.get(fr).(*Term)
			if q.op != OpConst {
				q = w.simp(q)
			}
			if q.op != OpConst || q.k == 0 {
				if w.branch(w.ctx.Eq(q, w.ctx.Const(wd, 0))) {
					w.throw("runtime error: integer divide by zero")
				}
			}
			fr.env[d] = w.ctx.Bin(op, a.get(fr).(*Term), q)
		}
	case token.SHL, token.SHR:
		op := OpShl
		if x.Op == token.SHR {
			op = OpLShr
			if signed {
				op = OpAShr
			}
		}
		wy, ysigned, _ := intInfo(yt)
		return func(fr *frame) {
			w := fr.w
			c := w.ctx
			q := b.get(fr).(*Term)
			if ysigned && (q.op != OpConst || sext(q.k, wy) < 0) {
				if w.branch(c.Slt(q, c.Const(wy, 0))) {
					w.throw("runtime error: negative shift amount")
				}
			}
			p := a.get(fr).(*Term)
			var amt *Term
			if wy == wd {
				amt = q
			} else if wy < wd {
				amt = c.ZExt(q, wd)
			} else {
				// saturate
				amt = c.Ite(c.Ult(q, c.Const(wy, uint64(wd))), c.Extract(q, 0, wd), c.Const(wd, uint64(wd)))
			}
			fr.env[d] = c.Bin(op, p, amt)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := x.Op
		return func(fr *frame) {
			c := fr.w.ctx
			p, q := a.get(fr).(*Term), b.get(fr).(*Term)
			if op == token.GTR || op == token.GEQ {
				p, q = q, p
			}
			strict := op == token.LSS || op == token.GTR
			var r *Term
			switch {
			case signed && strict:
				r = c.Slt(p, q)
			case signed:
				r = c.Sle(p, q)
			case strict:
				r = c.Ult(p, q)
			default:
				r = c.Ule(p, q)
			}
			fr.env[d] = r
		}
	}
	return func(fr *frame) { unsup("binop %s on %s", x.Op, xt) }
}

func (w *Worker) compileConvert(cf *cfunc, x *ssa.Convert) func(*frame) {
	d, a := cf.slots[x], w.operand(cf, x.X)
	ft, tt := x.X.Type(), x.Type()
	fu, tu := ft.Underlying(), tt.Underlying()
	fw, fs, fi := intInfo(ft)
	tw, ts, ti := intInfo(tt)
	if fi && fw > 0 && ti && tw > 0 {
		return func(fr *frame) {
			c := fr.w.ctx
			v, ok := a.get(fr).(*Term)
			if !ok {
				unsup("convert %T", a.get(fr))
			}
			switch {
			case tw < fw:
				v = c.Extract(v, 0, tw)
			case tw > fw && fs:
				v = c.SExt(v, tw)
			case tw > fw:
				v = c.ZExt(v, tw)
			}
			fr.env[d] = v
		}
	}
	if isString(tt) {
		if fi {
			return func(fr *frame) {
				w := fr.w
				t, c := a.get(fr).(*Term), w.ctx
				if fw > 32 {
					if !w.branch(c.Ule(t, c.Const(fw, 0x10ffff))) {
						fr.env[d] = "\uFFFD"
						return
					}
					t = c.Extract(t, 0, 32)
				} else if fs {
					t = c.SExt(t, 32)
				} else {
					t = c.ZExt(t, 32)
				}
				fr.env[d] = w.runeStr(t)
			}
		}
		if isString(ft) {
			return func(fr *frame) { fr.env[d] = a.get(fr) }
		}
		if sl, ok := fu.(*types.Slice); ok {
			ew, _, _ := intInfo(sl.Elem())
			return func(fr *frame) {
				w := fr.w
				s := a.get(fr).([]value)
				if ew == 8 {
					fr.env[d] = w.bytesToStr(s)
					return
				}
				var text value = ""
				for _, e := range s {
					text = w.strConcat(text, w.runeStr(e.(*Term)))
				}
				fr.env[d] = text
			}
		}
	}
	if isString(ft) {
		if sl, ok := tu.(*types.Slice); ok {
			ew, _, _ := intInfo(sl.Elem())
			return func(fr *frame) {
				w := fr.w
				s := a.get(fr)
				if ew == 8 {
					b := w.strTerms(s)
					r := make([]value, len(b), roundCap(len(b)))
					for i := range b {
						r[i] = b[i]
					}
					full := r[:cap(r)]
					for i := len(b); i < len(full); i++ {
						full[i] = w.ctx.small[8][0]
					}
					fr.env[d] = r
					return
				}
				it := &strIter{s: s}
				var r []value
				for {
					_, rn, ok := w.nextRune(it)
					if !ok {
						break
					}
					r = append(r, rn)
				}
				fr.env[d] = r
			}
		}
	}
	if isFloat(tt) {
		f32 := tu.(*types.Basic).Kind() == types.Float32
		if fi {
			return func(fr *frame) {
				w := fr.w
				k := w.concretize(a.get(fr).(*Term))
				var f float64
				if fs {
					f = float64(sext(k, fw))
				} else {
					f = float64(k)
				}
				if f32 {
					f = float64(float32(f))
				}
				fr.env[d] = f
			}
		}
		if isFloat(ft) {
			return func(fr *frame) {
				f := a.get(fr).(float64)
				if f32 {
					f = float64(float32(f))
				}
				fr.env[d] = f
			}
		}
	}
	if isFloat(ft) && ti {
		return func(fr *frame) {
			f := a.get(fr).(float64)
			var k uint64
			if ts {
				k = uint64(int64(f))
			} else if f >= math.MaxInt64 {
				k = uint64(f)
			} else {
				k = uint64(int64(f))
			}
			fr.env[d] = fr.w.ctx.Const(tw, k)
		}
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(fr *frame) { fr.env[d] = a.get(fr) }
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(fr *frame) { fr.env[d] = a.get(fr) }
	}
	return func(fr *frame) { unsup("convert %s to %s", ft, tt) }
}

func (w *Worker) bytesToStr(s []value) value {
	b := make([]*Term, len(s))
	for i, e := range s {
		b[i] = e.(*Term)
	}
	return w.mkStr(b)
}

func (w *Worker) compileSlice(cf *cfunc, x *ssa.Slice) func(*frame) {
	d, a := cf.slots[x], w.operand(cf, x.X)
	get := func(v ssa.Value) (opnd, types.Type, bool) {
		if v == nil {
			return opnd{}, nil, false
		}
		return w.operand(cf, v), v.Type(), true
	}
	lo, lt, hasLo := get(x.Low)
	hi, ht, hasHi := get(x.High)
	mx, mt, hasMx := get(x.Max)
	return func(fr *frame) {
		w := fr.w
		var cells []value
		var str value
		isStr := false
		isNil := false
		switch v := a.get(fr).(type) {
		case []value:
			cells = v
			isNil = v == nil
		case string, *symString:
			str, isStr = v, true
		case *opaque:
			unsup("slice of an unmodelled string")
		default:
			p := w.cell(v)
			arr, ok := (*p).(array)
			if !ok {
				unsup("slice of %T", *p)
			}
			cells = arr[:len(arr):len(arr)]
		}
		ln, cp := 0, 0
		if isStr {
			ln = strLen(str)
			cp = ln
		} else {
			ln, cp = len(cells), cap(cells)
		}
		c := w.ctx
		fail := func(what string) {
			w.throw("runtime error: slice bounds out of range " + what)
		}
		// max <= cap, high <= max, low <= high (all unsigned comparisons)
		conc := func(t *Term, limit int, what string) int {
			if t.op != OpConst {
				t = w.simp(t)
			}
			if t.op == OpConst {
				if t.k > uint64(limit) {
					fail(fmt.Sprintf("[%s %d with capacity %d]", what, int64(t.k), limit))
				}
				return int(t.k)
			}
			if !w.branch(c.Ule(t, c.Const(64, uint64(limit)))) {
				fail(fmt.Sprintf("[%s ? with capacity %d]", what, limit))
			}
			return int(w.concretize(t))
		}
		m := cp
		if hasMx {
			m = conc(w.index64(mx.get(fr).(*Term), mt), cp, "::max")
		}
		h := ln
		if hasHi {
			h = conc(w.index64(hi.get(fr).(*Term), ht), m, ":high")
		} else if h > m {
			fail("[::]")
		}
		l := 0
		if hasLo {
			l = conc(w.index64(lo.get(fr).(*Term), lt), h, "low:")
		}
		if isStr {
			fr.env[d] = w.strSlice(str, l, h)
			return
		}
		if isNil {
			fr.env[d] = []value(nil)
			return
		}
		fr.env[d] = cells[l:h:m]
	}
}

func (w *Worker) compileTypeAssert(cf *cfunc, x *ssa.TypeAssert) func(*frame) {
	d, a := cf.slots[x], w.operand(cf, x.X)
	at := x.AssertedType
	it, isIface := at.Underlying().(*types.Interface)
	commaOk := x.CommaOk
	return func(fr *frame) {
		w := fr.w
		v, okk := a.get(fr).(iface)
		if !okk {
			unsup("type assertion on %T", a.get(fr))
		}
		ok := false
		var r value
		if v.t != nil {
			if isIface {
				ok = w.implements(v.t, it)
				r = v
			} else {
				ok = v.t == at || types.Identical(v.t, at)
				r = v.v
			}
		}
		if !ok {
			if !commaOk {
				s := "nil"
				if v.t != nil {
					s = v.t.String()
				}
				w.throw("interface conversion: interface is " + s + ", not " + at.String())
			}
			r = w.zero(at)
		}
		if commaOk {
			fr.env[d] = tuple{copyVal(r), w.ctx.Bool(ok)}
		} else {
			fr.env[d] = copyVal(r)
		}
	}
}

func (w *Worker) next(it value, tt *types.Tuple) value {
	switch x := it.(type) {
	case *mapIter:
		for x.m != nil && x.i < len(x.m.ents) {
			e := x.m.ents[x.i]
			x.i++
			if e.dead {
				continue
			}
			return tuple{w.ctx.tru, copyVal(e.k), copyVal(e.v)}
		}
		return tuple{w.ctx.fls, nil, nil}
	case *strIter:
		p, r, ok := w.nextRune(x)
		if !ok {
			return tuple{w.ctx.fls, w.ctx.Const(64, 0), w.ctx.Const(32, 0)}
		}
		return tuple{w.ctx.tru, w.ctx.Const(64, uint64(p)), r}
	}
	unsup("next on %T", it)
	return nil
}

// nextRune decodes the next rune of a string. The rune stays symbolic: the path
// only divides by how many bytes the rune takes and whether they are valid.
func (w *Worker) nextRune(it *strIter) (int, *Term, bool) {
	n := strLen(it.s)
	if it.pos >= n {
		return 0, nil, false
	}
	p := it.pos
	b := w.strByte(it.s, p)
	c := w.ctx
	if w.branch(c.Ult(b, c.Const(8, 0x80))) {
		it.pos++
		return p, c.ZExt(b, 32), true
	}
	in := func(t *Term, lo, hi uint64) *Term {
		return c.And(c.Ule(c.Const(8, lo), t), c.Ule(t, c.Const(8, hi)))
	}
	bits := func(t *Term, mask, shift uint64) *Term {
		return c.Bin(OpShl, c.ZExt(c.Bin(OpAnd, t, c.Const(8, mask)), 32), c.Const(32, shift))
	}
	or := func(ts ...*Term) *Term {
		r := ts[0]
		for _, t := range ts[1:] {
			r = c.Bin(OpOr, r, t)
		}
		return r
	}
	not := func(first, lo, hi uint64, second *Term) *Term {
		return c.BNot(c.And(c.Eq(b, c.Const(8, first)), in(second, lo, hi)))
	}
	if n-p >= 2 {
		b2 := w.strByte(it.s, p+1)
		if w.branch(c.And(in(b, 0xC2, 0xDF), in(b2, 0x80, 0xBF))) {
			it.pos += 2
			return p, or(bits(b, 0x1F, 6), bits(b2, 0x3F, 0)), true
		}
		if n-p >= 3 {
			b3 := w.strByte(it.s, p+2)
			valid := c.And(in(b, 0xE0, 0xEF), c.And(in(b2, 0x80, 0xBF), in(b3, 0x80, 0xBF)))
			valid = c.And(valid, c.And(not(0xE0, 0x80, 0x9F, b2), not(0xED, 0xA0, 0xBF, b2)))
			if w.branch(valid) {
				it.pos += 3
				return p, or(bits(b, 0x0F, 12), bits(b2, 0x3F, 6), bits(b3, 0x3F, 0)), true
			}
			if n-p >= 4 {
				b4 := w.strByte(it.s, p+3)
				valid := c.And(in(b, 0xF0, 0xF4), c.And(in(b2, 0x80, 0xBF), c.And(in(b3, 0x80, 0xBF), in(b4, 0x80, 0xBF))))
				valid = c.And(valid, c.And(not(0xF0, 0x80, 0x8F, b2), not(0xF4, 0x90, 0xBF, b2)))
				if w.branch(valid) {
					it.pos += 4
					return p, or(bits(b, 0x07, 18), bits(b2, 0x3F, 12), bits(b3, 0x3F, 6), bits(b4, 0x3F, 0)), true
				}
			}
		}
	}
	it.pos++
	return p, c.Const(32, 0xFFFD), true
}

// runeStr encodes a rune as UTF-8, dividing only by the number of bytes.
func (w *Worker) runeStr(r *Term) value {
	c := w.ctx
	if r.op == OpConst {
		return string(rune(int32(r.k)))
	}
	k := func(v uint64) *Term { return c.Const(32, v) }
	part := func(shift, mask, mark uint64) *Term {
		t := c.Bin(OpAnd, c.Bin(OpLShr, r, k(shift)), k(mask))
		return c.Extract(c.Bin(OpOr, t, k(mark)), 0, 8)
	}
	switch {
	case w.branch(c.Ult(r, k(0x80))):
		return w.mkStr([]*Term{c.Extract(r, 0, 8)})
	case w.branch(c.Ult(r, k(0x800))):
		return w.mkStr([]*Term{part(6, 0x1F, 0xC0), part(0, 0x3F, 0x80)})
	case w.branch(c.Or(c.Ult(k(0x10FFFF), r), c.And(c.Ule(k(0xD800), r), c.Ule(r, k(0xDFFF))))):
		return "\uFFFD"
	case w.branch(c.Ult(r, k(0x10000))):
		return w.mkStr([]*Term{part(12, 0x0F, 0xE0), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)})
	}
	return w.mkStr([]*Term{part(18, 0x07, 0xF0), part(12, 0x3F, 0x80), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)})
}

// -------------------------------------------------------------------- calls

func (w *Worker) compileTarget(cf *cfunc, cc *ssa.CallCommon) func(*frame) (value, []value) {
	as := w.operands(cf, cc.Args)
	if cc.IsInvoke() {
		r := w.operand(cf, cc.Value)
		m := cc.Method
		return func(fr *frame) (value, []value) {
			w := fr.w
			recv, ok := r.get(fr).(iface)
			if !ok {
				unsup("invoke on %T", r.get(fr))
			}
			if recv.t == nil {
				w.throw(nilDeref)
			}
			fn := w.method(recv.t, m)
			if fn == nil {
				unsup("no method %s on %s", m.Name(), recv.t)
			}
			args := make([]value, len(as)+1)
			args[0] = recv.v
			for i := range as {
				args[i+1] = as[i].get(fr)
			}
			return &funcval{fn: fn}, args
		}
	}
	f := w.operand(cf, cc.Value)
	return func(fr *frame) (value, []value) { return f.get(fr), getAll(fr, as) }
}

func (w *Worker) compileCall(cf *cfunc, cc *ssa.CallCommon, d int) func(*frame) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		as := w.operands(cf, cc.Args)
		switch b.Name() {
		case "len":
			a := as[0]
			t := cc.Args[0].Type()
			return func(fr *frame) {
				if s, ok := a.get(fr).([]value); ok {
					fr.env[d] = fr.w.ctx.Const(64, uint64(len(s)))
					return
				}
				fr.env[d] = fr.w.builtinLen(a.get(fr), t)
			}
		}
		return func(fr *frame) { fr.env[d] = fr.w.callBuiltin(fr, b, cc, getAll(fr, as)) }
	}
	as := w.operands(cf, cc.Args)
	if fn, ok := cc.Value.(*ssa.Function); ok && !cc.IsInvoke() {
		if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && fn == fn.Pkg.Func("init") {
			// package initialisation is on demand
			return func(fr *frame) {}
		}
		return func(fr *frame) {
			w := fr.w
			if w.spec {
				panic(specAbort{})
			}
			asp := w.asp
			args := w.alloc(len(as))
			for i := range as {
				args[i] = as[i].get(fr)
			}
			r := w.call(fn, args, nil, nil)
			if w.asp > asp {
				w.asp = asp
			}
			fr.env[d] = r
		}
	}
	prep := w.compileTarget(cf, cc)
	return func(fr *frame) {
		w := fr.w
		if w.spec {
			panic(specAbort{})
		}
		f, args := prep(fr)
		fr.env[d] = w.callValue(f, args, nil)
	}
}

func (w *Worker) builtinLen(v value, t types.Type) value {
	c := w.ctx
	switch x := v.(type) {
	case []value:
		return c.Const(64, uint64(len(x)))
	case string, *symString, *opaque:
		return c.Const(64, uint64(strLen(x)))
	case array:
		return c.Const(64, uint64(len(x)))
	case *hmap:
		if x == nil {
			return c.Const(64, 0)
		}
		return c.Const(64, uint64(x.n))
	case *value:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return c.Const(64, uint64(a.Len()))
			}
		}
	}
	unsup("len of %T", v)
	return nil
}

func (w *Worker) logRange(s []value) {
	if !w.logging || len(s) == 0 {
		return
	}
	old := make([]value, len(s))
	copy(old, s)
	w.undo = append(w.undo, undoRec{fn: func() { copy(s, old) }})
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundCap(n int) int {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if n <= s {
				return s
			}
		}
	}
	return (n + 8191) &^ 8191
}

func (w *Worker) growCap(oldCap, need int, et types.Type) int {
	nc := oldCap
	if need > 2*oldCap {
		nc = need
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := int(w.eng.sizes.Sizeof(et))
	if sz == 0 {
		return need
	}
	return roundCap(nc*sz) / sz
}

func (w *Worker) callBuiltin(fr *frame, b *ssa.Builtin, cc *ssa.CallCommon, args []value) value {
	c := w.ctx
	if w.spec && b.Name() != "cap" && b.Name() != "len" && b.Name() != "min" && b.Name() != "max" {
		panic(specAbort{})
	}
	switch b.Name() {
	case "len":
		return w.builtinLen(args[0], cc.Args[0].Type())
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return c.Const(64, uint64(cap(x)))
		case array:
			return c.Const(64, uint64(len(x)))
		}
		return w.builtinLen(args[0], cc.Args[0].Type())
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, _ := args[0].([]value)
		var add []value
		switch y := args[1].(type) {
		case []value:
			add = y
		case string, *symString:
			ts := w.strTerms(y)
			add = make([]value, len(ts))
			for i := range ts {
				add[i] = ts[i]
			}
		default:
			unsup("append %T", y)
		}
		if len(add) == 0 {
			return s
		}
		w.steps += len(add) / 64
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		n := len(s) + len(add)
		if n <= cap(s) {
			r := s[:n]
			w.logRange(r[len(s):])
			for i, e := range add {
				r[len(s)+i] = copyVal(e)
			}
			return r
		}
		nc := w.growCap(cap(s), n, et)
		r := make([]value, nc)
		copy(r, s)
		if _, agg := any(w.zero(et)).(structure); agg {
			for i := range s {
				r[i] = copyVal(s[i])
			}
		}
		for i, e := range add {
			r[len(s)+i] = copyVal(e)
		}
		if nc > n {
			z := w.zero(et)
			for i := n; i < nc; i++ {
				r[i] = copyVal(z)
			}
		}
		return r[:n]
	case "copy":
		dst := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case []value:
			src = y
		default:
			ts := w.strTerms(y)
			src = make([]value, len(ts))
			for i := range ts {
				src[i] = ts[i]
			}
		}
		n := min(len(dst), len(src))
		w.steps += n / 64
		if n > 0 {
			w.logRange(dst[:n])
			switch src[0].(type) {
			case structure, array:
				tmp := make([]value, n)
				for i := range tmp {
					tmp[i] = copyVal(src[i])
				}
				for i := range tmp {
					w.store(&dst[i], tmp[i])
				}
			default:
				copy(dst[:n], src[:n])
			}
		}
		return c.Const(64, uint64(n))
	case "delete":
		w.mapDelete(cc.Args[0].Type().Underlying().(*types.Map).Key(), args[0].(*hmap), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *hmap:
			if x != nil {
				for _, e := range append([]*hentry{}, x.ents...) {
					if !e.dead {
						w.mapDelete(cc.Args[0].Type().Underlying().(*types.Map).Key(), x, e.k)
					}
				}
			}
		case []value:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			z := w.zero(et)
			for i := range x {
				w.store(&x[i], z)
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		t := cc.Args[0].Type()
		_, signed, isInt := intInfo(t)
		for _, y := range args[1:] {
			switch p := r.(type) {
			case *Term:
				if !isInt {
					unsup("min/max")
				}
				q := y.(*Term)
				var lt *Term
				if signed {
					lt = c.Slt(q, p)
				} else {
					lt = c.Ult(q, p)
				}
				if b.Name() == "max" {
					if signed {
						lt = c.Slt(p, q)
					} else {
						lt = c.Ult(p, q)
					}
				}
				r = c.Ite(lt, q, p)
			case float64:
				if b.Name() == "min" {
					r = math.Min(p, y.(float64))
				} else {
					r = math.Max(p, y.(float64))
				}
			default:
				unsup("min/max of %T", r)
			}
		}
		return r
	case "recover":
		if fr.dfr != nil && fr.dfr.pan != nil {
			v := fr.dfr.pan.v
			fr.dfr.pan = nil
			return v
		}
		return iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			w.throw("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(w.concretize(args[1].(*Term)))
		switch p := args[0].(type) {
		case *slicePtr:
			return w.bytesToStr(p.s[:n])
		case *strPtr:
			return w.strSlice(p.s, 0, n)
		case *value: // &b[0]
			if n > 0 {
				return w.bytesToStr(unsafe.Slice(p, n))
			}
		}
		if n == 0 {
			return ""
		}
	case "SliceData":
		s := args[0].([]value)
		return &slicePtr{s[:cap(s)]}
	case "StringData":
		return &strPtr{args[0]}
	case "Slice":
		n := int(w.concretize(w.index64(args[1].(*Term), cc.Args[1].Type())))
		switch p := args[0].(type) {
		case *slicePtr:
			return p.s[:n:n]
		case *strPtr:
			ts := w.strTerms(w.strSlice(p.s, 0, n))
			r := make([]value, n)
			for i := range r {
				r[i] = ts[i]
			}
			return r
		}
		if n == 0 {
			return []value(nil)
		}
	}
	unsup("builtin %s", b.Name())
	return nil
}
