package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values of the interpreted program.
//
//	bool, integers           *Term
//	float64/float32          float64
//	string                   string (concrete) | *symString | *opaque
//	pointer                  *value (nil pointer: (*value)(nil)) | *symPtr
//	slice                    []value
//	array                    array
//	struct                   structure
//	map                      *hmap
//	func                     *funcval (nil: (*funcval)(nil)) | *ssa.Builtin
//	interface                iface
//	tuple                    tuple
type value = any

type array []value
type structure []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type funcval struct {
	fn  *ssa.Function
	env []value
	nat func(w *Worker, args []value) value // engine-provided function
	id  int
}

// symString is a string with at least one symbolic byte.
type symString struct{ b []*Term }

// opaque is a string whose bytes are not modelled (formatting of symbolic
// values). Using its content ends the path as unsupported.
type opaque struct{ id int }

// symPtr points to one of several cells, chosen by a symbolic index.
type symPtr struct {
	cells []*value
	idx   *Term // 64-bit, in [0,len(cells))
}

type slicePtr struct{ s []value } // unsafe.SliceData / StringData result
type strPtr struct{ s value }

type poison struct {
	what string
	pkg  *ssa.Package
}

type hentry struct {
	k, v value
	dead bool
}

type hmap struct {
	ents  []*hentry
	idx   map[string]*hentry // concrete keys
	n     int
	anySy bool // some key is symbolic
}

type mapIter struct {
	m *hmap
	i int
}
type strIter struct {
	s   value
	pos int
}

// control-flow panics of the engine
type targetPanic struct {
	v     iface
	where string
	fault bool // runtime error
}
type endPath struct{ why string }     // assume failed etc.
type unsupported struct{ msg string } // path abandoned
type limitHit struct{ msg string }    // step limit / stack depth
type fatalEngine struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func isNilPtr(v value) bool {
	p, ok := v.(*value)
	return ok && p == nil
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (w *Worker) zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return ""
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if u.Kind() == types.UnsafePointer {
			return (*value)(nil)
		}
		if wd, _, ok := intInfo(u); ok {
			return w.ctx.Const(wd, 0)
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		unsup("zero of basic %s", u)
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*hmap)(nil)
	case *types.Signature:
		return (*funcval)(nil)
	case *types.Interface:
		return iface{}
	case *types.Chan:
		return (*value)(nil)
	case *types.Array:
		a := make(array, u.Len())
		if u.Len() > 0 {
			z := w.zero(u.Elem())
			switch z.(type) {
			case array, structure:
				for i := range a {
					a[i] = w.zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if u.Len() == 1 {
			return w.zero(u.At(0).Type())
		}
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = w.zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		unsup("zero of type parameter")
	}
	unsup("zero of %s", t)
	return nil
}

// copyVal makes an independent copy of aggregates.
func copyVal(v value) value {
	switch x := v.(type) {
	case structure:
		n := make(structure, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	case array:
		n := make(array, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	}
	return v
}

type undoRec struct {
	p   *value
	old value
	fn  func()
}

func (w *Worker) logStore(p *value) {
	if w.logging {
		w.undo = append(w.undo, undoRec{p: p, old: *p})
	}
}

// store writes v into the cell, element-wise for aggregates so that interior
// pointers stay valid.
func (w *Worker) store(p *value, v value) {
	if _, bad := (*p).(poison); bad {
		w.unpoison(p)
	}
	switch x := v.(type) {
	case structure:
		if d, ok := (*p).(structure); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				w.store(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	case array:
		if d, ok := (*p).(array); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				w.store(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	}
	w.logStore(p)
	*p = v
}

func (w *Worker) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		r := &w.undo[i]
		if r.fn != nil {
			r.fn()
		} else {
			*r.p = r.old
		}
	}
	clear(w.undo)
	w.undo = w.undo[:0]
}

// -------------------------------------------------------------------- strings

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *symString:
		return len(s.b)
	case *opaque:
		unsup("length of an unmodelled string")
	}
	unsup("strLen of %T", v)
	return 0
}

func (w *Worker) strByte(v value, i int) *Term {
	switch s := v.(type) {
	case string:
		return w.ctx.small[8][s[i]]
	case *symString:
		return s.b[i]
	}
	unsup("byte of an unmodelled string")
	return nil
}

func (w *Worker) strTerms(v value) []*Term {
	switch s := v.(type) {
	case string:
		r := make([]*Term, len(s))
		for i := range r {
			r[i] = w.ctx.small[8][s[i]]
		}
		return r
	case *symString:
		return s.b
	}
	unsup("bytes of an unmodelled string")
	return nil
}

func (w *Worker) mkStr(b []*Term) value {
	for i, t := range b {
		if t.op != OpConst {
			_ = i
			return &symString{b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.k)
	}
	return string(r)
}

func (w *Worker) strSlice(v value, lo, hi int) value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *symString:
		return w.mkStr(s.b[lo:hi:hi])
	}
	unsup("slice of an unmodelled string")
	return nil
}

func (w *Worker) strConcat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	_, o1 := a.(*opaque)
	_, o2 := b.(*opaque)
	if o1 || o2 {
		return w.newOpaque()
	}
	x, y := w.strTerms(a), w.strTerms(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return &symString{r}
}

func (w *Worker) newOpaque() value {
	w.nOpaque++
	return &opaque{w.nOpaque}
}

func (w *Worker) strEq(a, b value) *Term {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return w.ctx.Bool(x == y)
	}
	if o1, ok := a.(*opaque); ok {
		if o2, ok := b.(*opaque); ok && o1 == o2 {
			return w.ctx.tru
		}
		unsup("comparison of an unmodelled string")
	}
	if _, ok := b.(*opaque); ok {
		unsup("comparison of an unmodelled string")
	}
	if strLen(a) != strLen(b) {
		return w.ctx.fls
	}
	r := w.ctx.tru
	for i := strLen(a) - 1; i >= 0; i-- {
		r = w.ctx.And(w.ctx.Eq(w.strByte(a, i), w.strByte(b, i)), r)
		if r == w.ctx.fls {
			return r
		}
	}
	return r
}

func (w *Worker) strLess(a, b value) *Term {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return w.ctx.Bool(x < y)
	}
	n := min(strLen(a), strLen(b))
	r := w.ctx.Bool(strLen(a) < strLen(b))
	for i := n - 1; i >= 0; i-- {
		p, q := w.strByte(a, i), w.strByte(b, i)
		r = w.ctx.Ite(w.ctx.Eq(p, q), r, w.ctx.Ult(p, q))
	}
	return r
}

// ------------------------------------------------------------------- equality

func (w *Worker) eq(t types.Type, a, b value) *Term {
	switch x := a.(type) {
	case *Term:
		return w.ctx.Eq(x, b.(*Term))
	case string, *symString, *opaque:
		return w.strEq(a, b)
	case float64:
		return w.ctx.Bool(x == b.(float64))
	case *value:
		switch y := b.(type) {
		case *value:
			return w.ctx.Bool(x == y)
		case *symPtr:
			if x == nil {
				return w.ctx.fls
			}
			return w.eq(t, b, a)
		}
		return w.ctx.fls
	case *symPtr:
		y := w.concPtr(x)
		return w.eq(t, y, b)
	case iface:
		y := b.(iface)
		if x.t == nil || y.t == nil {
			return w.ctx.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return w.ctx.fls
		}
		if !types.Comparable(x.t) {
			w.throw("runtime error: comparing uncomparable type " + x.t.String())
		}
		return w.eq(x.t, x.v, y.v)
	case structure:
		y := b.(structure)
		st := t.Underlying().(*types.Struct)
		r := w.ctx.tru
		isOpaque := func(v value) bool { _, ok := v.(*opaque); return ok }
		// Fields whose content is not modelled come last: another field often
		// decides the comparison.
		for pass := 0; pass < 2; pass++ {
			for i := range x {
				if st.Field(i).Name() == "_" || (isOpaque(x[i]) || isOpaque(y[i])) != (pass == 1) {
					continue
				}
				if r = w.ctx.And(r, w.eq(st.Field(i).Type(), x[i], y[i])); r == w.ctx.fls {
					return r
				}
			}
		}
		return r
	case array:
		y := b.(array)
		et := t.Underlying().(*types.Array).Elem()
		r := w.ctx.tru
		for i := range x {
			r = w.ctx.And(r, w.eq(et, x[i], y[i]))
		}
		return r
	case *hmap:
		y, _ := b.(*hmap)
		return w.ctx.Bool(x == y)
	case []value: // comparison with nil
		y := b.([]value)
		if x == nil || y == nil {
			return w.ctx.Bool(x == nil && y == nil)
		}
	case *funcval:
		y, _ := b.(*funcval)
		if x == nil || y == nil {
			return w.ctx.Bool(x == nil && y == nil)
		}
	case poison:
		unsup("use of uninitialised %s", x.what)
	}
	unsup("eq %T %T", a, b)
	return nil
}

// ----------------------------------------------------------------------- maps

func keyString(v value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op == OpConst {
			return fmt.Sprintf("i%d", x.k), true
		}
		return "", false
	case string:
		return "s" + x, true
	case *value:
		return fmt.Sprintf("p%p", x), true
	case iface:
		if x.t == nil {
			return "n", true
		}
		k, ok := keyString(x.v)
		return "f" + x.t.String() + "|" + k, ok
	case structure:
		var b strings.Builder
		b.WriteString("{")
		for _, e := range x {
			k, ok := keyString(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s,", len(k), k)
		}
		return b.String() + "}", true
	case array:
		return keyString(structure(x))
	}
	return "", false
}

func (w *Worker) mapFind(t types.Type, m *hmap, k value) *hentry {
	if m == nil {
		return nil
	}
	ks, conc := keyString(k)
	if conc && !m.anySy {
		return m.idx[ks]
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if w.branch(w.eq(t, e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(t types.Type, m *hmap, k, v value) {
	if m == nil {
		w.throw("assignment to entry in nil map")
	}
	if e := w.mapFind(t, m, k); e != nil {
		if w.logging {
			old := e.v
			w.undo = append(w.undo, undoRec{fn: func() { e.v = old }})
		}
		e.v = copyVal(v)
		return
	}
	ks, conc := keyString(k)
	e := &hentry{k: copyVal(k), v: copyVal(v)}
	oldEnts, oldAny := m.ents, m.anySy
	m.ents = append(m.ents[:len(m.ents):len(m.ents)], e)
	m.n++
	if conc {
		m.idx[ks] = e
	} else {
		m.anySy = true
	}
	if w.logging {
		w.undo = append(w.undo, undoRec{fn: func() {
			m.ents = oldEnts
			m.anySy = oldAny
			m.n--
			if conc {
				delete(m.idx, ks)
			}
		}})
	}
}

func (w *Worker) mapDelete(t types.Type, m *hmap, k value) {
	e := w.mapFind(t, m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	ks, conc := keyString(e.k)
	if conc {
		delete(m.idx, ks)
	}
	if w.logging {
		w.undo = append(w.undo, undoRec{fn: func() {
			e.dead = false
			m.n++
			if conc {
				m.idx[ks] = e
			}
		}})
	}
}

func newMap() *hmap { return &hmap{idx: map[string]*hentry{}} }
