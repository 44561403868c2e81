package main

// Hash-consed bit-vector / boolean terms with eager simplification and
// unsigned interval analysis. One Ctx per worker; no locking.

import (
	"fmt"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot // bitwise
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpExtract // k = low bit
	OpIte
	// booleans (w == 0)
	OpEq
	OpUlt
	OpSlt
	OpBNot
	OpBAnd
	OpBOr
)

type Term struct {
	id      uint32
	op      Op
	w       uint8 // 0: bool
	k       uint64
	a, b, c *Term
	lo, hi  uint64 // unsigned bounds (bit-vectors)
	name    string // variables
}

func (t *Term) IsConst() bool { return t.op == OpConst }

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c uint32
}

type Ctx struct {
	tab   map[tkey]*Term
	terms []*Term
	small [65][]*Term
	tru   *Term
	fls   *Term
	vars  map[string]*Term
	// model evaluation memo
	memoV []uint64
	memoS []uint32
	stamp uint32
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	c.fls = c.mk(OpConst, 0, 0, nil, nil, nil)
	c.tru = c.mk(OpConst, 0, 1, nil, nil, nil)
	for _, w := range []uint8{8, 16, 32, 64} {
		n := 256
		if w > 8 {
			n = 4096
		}
		s := make([]*Term, n)
		for i := range s {
			s[i] = c.mk(OpConst, w, uint64(i), nil, nil, nil)
		}
		c.small[w] = s
	}
	return c
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *Ctx) mk(op Op, w uint8, k uint64, x, y, z *Term) *Term {
	key := tkey{op, w, k, tid(x), tid(y), tid(z)}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{id: uint32(len(c.terms) + 1), op: op, w: w, k: k, a: x, b: y, c: z}
	t.lo, t.hi = 0, mask(w)
	c.bounds(t)
	if t.lo == t.hi && w > 0 && op != OpConst && op != OpVar {
		t = c.Const(w, t.lo)
		c.tab[key] = t
		return t
	}
	c.tab[key] = t
	c.terms = append(c.terms, t)
	return t
}

func (c *Ctx) bounds(t *Term) {
	m := mask(t.w)
	x, y := t.a, t.b
	switch t.op {
	case OpConst:
		t.lo, t.hi = t.k, t.k
	case OpAdd:
		h, cr := bits.Add64(x.hi, y.hi, 0)
		if cr == 0 && h <= m {
			t.lo, t.hi = x.lo+y.lo, h
		} else if y.op == OpConst {
			// x + (-k): no borrow for all x
			nk := (-y.k) & m
			if x.lo >= nk {
				t.lo, t.hi = x.lo-nk, x.hi-nk
			}
		}
	case OpSub:
		if x.lo >= y.hi {
			t.lo, t.hi = x.lo-y.hi, x.hi-y.lo
		}
	case OpMul:
		hh, h := bits.Mul64(x.hi, y.hi)
		if hh == 0 && h <= m {
			t.lo, t.hi = x.lo*y.lo, h
		}
	case OpUDiv:
		if y.lo > 0 {
			t.lo, t.hi = x.lo/y.hi, x.hi/y.lo
		}
	case OpURem:
		if y.lo > 0 {
			t.lo = 0
			t.hi = min(x.hi, y.hi-1)
		}
	case OpAnd:
		t.lo, t.hi = 0, min(x.hi, y.hi)
	case OpOr:
		t.lo = max(x.lo, y.lo)
		n := max(bits.Len64(x.hi), bits.Len64(y.hi))
		t.hi = mask(uint8(n))
	case OpXor:
		n := max(bits.Len64(x.hi), bits.Len64(y.hi))
		t.lo, t.hi = 0, mask(uint8(n))
	case OpShl:
		if y.op == OpConst && y.k < uint64(t.w) {
			if x.hi<<y.k>>y.k == x.hi && x.hi<<y.k <= m {
				t.lo, t.hi = x.lo<<y.k, x.hi<<y.k
			}
		}
	case OpLShr:
		if y.op == OpConst && y.k < uint64(t.w) {
			t.lo, t.hi = x.lo>>y.k, x.hi>>y.k
		} else {
			t.lo, t.hi = 0, x.hi
		}
	case OpZExt:
		t.lo, t.hi = x.lo, x.hi
	case OpSExt:
		if x.hi < uint64(1)<<(x.w-1) {
			t.lo, t.hi = x.lo, x.hi
		}
	case OpExtract:
		if t.k == 0 && x.hi <= m {
			t.lo, t.hi = x.lo, x.hi
		} else if t.k > 0 && x.hi>>t.k <= m {
			t.lo, t.hi = x.lo>>t.k, x.hi>>t.k
		}
	case OpIte:
		if t.w > 0 {
			t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
		}
	}
}

func (c *Ctx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		return c.Bool(v != 0)
	}
	v &= mask(w)
	if s := c.small[w]; v < uint64(len(s)) {
		return s[v]
	}
	return c.mk(OpConst, w, v, nil, nil, nil)
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}

// Var returns the variable of this name with intrinsic unsigned bounds.
func (c *Ctx) Var(name string, w uint8, lo, hi uint64) *Term {
	key := fmt.Sprintf("%s|%d|%d|%d", name, w, lo, hi)
	if t, ok := c.vars[key]; ok {
		return t
	}
	t := &Term{id: uint32(len(c.terms) + 1), op: OpVar, w: w, name: fmt.Sprintf("v%d", len(c.vars)), lo: lo, hi: hi}
	c.terms = append(c.terms, t)
	c.vars[key] = t
	return t
}

func foldBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OpSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OpAnd:
		return x & y
	case OpOr:
		return x | y
	case OpXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		a := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(a>>y) & m
	}
	panic("foldBin")
}

func isPow2(v uint64) bool { return v != 0 && v&(v-1) == 0 }

// isProduct tells if a term is a product (or shift by a constant).
func isProduct(t *Term) bool {
	return t.op == OpMul || t.op == OpShl && t.b.op == OpConst && t.b.k < uint64(t.w)
}

func factors(t *Term, fs []*Term, k uint64) ([]*Term, uint64) {
	switch {
	case t.op == OpConst:
		return fs, k * t.k
	case t.op == OpMul:
		fs, k = factors(t.a, fs, k)
		return factors(t.b, fs, k)
	case isProduct(t):
		return factors(t.a, fs, k<<t.b.k)
	}
	return append(fs, t), k
}

// trailing is a number of low bits of t that are always zero.
func trailing(t *Term, depth int) int {
	if depth == 0 {
		return 0
	}
	switch t.op {
	case OpConst:
		if t.k == 0 {
			return int(t.w)
		}
		return bits.TrailingZeros64(t.k)
	case OpShl:
		if t.b.op == OpConst {
			return min(int(t.w), int(t.b.k)+trailing(t.a, depth-1))
		}
	case OpAdd, OpSub, OpIte:
		a, b := t.a, t.b
		if t.op == OpIte {
			a, b = t.b, t.c
		}
		return min(trailing(a, depth-1), trailing(b, depth-1))
	case OpMul:
		return min(int(t.w), trailing(t.a, depth-1)+trailing(t.b, depth-1))
	case OpZExt:
		return trailing(t.a, depth-1)
	}
	return 0
}

// tightenShl: t is x << k.
func (c *Ctx) tightenShl(t, x *Term, k uint64) *Term {
	if x.hi<<k>>k == x.hi && x.hi<<k <= mask(t.w) {
		return c.tighten(t, x.lo<<k, x.hi<<k)
	}
	return t
}

// divide takes multiples of k out of x: x = q*k + r without overflow. r is nil if
// there are none.
func (c *Ctx) divide(x *Term, k uint64) (q, r *Term) {
	w := x.w
	if q0 := x.lo / k; q0 > 0 {
		r := c.Bin(OpAdd, x, c.Const(w, -(q0*k)))
		if r.lo == x.lo-q0*k && r.hi == x.hi-q0*k {
			return c.Const(w, q0), r
		}
		return nil, nil
	}
	if x.op != OpAdd && x.op != OpMul {
		return nil, nil
	}
	var adds []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.op == OpAdd && len(adds) < 16 {
			flat(t.a)
			flat(t.b)
			return
		}
		adds = append(adds, t)
	}
	flat(x)
	sum := uint64(0)
	for _, t := range adds {
		var cr uint64
		sum, cr = bits.Add64(sum, t.hi, 0)
		if cr != 0 || sum > mask(w) {
			return nil, nil
		}
	}
	q, r = c.Const(w, 0), c.Const(w, 0)
	found := false
	for _, t := range adds {
		if t.op == OpMul && t.b.op == OpConst && t.b.k%k == 0 {
			if hh, h := bits.Mul64(t.a.hi, t.b.k); hh == 0 && h <= mask(w) {
				q = c.Bin(OpAdd, q, c.Bin(OpMul, t.a, c.Const(w, t.b.k/k)))
				found = true
				continue
			}
		}
		r = c.Bin(OpAdd, r, t)
	}
	if !found {
		return nil, nil
	}
	return q, r
}

func (c *Ctx) Bin(op Op, x, y *Term) *Term {
	w := x.w
	if x.w != y.w {
		panic(fmt.Sprintf("width mismatch op %d: %d %d", op, x.w, y.w))
	}
	if x.op == OpConst && y.op == OpConst {
		return c.Const(w, foldBin(op, w, x.k, y.k))
	}
	m := mask(w)
	switch op {
	case OpAdd, OpMul, OpAnd, OpOr, OpXor:
		if x.op == OpConst || (y.op != OpConst && x.id > y.id) {
			x, y = y, x
		}
	}
	switch op {
	case OpAdd:
		if y.op == OpConst {
			if y.k == 0 {
				return x
			}
			if x.op == OpAdd && x.b.op == OpConst {
				return c.Bin(OpAdd, x.a, c.Const(w, x.b.k+y.k))
			}
		}
		if x.op == OpSub && x.b == y {
			return x.a
		}
		if y.op == OpSub && y.b == x {
			return y.a
		}
	case OpSub:
		if x == y {
			return c.Const(w, 0)
		}
		if y.op == OpConst {
			return c.Bin(OpAdd, x, c.Const(w, -y.k))
		}
		if x.op == OpAdd {
			if x.a == y {
				return x.b
			}
			if x.b == y {
				return x.a
			}
			// (p+k) - (p'+k2)
			if x.b.op == OpConst && y.op == OpAdd && y.b.op == OpConst {
				return c.Bin(OpAdd, c.Bin(OpSub, x.a, y.a), c.Const(w, x.b.k-y.b.k))
			}
			if x.b.op == OpConst {
				return c.Bin(OpAdd, c.Bin(OpSub, x.a, y), x.b)
			}
		}
		if y.op == OpAdd {
			if y.a == x {
				return c.Neg(y.b)
			}
			if y.b == x {
				return c.Neg(y.a)
			}
		}
	case OpMul:
		if isProduct(x) || isProduct(y) {
			// products are kept as ((a*b)*c)*k with the factors in order
			k := uint64(1)
			var fs []*Term
			fs, k = factors(x, fs, k)
			fs, k = factors(y, fs, k)
			if len(fs) <= 8 {
				sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
				var r *Term
				for _, f := range fs {
					if r == nil {
						r = f
					} else {
						r = c.mk(OpMul, w, 0, r, f, nil)
					}
				}
				k &= m
				if r == nil {
					return c.Const(w, k)
				}
				switch {
				case k == 0:
					return c.Const(w, 0)
				case k == 1:
					return r
				case isPow2(k):
					return c.Bin(OpShl, r, c.Const(w, uint64(bits.TrailingZeros64(k))))
				}
				return c.mk(OpMul, w, 0, r, c.Const(w, k), nil)
			}
		}
		if y.op == OpConst {
			if y.k == 0 {
				return y
			}
			if y.k == 1 {
				return x
			}
			if isPow2(y.k) {
				return c.Bin(OpShl, x, c.Const(w, uint64(bits.TrailingZeros64(y.k))))
			}
			if x.op == OpAdd && x.b.op == OpConst {
				r := c.Bin(OpAdd, c.Bin(OpMul, x.a, y), c.Const(w, x.b.k*y.k))
				if hh, h := bits.Mul64(x.hi, y.k); hh == 0 && h <= m {
					r = c.tighten(r, x.lo*y.k, h)
				}
				return r
			}
		}
	case OpUDiv:
		if y.op == OpConst && y.k != 0 {
			if y.k == 1 {
				return x
			}
			if isPow2(y.k) {
				return c.Bin(OpLShr, x, c.Const(w, uint64(bits.TrailingZeros64(y.k))))
			}
			if x.hi < y.k {
				return c.Const(w, 0)
			}
			// (q*k + r)/k with no overflow
			if x.op == OpMul && x.b == y {
				hh, h := bits.Mul64(x.a.hi, y.k)
				if hh == 0 && h <= m {
					return x.a
				}
			}
			if q, r := c.divide(x, y.k); r != nil {
				return c.Bin(OpAdd, q, c.Bin(OpUDiv, r, y))
			}
		}
	case OpURem:
		if y.op == OpConst && y.k != 0 {
			if isPow2(y.k) {
				return c.Bin(OpAnd, x, c.Const(w, y.k-1))
			}
			if x.hi < y.k {
				return x
			}
			if _, r := c.divide(x, y.k); r != nil {
				return c.Bin(OpURem, r, y)
			}
		}
	case OpSDiv, OpSRem:
		half := uint64(1) << (w - 1)
		if x.hi < half && y.hi < half {
			if op == OpSDiv {
				return c.Bin(OpUDiv, x, y)
			}
			return c.Bin(OpURem, x, y)
		}
	case OpAnd:
		if x == y {
			return x
		}
		if y.op == OpConst {
			if y.k == 0 {
				return y
			}
			if y.k == m {
				return x
			}
			// contiguous low mask covering the range
			if y.k&(y.k+1) == 0 && x.hi <= y.k {
				return x
			}
			if x.op == OpAnd && x.b.op == OpConst {
				return c.Bin(OpAnd, x.a, c.Const(w, x.b.k&y.k))
			}
			if x.op == OpZExt && y.k&mask(x.a.w) == mask(x.a.w) {
				return x
			}
			// bits known zero by trailing shift
			if x.op == OpShl && x.b.op == OpConst && x.b.k < 64 && y.k>>x.b.k == 0 {
				return c.Const(w, 0)
			}
			if x.op == OpOr {
				return c.Bin(OpOr, c.Bin(OpAnd, x.a, y), c.Bin(OpAnd, x.b, y))
			}
			if x.hi&y.k == 0 && bits.Len64(x.hi) <= bits.TrailingZeros64(y.k) {
				return c.Const(w, 0)
			}
		}
	case OpOr:
		if x == y {
			return x
		}
		if y.op == OpConst {
			if y.k == 0 {
				return x
			}
			if y.k == m {
				return y
			}
			n := bits.Len64(y.k)
			if x.op == OpAdd && n <= trailing(x, 8) { // no bit in common
				return c.Bin(OpAdd, x, y)
			}
			if x.op == OpAdd && x.b.op == OpConst && n <= trailing(x.a, 8) {
				r := c.Bin(OpAdd, x.a, c.Const(w, x.b.k|y.k)) // the low bits are known
				if d := (x.b.k | y.k) - x.b.k; x.hi <= m-d {
					r = c.tighten(r, x.lo+d, x.hi+d)
				}
				return r
			}
		}
	case OpXor:
		if x == y {
			return c.Const(w, 0)
		}
		if y.op == OpConst {
			if y.k == 0 {
				return x
			}
			if y.k == m {
				return c.Not(x)
			}
		}
	case OpShl, OpLShr, OpAShr:
		if x.op == OpConst && x.k == 0 {
			return x
		}
		if op == OpAShr && x.hi < uint64(1)<<(w-1) {
			op = OpLShr
		}
		if y.op == OpConst {
			if y.k == 0 {
				return x
			}
			if y.k >= uint64(w) && op != OpAShr {
				return c.Const(w, 0)
			}
			if op == OpLShr {
				if x.hi>>y.k == 0 {
					return c.Const(w, 0)
				}
				if x.op == OpLShr && x.b.op == OpConst {
					return c.Bin(OpLShr, x.a, c.Const(w, min(x.b.k+y.k, uint64(w))))
				}
				if x.op == OpShl && x.b == y {
					// drop the high bits only
					if x.a.hi<<y.k>>y.k == x.a.hi && x.a.hi<<y.k <= m {
						return x.a
					}
					return c.Bin(OpAnd, x.a, c.Const(w, m>>y.k))
				}
				if x.op == OpOr {
					return c.Bin(OpOr, c.Bin(OpLShr, x.a, y), c.Bin(OpLShr, x.b, y))
				}
			}
			if op == OpShl && x.op == OpAdd && x.b.op == OpConst {
				return c.tightenShl(c.Bin(OpAdd, c.Bin(OpShl, x.a, y), c.Const(w, x.b.k<<y.k)), x, y.k)
			}
			if op == OpShl && x.op == OpShl && x.b.op == OpConst {
				return c.Bin(OpShl, x.a, c.Const(w, min(x.b.k+y.k, uint64(w))))
			}
		}
	}
	return c.mk(op, w, 0, x, y, nil)
}

func (c *Ctx) Not(x *Term) *Term {
	if x.op == OpConst {
		return c.Const(x.w, ^x.k)
	}
	if x.op == OpNot {
		return x.a
	}
	return c.mk(OpNot, x.w, 0, x, nil, nil)
}

func (c *Ctx) Neg(x *Term) *Term {
	if x.op == OpConst {
		return c.Const(x.w, -x.k)
	}
	if x.op == OpNeg {
		return x.a
	}
	if x.op == OpSub {
		return c.Bin(OpSub, x.b, x.a)
	}
	return c.mk(OpNeg, x.w, 0, x, nil, nil)
}

func (c *Ctx) ZExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.op == OpConst {
		return c.Const(w, x.k)
	}
	if x.op == OpZExt {
		return c.ZExt(x.a, w)
	}
	if x.op == OpIte && (x.b.op == OpConst && x.c.op == OpConst) {
		return c.Ite(x.a, c.ZExt(x.b, w), c.ZExt(x.c, w))
	}
	if x.op == OpExtract && x.k == 0 && x.a.hi <= mask(x.w) {
		if x.a.w > w {
			return c.Extract(x.a, 0, w)
		}
		return c.ZExt(x.a, w)
	}
	if x.op == OpAdd && x.b.op == OpConst {
		k, nk := x.b.k, (-x.b.k)&mask(x.w)
		if h, cr := bits.Add64(x.a.hi, k, 0); cr == 0 && h <= mask(x.w) {
			return c.tighten(c.Bin(OpAdd, c.ZExt(x.a, w), c.Const(w, k)), x.lo, x.hi)
		}
		if x.a.lo >= nk {
			return c.tighten(c.Bin(OpAdd, c.ZExt(x.a, w), c.Const(w, -nk)), x.lo, x.hi)
		}
	}
	return c.mk(OpZExt, w, 0, x, nil, nil)
}

func (c *Ctx) SExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.op == OpConst {
		return c.Const(w, uint64(sext(x.k, x.w)))
	}
	if x.hi < uint64(1)<<(x.w-1) {
		return c.ZExt(x, w)
	}
	if x.op == OpSExt {
		return c.SExt(x.a, w)
	}
	return c.mk(OpSExt, w, 0, x, nil, nil)
}

// Extract w bits starting at bit lo.
func (c *Ctx) Extract(x *Term, lo uint64, w uint8) *Term {
	r := c.extract(x, lo, w)
	if lo >= 64 || r.op == OpConst {
		return r
	}
	// whatever shape r has, it is these bits of x
	if a, b := x.lo>>lo, x.hi>>lo; a&^mask(w) == b&^mask(w) {
		return c.tighten(r, a&mask(w), b&mask(w))
	}
	return r
}

// tighten records that lo <= t <= hi always holds.
func (c *Ctx) tighten(t *Term, lo, hi uint64) *Term {
	if t.op == OpConst {
		return t
	}
	t.lo, t.hi = max(t.lo, lo), min(t.hi, hi)
	if t.lo == t.hi {
		return c.Const(t.w, t.lo)
	}
	return t
}

func (c *Ctx) extract(x *Term, lo uint64, w uint8) *Term {
	if lo == 0 && x.w == w {
		return x
	}
	if lo >= 64 || x.hi>>lo == 0 {
		return c.Const(w, 0)
	}
	switch x.op {
	case OpConst:
		return c.Const(w, x.k>>lo)
	case OpExtract:
		return c.Extract(x.a, x.k+lo, w)
	case OpZExt:
		if lo+uint64(w) <= uint64(x.a.w) {
			return c.Extract(x.a, lo, w)
		}
		if lo >= uint64(x.a.w) {
			return c.Const(w, 0)
		}
		if lo == 0 {
			return c.ZExt(x.a, w)
		}
		return c.ZExt(c.Extract(x.a, lo, x.a.w-uint8(lo)), w)
	case OpSExt:
		if lo+uint64(w) <= uint64(x.a.w) {
			return c.Extract(x.a, lo, w)
		}
		if lo == 0 && w > x.a.w {
			return c.SExt(x.a, w)
		}
	case OpAnd, OpOr, OpXor:
		return c.Bin(x.op, c.Extract(x.a, lo, w), c.Extract(x.b, lo, w))
	case OpNot:
		return c.Not(c.Extract(x.a, lo, w))
	case OpLShr:
		if x.b.op == OpConst && lo+x.b.k+uint64(w) <= uint64(x.w) {
			return c.Extract(x.a, lo+x.b.k, w)
		}
	case OpShl:
		if x.b.op == OpConst {
			if lo >= x.b.k {
				return c.Extract(x.a, lo-x.b.k, w)
			}
			if lo+uint64(w) <= x.b.k {
				return c.Const(w, 0)
			}
			if lo == 0 {
				return c.Bin(OpShl, c.Extract(x.a, 0, w), c.Const(w, x.b.k))
			}
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return c.Bin(x.op, c.Extract(x.a, 0, w), c.Extract(x.b, 0, w))
		}
	case OpIte:
		if x.b.op == OpConst || x.c.op == OpConst {
			return c.Ite(x.a, c.Extract(x.b, lo, w), c.Extract(x.c, lo, w))
		}
	}
	return c.mk(OpExtract, w, lo, x, nil, nil)
}

func (c *Ctx) Ite(p, x, y *Term) *Term {
	if p.op == OpConst {
		if p.k != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if p.op == OpBNot {
		return c.Ite(p.a, y, x)
	}
	if x.w == 0 {
		if x.op == OpConst {
			if x.k != 0 {
				return c.Or(p, y)
			}
			return c.And(c.BNot(p), y)
		}
		if y.op == OpConst {
			if y.k != 0 {
				return c.Or(c.BNot(p), x)
			}
			return c.And(p, x)
		}
	}
	if x.op == OpIte && x.a == p {
		x = x.b
	}
	if y.op == OpIte && y.a == p {
		y = y.c
	}
	if x == y {
		return x
	}
	return c.mk(OpIte, x.w, 0, p, x, y)
}

func (c *Ctx) BNot(x *Term) *Term {
	if x.op == OpConst {
		return c.Bool(x.k == 0)
	}
	if x.op == OpBNot {
		return x.a
	}
	return c.mk(OpBNot, 0, 0, x, nil, nil)
}

func (c *Ctx) And(x, y *Term) *Term {
	if x.op == OpConst {
		if x.k == 0 {
			return x
		}
		return y
	}
	if y.op == OpConst {
		if y.k == 0 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if c.BNot(x) == y {
		return c.fls
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OpBAnd, 0, 0, x, y, nil)
}

func (c *Ctx) Or(x, y *Term) *Term {
	return c.BNot(c.And(c.BNot(x), c.BNot(y)))
}

func (c *Ctx) Eq(x, y *Term) *Term {
	if x == y {
		return c.tru
	}
	if x.op == OpConst {
		x, y = y, x
	}
	if x.op == OpConst && y.op == OpConst {
		return c.Bool(x.k == y.k)
	}
	if x.w == 0 {
		if y.op == OpConst {
			if y.k != 0 {
				return x
			}
			return c.BNot(x)
		}
		if x.op == OpBNot && y.op == OpBNot {
			return c.Eq(x.a, y.a)
		}
		if x.id > y.id {
			x, y = y, x
		}
		return c.mk(OpEq, 0, 0, x, y, nil)
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", x.w, y.w))
	}
	if x.hi < y.lo || y.hi < x.lo {
		return c.fls
	}
	if y.op == OpConst {
		switch x.op {
		case OpZExt:
			if y.k > mask(x.a.w) {
				return c.fls
			}
			return c.Eq(x.a, c.Const(x.a.w, y.k))
		case OpSExt:
			v := c.Const(x.a.w, y.k)
			if c.SExt(v, x.w) != y {
				return c.fls
			}
			return c.Eq(x.a, v)
		case OpAdd:
			if x.b.op == OpConst {
				return c.Eq(x.a, c.Const(x.w, y.k-x.b.k))
			}
		case OpXor:
			if x.b.op == OpConst {
				return c.Eq(x.a, c.Const(x.w, y.k^x.b.k))
			}
		case OpNot:
			return c.Eq(x.a, c.Const(x.w, ^y.k))
		case OpSub:
			if y.k == 0 {
				return c.Eq(x.a, x.b)
			}
		case OpShl:
			if x.b.op == OpConst && x.a.hi<<x.b.k>>x.b.k == x.a.hi && x.a.hi<<x.b.k <= mask(x.w) {
				if y.k&(mask(uint8(x.b.k))) != 0 {
					return c.fls
				}
				return c.Eq(x.a, c.Const(x.w, y.k>>x.b.k))
			}
		case OpIte:
			if x.b.op == OpConst || x.c.op == OpConst {
				return c.Ite(x.a, c.Eq(x.b, y), c.Eq(x.c, y))
			}
		}
	} else {
		if x.op == OpZExt && y.op == OpZExt && x.a.w == y.a.w {
			return c.Eq(x.a, y.a)
		}
		if x.op == OpAdd && y.op == OpAdd && x.b == y.b {
			return c.Eq(x.a, y.a)
		}
		if x.op == OpAdd && x.a == y && x.b.op == OpConst {
			return c.fls // x.b != 0
		}
		if y.op == OpAdd && y.a == x && y.b.op == OpConst {
			return c.fls
		}
	}
	if y.op != OpConst && x.id > y.id {
		x, y = y, x
	}
	return c.mk(OpEq, 0, 0, x, y, nil)
}

func (c *Ctx) Ult(x, y *Term) *Term {
	if x.op == OpConst && y.op == OpConst {
		return c.Bool(x.k < y.k)
	}
	if x == y {
		return c.fls
	}
	if x.hi < y.lo {
		return c.tru
	}
	if x.lo >= y.hi {
		return c.fls
	}
	if y.op == OpConst {
		if y.k == 1 {
			return c.Eq(x, c.Const(x.w, 0))
		}
		if x.op == OpZExt && y.k <= mask(x.a.w) {
			return c.Ult(x.a, c.Const(x.a.w, y.k))
		}
		if x.op == OpAdd && x.b.op == OpConst {
			// x.a + k <u y when x.a + k cannot wrap
			if h, cr := bits.Add64(x.a.hi, x.b.k, 0); cr == 0 && h <= mask(x.w) {
				if y.k <= x.b.k {
					return c.fls
				}
				return c.Ult(x.a, c.Const(x.w, y.k-x.b.k))
			}
		}
		if x.op == OpShl && x.b.op == OpConst && x.a.hi<<x.b.k>>x.b.k == x.a.hi && x.a.hi<<x.b.k <= mask(x.w) {
			q := y.k >> x.b.k
			if q<<x.b.k != y.k {
				q++
			}
			return c.Ult(x.a, c.Const(x.w, q))
		}
		if x.op == OpIte && (x.b.op == OpConst && x.c.op == OpConst) {
			return c.Ite(x.a, c.Ult(x.b, y), c.Ult(x.c, y))
		}
	}
	if x.op == OpConst {
		if x.k == 0 {
			return c.BNot(c.Eq(y, c.Const(x.w, 0)))
		}
		if y.op == OpZExt && x.k <= mask(y.a.w) {
			return c.Ult(c.Const(y.a.w, x.k), y.a)
		}
		if x.k == mask(x.w) {
			return c.fls
		}
		if y.op == OpAdd && y.b.op == OpConst {
			if h, cr := bits.Add64(y.a.hi, y.b.k, 0); cr == 0 && h <= mask(x.w) {
				if x.k < y.b.k {
					return c.tru
				}
				return c.Ult(c.Const(x.w, x.k-y.b.k), y.a)
			}
		}
		if y.op == OpShl && y.b.op == OpConst && y.a.hi<<y.b.k>>y.b.k == y.a.hi && y.a.hi<<y.b.k <= mask(x.w) {
			return c.Ult(c.Const(x.w, x.k>>y.b.k), y.a)
		}
		// canonical form: k < y  <=>  not (y < k+1)
		return c.BNot(c.Ult(y, c.Const(x.w, x.k+1)))
	}
	if x.op == OpZExt && y.op == OpZExt && x.a.w == y.a.w {
		return c.Ult(x.a, y.a)
	}
	return c.mk(OpUlt, 0, 0, x, y, nil)
}

func (c *Ctx) Ule(x, y *Term) *Term { return c.BNot(c.Ult(y, x)) }

func (c *Ctx) Slt(x, y *Term) *Term {
	if x.op == OpConst && y.op == OpConst {
		return c.Bool(sext(x.k, x.w) < sext(y.k, y.w))
	}
	if x == y {
		return c.fls
	}
	half := uint64(1) << (x.w - 1)
	xn, yn := x.hi < half, y.hi < half
	if xn && yn {
		return c.Ult(x, y)
	}
	xneg, yneg := x.lo >= half, y.lo >= half
	if xn && yneg {
		return c.fls
	}
	if xneg && yn {
		return c.tru
	}
	if xneg && yneg {
		return c.Ult(x, y)
	}
	if x.op == OpConst && x.k != half-1 {
		// k < y <=> not (y < k+1)
		return c.BNot(c.Slt(y, c.Const(x.w, x.k+1)))
	}
	if x.op == OpConst {
		return c.fls
	}
	if x.op == OpSExt && y.op == OpSExt && x.a.w == y.a.w {
		return c.Slt(x.a, y.a)
	}
	return c.mk(OpSlt, 0, 0, x, y, nil)
}

func (c *Ctx) Sle(x, y *Term) *Term { return c.BNot(c.Slt(y, x)) }

// ---------------------------------------------------------------------------
// substitution of variables/terms by constants

func (c *Ctx) rebuild(t *Term, x, y, z *Term) *Term {
	switch t.op {
	case OpAdd, OpSub, OpMul, OpUDiv, OpURem, OpSDiv, OpSRem, OpAnd, OpOr, OpXor, OpShl, OpLShr, OpAShr:
		return c.Bin(t.op, x, y)
	case OpNot:
		return c.Not(x)
	case OpNeg:
		return c.Neg(x)
	case OpZExt:
		return c.ZExt(x, t.w)
	case OpSExt:
		return c.SExt(x, t.w)
	case OpExtract:
		return c.Extract(x, t.k, t.w)
	case OpIte:
		return c.Ite(x, y, z)
	case OpEq:
		return c.Eq(x, y)
	case OpUlt:
		return c.Ult(x, y)
	case OpSlt:
		return c.Slt(x, y)
	case OpBNot:
		return c.BNot(x)
	case OpBAnd:
		return c.And(x, y)
	}
	panic("rebuild")
}

func (c *Ctx) Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if t.op == OpConst {
		return t
	}
	if r, ok := m[t]; ok {
		return r
	}
	if t.op == OpVar {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var x, y, z *Term
	if t.a != nil {
		x = c.Subst(t.a, m, memo)
	}
	if t.b != nil {
		y = c.Subst(t.b, m, memo)
	}
	if t.c != nil {
		z = c.Subst(t.c, m, memo)
	}
	r := t
	if x != t.a || y != t.b || z != t.c {
		r = c.rebuild(t, x, y, z)
		if r2, ok := m[r]; ok {
			r = r2
		}
	}
	memo[t] = r
	return r
}

// ---------------------------------------------------------------------------
// evaluation under a model (variables absent from the model are their lo)

type Model map[*Term]uint64

func (c *Ctx) NewEval() {
	c.stamp++
	if len(c.memoV) < len(c.terms)+1 {
		n := len(c.terms)*2 + 1024
		v := make([]uint64, n)
		s := make([]uint32, n)
		copy(v, c.memoV)
		copy(s, c.memoS)
		c.memoV, c.memoS = v, s
	}
}

func (c *Ctx) Eval(t *Term, m Model) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if t.op == OpVar {
		if v, ok := m[t]; ok {
			return v
		}
		return t.lo
	}
	if int(t.id) >= len(c.memoV) {
		st := c.stamp
		n := len(c.terms)*2 + 1024
		v := make([]uint64, n)
		s := make([]uint32, n)
		copy(v, c.memoV)
		copy(s, c.memoS)
		c.memoV, c.memoS = v, s
		c.stamp = st
	}
	if c.memoS[t.id] == c.stamp {
		return c.memoV[t.id]
	}
	var r uint64
	switch t.op {
	case OpIte:
		if c.Eval(t.a, m) != 0 {
			r = c.Eval(t.b, m)
		} else {
			r = c.Eval(t.c, m)
		}
	case OpNot:
		r = ^c.Eval(t.a, m) & mask(t.w)
	case OpNeg:
		r = -c.Eval(t.a, m) & mask(t.w)
	case OpZExt:
		r = c.Eval(t.a, m)
	case OpSExt:
		r = uint64(sext(c.Eval(t.a, m), t.a.w)) & mask(t.w)
	case OpExtract:
		r = (c.Eval(t.a, m) >> t.k) & mask(t.w)
	case OpEq:
		r = b2u(c.Eval(t.a, m) == c.Eval(t.b, m))
	case OpUlt:
		r = b2u(c.Eval(t.a, m) < c.Eval(t.b, m))
	case OpSlt:
		r = b2u(sext(c.Eval(t.a, m), t.a.w) < sext(c.Eval(t.b, m), t.a.w))
	case OpBNot:
		r = 1 - c.Eval(t.a, m)
	case OpBAnd:
		r = c.Eval(t.a, m)
		if r != 0 {
			r = c.Eval(t.b, m)
		}
	default:
		r = foldBin(t.op, t.w, c.Eval(t.a, m), c.Eval(t.b, m))
	}
	c.memoV[t.id] = r
	c.memoS[t.id] = c.stamp
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
