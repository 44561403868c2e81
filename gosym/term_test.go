package main

import (
	"math/rand"
	"testing"
)

// TestTerms builds random terms and compares every simplified term, and its bounds,
// with the values of the operations it stands for, under several models.
func TestTerms(t *testing.T) {
	const models = 24
	ops := []Op{OpAdd, OpSub, OpMul, OpUDiv, OpURem, OpSDiv, OpSRem, OpAnd, OpOr, OpXor, OpShl, OpLShr, OpAShr}
	for seed := int64(0); seed < 6000; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewCtx()
		type node struct {
			t *Term
			v [models]uint64
		}
		widths := []uint8{1, 8, 16, 32, 64}
		var ns, bs []node
		ms := make([]Model, models)
		for i := range ms {
			ms[i] = Model{}
		}
		add := func(l *[]node, x *Term, val func(i int) uint64, what string) {
			n := node{t: x}
			for i := range ms {
				n.v[i] = val(i)
				c.NewEval()
				if got := c.Eval(x, ms[i]); got != n.v[i] {
					t.Fatalf("seed %d %s: %x, want %x", seed, what, got, n.v[i])
				}
				if x.w > 0 && (n.v[i] < x.lo || n.v[i] > x.hi) {
					t.Fatalf("seed %d %s: %x outside %x..%x", seed, what, n.v[i], x.lo, x.hi)
				}
			}
			*l = append(*l, n)
		}
		for k := 0; k < 4; k++ {
			w := widths[r.Intn(5)]
			lo := uint64(0)
			hi := mask(w)
			if r.Intn(3) > 0 {
				hi = r.Uint64() & mask(w) >> uint(r.Intn(int(w)))
				if r.Intn(2) == 0 && hi > 0 {
					lo = uint64(r.Int63()) % hi
				}
			}
			v := c.Var(string(rune('a'+k)), w, lo, hi)
			for i := range ms {
				switch {
				case i == 0:
					ms[i][v] = lo
				case i == 1:
					ms[i][v] = hi
				case hi-lo == ^uint64(0):
					ms[i][v] = r.Uint64()
				default:
					ms[i][v] = lo + r.Uint64()%(hi-lo+1)
				}
			}
			add(&ns, v, func(i int) uint64 { return ms[i][v] }, "var")
		}
		bs = append(bs, node{t: c.Bool(true)})
		for i := range bs[0].v {
			bs[0].v[i] = 1
		}
		konst := func(w uint8) node {
			var k uint64
			switch r.Intn(6) {
			case 0:
				k = uint64(r.Intn(8))
			case 1:
				k = -uint64(r.Intn(200))
			case 2:
				k = 1 << uint(r.Intn(int(w)))
			case 3:
				k = 1<<uint(r.Intn(int(w))) - 1
			case 4:
				k = []uint64{3, 4, 12, 86400, 146097, 1461, 100, 2141, 255, 0xff00}[r.Intn(10)]
			default:
				k = r.Uint64()
			}
			n := node{t: c.Const(w, k&mask(w))}
			for i := range n.v {
				n.v[i] = k & mask(w)
			}
			return n
		}
		for k := 0; k < 60; k++ {
			x := ns[len(ns)-1-r.Intn(min(len(ns), 8))]
			w := x.t.w
			var y node
			for _, j := range r.Perm(len(ns)) {
				if ns[j].t.w == w {
					y = ns[j]
					break
				}
			}
			if y.t == nil || r.Intn(2) == 0 {
				y = konst(w)
			}
			switch r.Intn(12) {
			case 0:
				add(&ns, c.Not(x.t), func(i int) uint64 { return ^x.v[i] & mask(w) }, "not")
			case 1:
				add(&ns, c.Neg(x.t), func(i int) uint64 { return -x.v[i] & mask(w) }, "neg")
			case 2:
				w2 := widths[r.Intn(5)]
				if w2 > w {
					if r.Intn(3) > 0 {
						add(&ns, c.ZExt(x.t, w2), func(i int) uint64 { return x.v[i] }, "zext")
					} else {
						add(&ns, c.SExt(x.t, w2), func(i int) uint64 { return uint64(sext(x.v[i], w)) & mask(w2) }, "sext")
					}
				} else if w2 < w {
					lo := uint64(0)
					if r.Intn(2) == 0 {
						lo = uint64(r.Intn(int(w-w2) + 1))
					}
					add(&ns, c.Extract(x.t, lo, w2), func(i int) uint64 { return x.v[i] >> lo & mask(w2) }, "extract")
				}
			case 3:
				p := bs[r.Intn(len(bs))]
				add(&ns, c.Ite(p.t, x.t, y.t), func(i int) uint64 {
					if p.v[i] != 0 {
						return x.v[i]
					}
					return y.v[i]
				}, "ite")
			case 4:
				switch r.Intn(5) {
				case 0:
					add(&bs, c.Eq(x.t, y.t), func(i int) uint64 { return b2u(x.v[i] == y.v[i]) }, "eq")
				case 1:
					add(&bs, c.Ult(x.t, y.t), func(i int) uint64 { return b2u(x.v[i] < y.v[i]) }, "ult")
				case 2:
					add(&bs, c.Slt(x.t, y.t), func(i int) uint64 { return b2u(sext(x.v[i], w) < sext(y.v[i], w)) }, "slt")
				case 3:
					add(&bs, c.Ule(y.t, x.t), func(i int) uint64 { return b2u(y.v[i] <= x.v[i]) }, "ule")
				case 4:
					add(&bs, c.Sle(y.t, x.t), func(i int) uint64 { return b2u(sext(y.v[i], w) <= sext(x.v[i], w)) }, "sle")
				}
			case 5:
				p, q := bs[r.Intn(len(bs))], bs[r.Intn(len(bs))]
				switch r.Intn(3) {
				case 0:
					add(&bs, c.And(p.t, q.t), func(i int) uint64 { return p.v[i] & q.v[i] }, "and")
				case 1:
					add(&bs, c.Or(p.t, q.t), func(i int) uint64 { return p.v[i] | q.v[i] }, "or")
				case 2:
					add(&bs, c.BNot(p.t), func(i int) uint64 { return 1 - p.v[i] }, "bnot")
				}
			default:
				op := ops[r.Intn(len(ops))]
				if r.Intn(8) == 0 {
					x, y = y, x
				}
				add(&ns, c.Bin(op, x.t, y.t), func(i int) uint64 { return foldBin(op, w, x.v[i], y.v[i]) }, "bin")
			}
		}
	}
}
