package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type natFn func(w *Worker, args []value) value

const modPath = "github.com/dargueta/disko"
const symPkg = modPath + "/zz_verif/sym."
const modelsPkg = modPath + "/zz_verif/models"

// redirects replace a library function by a Go function of the models package.
var redirects = map[string]string{
	"compress/gzip.NewWriterLevel":  "GzipNewWriterLevel",
	"compress/gzip.NewWriter":       "GzipNewWriter",
	"(*compress/gzip.Writer).Write": "GzipWrite",
	"(*compress/gzip.Writer).Flush": "GzipFlush",
	"(*compress/gzip.Writer).Close": "GzipClose",
	"compress/gzip.NewReader":       "GzipNewReader",
	"(*compress/gzip.Reader).Read":  "GzipRead",
	"(*compress/gzip.Reader).Close": "GzipReaderClose",
}

// libRedirects replace a library function by a Go function of the libmod package.
var libRedirects = map[string]string{
	"encoding/binary.Decode": "BinaryDecode",
	"encoding/binary.Encode": "BinaryEncode",
	"encoding/binary.Append": "BinaryAppend",
	"fmt.Append":             "FmtAppend",
	"fmt.Appendf":            "FmtAppendf",
	"fmt.Appendln":           "FmtAppendln",
}

func (w *Worker) lookupNative(fn *ssa.Function) func(w *Worker, args []value) value {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if strings.HasPrefix(name, symPkg) {
		if f, ok := symFns[name[len(symPkg):]]; ok {
			return f
		}
		return nil
	}
	if f, ok := natives[name]; ok {
		return f
	}
	if r, ok := redirects[name]; ok && w.eng.models != nil {
		if m := w.eng.models.Func(r); m != nil {
			return func(w *Worker, args []value) value { return w.call(m, args, nil, nil) }
		}
	}
	if r, ok := libRedirects[name]; ok && w.eng.lib != nil {
		if m := w.eng.lib.Func(r); m != nil {
			return func(w *Worker, args []value) value { return w.call(m, args, nil, nil) }
		}
	}
	if e := w.eng.mcsv; e != nil {
		switch name {
		case "github.com/jszwec/csvutil.NewDecoder", "(*github.com/jszwec/csvutil.Decoder).Decode":
			m := e.Func(fn.Name())
			return func(w *Worker, args []value) value { return w.call(m, args, nil, nil) }
		}
	}
	return nil
}

func i64(w *Worker, n int) *Term { return w.ctx.Const(64, uint64(n)) }

func (w *Worker) concStr(v value, what string) string {
	s, ok := v.(string)
	if !ok {
		unsup("%s must be a constant string", what)
	}
	return s
}

func noop(w *Worker, args []value) value { return nil }

func atomicLoad(w *Worker, a []value) value { return w.load(a[0]) }
func atomicStore(w *Worker, a []value) value {
	w.storeTo(a[0], a[1], false)
	return nil
}
func atomicAdd(w *Worker, a []value) value {
	v := w.ctx.Bin(OpAdd, w.load(a[0]).(*Term), a[1].(*Term))
	w.storeTo(a[0], v, false)
	return v
}
func atomicSwap(w *Worker, a []value) value {
	v := w.load(a[0])
	w.storeTo(a[0], a[1], false)
	return v
}
func atomicCAS(w *Worker, a []value) value {
	v := w.load(a[0])
	var eq *Term
	if t, ok := v.(*Term); ok {
		eq = w.ctx.Eq(t, a[1].(*Term))
	} else {
		eq = w.ctx.Bool(v == a[1])
	}
	if w.branch(eq) {
		w.storeTo(a[0], a[2], false)
		return w.ctx.tru
	}
	return w.ctx.fls
}

func (w *Worker) funcByName(pkg, name string) *ssa.Function {
	p := w.eng.prog.ImportedPackage(pkg)
	if p == nil {
		unsup("package %s not loaded", pkg)
	}
	return p.Func(name)
}

func math1(f func(float64) float64) natFn {
	return func(w *Worker, a []value) value {
		x, ok := a[0].(float64)
		if !ok {
			unsup("symbolic float")
		}
		return f(x)
	}
}

var natives map[string]natFn
var symFns map[string]natFn

func init() {
	natives = map[string]natFn{
		"errors.Is": func(w *Worker, a []value) value { return w.errorsIs(a[0].(iface), a[1].(iface)) },
		"errors.As": func(w *Worker, a []value) value { return w.errorsAs(a[0].(iface), a[1].(iface)) },
		"fmt.Sprintf": func(w *Worker, a []value) value {
			s, _ := w.format(w.concStr(a[0], "format"), a[1].([]value))
			return s
		},
		"fmt.Errorf":   func(w *Worker, a []value) value { return w.errorf(w.concStr(a[0], "format"), a[1].([]value)) },
		"fmt.Sprint":   func(w *Worker, a []value) value { return w.sprint(a[0].([]value), false) },
		"fmt.Sprintln": func(w *Worker, a []value) value { return w.strConcat(w.sprint(a[0].([]value), true), "\n") },
		"fmt.Printf":   func(w *Worker, a []value) value { return tuple{i64(w, 0), iface{}} },
		"fmt.Println":  func(w *Worker, a []value) value { return tuple{i64(w, 0), iface{}} },
		"fmt.Print":    func(w *Worker, a []value) value { return tuple{i64(w, 0), iface{}} },
		"fmt.Fprintf": func(w *Worker, a []value) value {
			return w.fprint(a[0].(iface), func() value {
				s, _ := w.format(w.concStr(a[1], "format"), a[2].([]value))
				return s
			})
		},
		"fmt.Fprint": func(w *Worker, a []value) value {
			return w.fprint(a[0].(iface), func() value { return w.sprint(a[1].([]value), false) })
		},
		"fmt.Fprintln": func(w *Worker, a []value) value {
			return w.fprint(a[0].(iface), func() value { return w.strConcat(w.sprint(a[1].([]value), true), "\n") })
		},
		"maps.clone": func(w *Worker, a []value) value {
			x := a[0].(iface)
			m, _ := x.v.(*hmap)
			if m == nil {
				return x
			}
			t := x.t.Underlying().(*types.Map)
			c := newMap()
			for _, e := range m.ents {
				if !e.dead {
					w.mapSet(t.Key(), c, e.k, copyVal(e.v))
				}
			}
			return iface{x.t, c}
		},
		"(*log.Logger).output": func(w *Worker, a []value) value { return iface{} }, // for people
		"sort.Slice":           func(w *Worker, a []value) value { w.sortSlice(a[0].(iface), a[1]); return nil },
		"sort.SliceStable":     func(w *Worker, a []value) value { w.sortSlice(a[0].(iface), a[1]); return nil },
		"reflect.DeepEqual":    func(w *Worker, a []value) value { return w.deepEqualAny(a[0].(iface), a[1].(iface)) },

		"internal/bytealg.Equal": func(w *Worker, a []value) value {
			return w.strEq(w.bytesToStr(a[0].([]value)), w.bytesToStr(a[1].([]value)))
		},
		"internal/bytealg.Compare": func(w *Worker, a []value) value {
			return w.strCompare(w.bytesToStr(a[0].([]value)), w.bytesToStr(a[1].([]value)))
		},
		"internal/bytealg.CompareString": func(w *Worker, a []value) value { return w.strCompare(a[0], a[1]) },
		"strings.Compare":                func(w *Worker, a []value) value { return w.strCompare(a[0], a[1]) },
		"internal/bytealg.IndexByte": func(w *Worker, a []value) value {
			return w.indexByte(w.bytesToStr(a[0].([]value)), a[1].(*Term))
		},
		"internal/bytealg.IndexByteString": func(w *Worker, a []value) value { return w.indexByte(a[0], a[1].(*Term)) },
		"internal/bytealg.LastIndexByte": func(w *Worker, a []value) value {
			return w.lastIndexByte(w.bytesToStr(a[0].([]value)), a[1].(*Term))
		},
		"internal/bytealg.LastIndexByteString": func(w *Worker, a []value) value { return w.lastIndexByte(a[0], a[1].(*Term)) },
		"internal/bytealg.Count":               func(w *Worker, a []value) value { return w.countByte(w.bytesToStr(a[0].([]value)), a[1].(*Term)) },
		"internal/bytealg.CountString":         func(w *Worker, a []value) value { return w.countByte(a[0], a[1].(*Term)) },
		"internal/bytealg.MakeNoZero": func(w *Worker, a []value) value {
			n := w.makeLen(a[0].(*Term), "len")
			return w.makeSlice(types.Typ[types.Uint8], n, roundCap(n))[:n]
		},
		"strings.Index": func(w *Worker, a []value) value { return w.indexStr(a[0], a[1]) },
		"bytes.Index": func(w *Worker, a []value) value {
			return w.indexStr(w.bytesToStr(a[0].([]value)), w.bytesToStr(a[1].([]value)))
		},
		"internal/stringslite.Index": func(w *Worker, a []value) value { return w.indexStr(a[0], a[1]) },
		"internal/abi.NoEscape":      func(w *Worker, a []value) value { return a[0] },
		"internal/abi.Escape":        func(w *Worker, a []value) value { return a[0] },
		"runtime.KeepAlive":          noop,
		"runtime.SetFinalizer":       noop,
		"runtime.GC":                 noop,
		"internal/race.Acquire":      noop,
		"os.Getenv":                  func(w *Worker, a []value) value { return "" },
		"syscall.Getenv":             func(w *Worker, a []value) value { return tuple{"", w.ctx.fls} },
		"time.initLocal":             func(w *Worker, a []value) value { return w.initLocal() },
		"time.runtimeNano":           func(w *Worker, a []value) value { return w.ctx.Const(64, 1) },
		"time.runtimeNow": func(w *Worker, a []value) value {
			return tuple{w.ctx.Const(64, 1700000000), w.ctx.Const(32, 0), w.ctx.Const(64, 1)}
		},
		"time.now": func(w *Worker, a []value) value {
			return tuple{w.ctx.Const(64, 1700000000), w.ctx.Const(32, 0), w.ctx.Const(64, 1)}
		},
		"math.Float64bits":     func(w *Worker, a []value) value { return w.ctx.Const(64, math.Float64bits(a[0].(float64))) },
		"math.Float64frombits": func(w *Worker, a []value) value { return math.Float64frombits(w.concretize(a[0].(*Term))) },
		"math.Ceil":            math1(math.Ceil),
		"math.Floor":           math1(math.Floor),
		"math.Trunc":           math1(math.Trunc),
		"math.Sqrt":            math1(math.Sqrt),
		"math.Log":             math1(math.Log),
		"math.Log2":            math1(math.Log2),
		"math.Log10":           math1(math.Log10),
		"math.Abs":             math1(math.Abs),
		"math.Round":           math1(math.Round),
		"math.Pow":             func(w *Worker, a []value) value { return math.Pow(a[0].(float64), a[1].(float64)) },

		"(*sync.Mutex).Lock":            noop,
		"(*sync.Mutex).Unlock":          noop,
		"(*sync.Mutex).TryLock":         func(w *Worker, a []value) value { return w.ctx.tru },
		"(*sync.RWMutex).Lock":          noop,
		"(*sync.RWMutex).Unlock":        noop,
		"(*sync.RWMutex).RLock":         noop,
		"(*sync.RWMutex).RUnlock":       noop,
		"(*internal/sync.Mutex).Lock":   noop,
		"(*internal/sync.Mutex).Unlock": noop,
		"(*sync.Pool).Put":              noop,
		"(*sync.Pool).Get": func(w *Worker, a []value) value {
			s := (*w.cell(a[0])).(structure)
			f, ok := s[len(s)-1].(*funcval)
			if !ok || f == nil {
				return iface{}
			}
			return w.callValue(f, nil, nil)
		},
		"encoding/binary.Read":  func(w *Worker, a []value) value { return w.binaryRead(a[0].(iface), a[1].(iface), a[2].(iface)) },
		"encoding/binary.Write": func(w *Worker, a []value) value { return w.binaryWrite(a[0].(iface), a[1].(iface), a[2].(iface)) },
		"encoding/binary.Size":  func(w *Worker, a []value) value { return w.binarySize(a[0].(iface)) },
		"strings.ToUpper":       func(w *Worker, a []value) value { return w.mapCase(a[0], 'a', 'z', 0xE0, "ToUpper") },
		"strings.ToLower":       func(w *Worker, a []value) value { return w.mapCase(a[0], 'A', 'Z', 0x20, "ToLower") },
	}
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		natives["sync/atomic.Load"+k] = atomicLoad
		natives["sync/atomic.Store"+k] = atomicStore
		natives["sync/atomic.Add"+k] = atomicAdd
		natives["sync/atomic.Swap"+k] = atomicSwap
		natives["sync/atomic.CompareAndSwap"+k] = atomicCAS
	}
	natives["sync/atomic.AndUint32"] = func(w *Worker, a []value) value {
		v := w.load(a[0])
		w.storeTo(a[0], w.ctx.Bin(OpAnd, v.(*Term), a[1].(*Term)), false)
		return v
	}

	symFns = map[string]natFn{
		"Byte":   func(w *Worker, a []value) value { return w.newVar(8, 0, 255) },
		"Uint8":  func(w *Worker, a []value) value { return w.newVar(8, 0, 255) },
		"Uint16": func(w *Worker, a []value) value { return w.newVar(16, 0, 65535) },
		"Uint32": func(w *Worker, a []value) value { return w.newVar(32, 0, mask(32)) },
		"Uint64": func(w *Worker, a []value) value { return w.newVar(64, 0, mask(64)) },
		"Uint":   func(w *Worker, a []value) value { return w.newVar(64, 0, mask(64)) },
		"Int64":  func(w *Worker, a []value) value { return w.newVar(64, 0, mask(64)) },
		"Int":    func(w *Worker, a []value) value { return w.newVar(64, 0, mask(64)) },
		"Bool": func(w *Worker, a []value) value {
			v := w.newVar(8, 0, 1)
			return w.ctx.Eq(v, w.ctx.Const(8, 1))
		},
		"ByteRange": func(w *Worker, a []value) value {
			lo, hi := w.concretize(a[0].(*Term)), w.concretize(a[1].(*Term))
			return w.newVar(8, lo, hi)
		},
		"Range": func(w *Worker, a []value) value {
			lo, hi := int64(w.concretize(a[0].(*Term))), int64(w.concretize(a[1].(*Term)))
			if lo > hi {
				panic(endPath{"empty range"})
			}
			v := w.newVar(64, 0, uint64(hi-lo))
			return w.ctx.Bin(OpAdd, v, w.ctx.Const(64, uint64(lo)))
		},
		"Choice": func(w *Worker, a []value) value {
			n := w.concretize(a[0].(*Term))
			return w.ctx.Const(64, w.choose(n))
		},
		"Bytes": func(w *Worker, a []value) value {
			n := int(w.concretize(a[0].(*Term)))
			r := make([]value, n)
			for i := range r {
				r[i] = w.newVar(8, 0, 255)
			}
			return r
		},
		"String": func(w *Worker, a []value) value {
			n := int(w.concretize(a[0].(*Term)))
			r := make([]*Term, n)
			for i := range r {
				r[i] = w.newVar(8, 0, 255)
			}
			return w.mkStr(r)
		},
		"StringRange": func(w *Worker, a []value) value {
			n := int(w.concretize(a[0].(*Term)))
			lo, hi := w.concretize(a[1].(*Term)), w.concretize(a[2].(*Term))
			r := make([]*Term, n)
			for i := range r {
				r[i] = w.newVar(8, lo, hi)
			}
			return w.mkStr(r)
		},
		"Assume": func(w *Worker, a []value) value { w.assume(a[0].(*Term)); return nil },
		"Assert": func(w *Worker, a []value) value { w.assert(a[0].(*Term), w.concStr(a[1], "label")); return nil },
		"Fail": func(w *Worker, a []value) value {
			w.assert(w.ctx.fls, w.concStr(a[0], "label"))
			return nil
		},
		"Cover": func(w *Worker, a []value) value {
			w.covers = append(w.covers, w.concStr(a[0], "label"))
			return nil
		},
		"Observe": func(w *Worker, a []value) value {
			o := obsRec{name: w.concStr(a[0], "name")}
			for _, v := range a[1].([]value) {
				x := v.(iface)
				if s, ok := x.v.([]value); ok {
					x.v = append([]value{}, s...)
				}
				o.vals = append(o.vals, x)
			}
			w.obs = append(w.obs, o)
			return nil
		},
		"Concretize": func(w *Worker, a []value) value { return w.ctx.Const(64, w.concretize(a[0].(*Term))) },
		"ConcByte":   func(w *Worker, a []value) value { return w.ctx.Const(8, w.concretize(a[0].(*Term))) },
		"Bound": func(w *Worker, a []value) value {
			n := w.concStr(a[0], "bound name")
			v := w.concretize(a[1].(*Term))
			if w.eng.tier == "thorough" {
				v = w.concretize(a[2].(*Term))
			}
			w.job.mu.Lock()
			w.job.Bounds[n] = int(v)
			w.job.mu.Unlock()
			return w.ctx.Const(64, v)
		},
		"Thorough": func(w *Worker, a []value) value { return w.ctx.Bool(w.eng.tier == "thorough") },
		"BytesEq": func(w *Worker, a []value) value {
			return w.strEq(w.bytesToStr(a[0].([]value)), w.bytesToStr(a[1].([]value)))
		},
		"AllZero": func(w *Worker, a []value) value {
			r := w.ctx.tru
			for _, b := range a[0].([]value) {
				r = w.ctx.And(r, w.ctx.Eq(b.(*Term), w.ctx.small[8][0]))
			}
			return r
		},
		"And": func(w *Worker, a []value) value {
			r := w.ctx.tru
			for _, b := range a[0].([]value) {
				r = w.ctx.And(r, b.(*Term))
			}
			return r
		},
		"Or": func(w *Worker, a []value) value {
			r := w.ctx.fls
			for _, b := range a[0].([]value) {
				r = w.ctx.Or(r, b.(*Term))
			}
			return r
		},
		"Implies": func(w *Worker, a []value) value { return w.ctx.Or(w.ctx.BNot(a[0].(*Term)), a[1].(*Term)) },
		"IteInt":  func(w *Worker, a []value) value { return w.ctx.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) },
		"IteByte": func(w *Worker, a []value) value { return w.ctx.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) },
		"Sat": func(w *Worker, a []value) value { // forks on the condition
			return w.ctx.Bool(w.branch(a[0].(*Term)))
		},
		"Fields": func(w *Worker, a []value) value {
			var out []value
			pt, ok := a[0].(iface).t.Underlying().(*types.Pointer)
			if !ok {
				unsup("Fields of %s", a[0].(iface).t)
			}
			st, ok := pt.Elem().Underlying().(*types.Struct)
			if !ok {
				unsup("Fields of %s", a[0].(iface).t)
			}
			key := w.concStr(a[1], "tag")
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				out = append(out, f.Name(), f.Type().String(), reflect.StructTag(st.Tag(i)).Get(key))
			}
			return out
		},
		"SetField": func(w *Worker, a []value) value {
			w.setField(a[0].(iface), w.concStr(a[1], "field"), a[2].(iface))
			return nil
		},
		"GetField": func(w *Worker, a []value) value { return w.getField(a[0].(iface), w.concStr(a[1], "field")) },
		"IsSlice": func(w *Worker, a []value) value {
			p, ok := a[0].(iface).t.Underlying().(*types.Pointer)
			if ok {
				_, ok = p.Elem().Underlying().(*types.Slice)
			}
			return w.ctx.Bool(ok)
		},
		"NewElem": func(w *Worker, a []value) value { return w.newElem(a[0].(iface)) },
		"Truncate": func(w *Worker, a []value) value {
			p := w.cell(a[0].(iface).v)
			s, _ := (*p).([]value)
			w.store(p, s[:0:0])
			return nil
		},
		"Append": func(w *Worker, a []value) value {
			p := w.cell(a[0].(iface).v)
			s, _ := (*p).([]value)
			w.store(p, append(append(make([]value, 0, len(s)+1), s...), copyVal(*w.cell(a[1].(iface).v))))
			return nil
		},
		"Stop": func(w *Worker, a []value) value { panic(endPath{"assume"}) },
		"StepLimit": func(w *Worker, a []value) value {
			return nil
		},
	}
}

// -------------------------------------------------------------------- strings

func (w *Worker) strCompare(a, b value) value {
	if w.branch(w.strEq(a, b)) {
		return i64(w, 0)
	}
	if w.branch(w.strLess(a, b)) {
		return i64(w, -1)
	}
	return i64(w, 1)
}

func (w *Worker) indexByte(s value, c *Term) value {
	n := strLen(s)
	for i := 0; i < n; i++ {
		if w.branch(w.ctx.Eq(w.strByte(s, i), c)) {
			return i64(w, i)
		}
	}
	return i64(w, -1)
}

func (w *Worker) lastIndexByte(s value, c *Term) value {
	for i := strLen(s) - 1; i >= 0; i-- {
		if w.branch(w.ctx.Eq(w.strByte(s, i), c)) {
			return i64(w, i)
		}
	}
	return i64(w, -1)
}

func (w *Worker) countByte(s value, c *Term) value {
	n := strLen(s)
	k := 0
	for i := 0; i < n; i++ {
		if w.branch(w.ctx.Eq(w.strByte(s, i), c)) {
			k++
		}
	}
	return i64(w, k)
}

func (w *Worker) indexStr(s, sub value) value {
	n, m := strLen(s), strLen(sub)
	for i := 0; i+m <= n; i++ {
		if w.branch(w.strEq(w.strSlice(s, i, i+m), sub)) {
			return i64(w, i)
		}
	}
	return i64(w, -1)
}

func (w *Worker) mapCase(s value, lo, hi byte, delta uint8, fn string) value {
	if c, ok := s.(string); ok {
		if fn == "ToUpper" {
			return strings.ToUpper(c)
		}
		return strings.ToLower(c)
	}
	ts := w.strTerms(s)
	ascii := w.ctx.tru
	for _, t := range ts {
		ascii = w.ctx.And(ascii, w.ctx.Ult(t, w.ctx.Const(8, 0x80)))
	}
	if w.branch(ascii) {
		r := make([]*Term, len(ts))
		for i, t := range ts {
			c := w.ctx
			in := c.And(c.Ule(c.Const(8, uint64(lo)), t), c.Ule(t, c.Const(8, uint64(hi))))
			r[i] = c.Ite(in, c.Bin(OpAdd, t, c.Const(8, uint64(delta))), t)
		}
		return w.mkStr(r)
	}
	// non-ASCII: rune by rune, non-ASCII bytes concrete
	it := &strIter{s: s}
	var out value = ""
	for {
		p := it.pos
		_, r, ok := w.nextRune(it)
		if !ok {
			break
		}
		if it.pos-p > 1 || r.op == OpConst {
			rs := string(rune(int32(w.concretize(r))))
			if fn == "ToUpper" {
				rs = strings.ToUpper(rs)
			} else {
				rs = strings.ToLower(rs)
			}
			out = w.strConcat(out, rs)
			continue
		}
		c := w.ctx
		t := w.strByte(s, p)
		in := c.And(c.Ule(c.Const(8, uint64(lo)), t), c.Ule(t, c.Const(8, uint64(hi))))
		out = w.strConcat(out, w.mkStr([]*Term{c.Ite(in, c.Bin(OpAdd, t, c.Const(8, uint64(delta))), t)}))
	}
	return out
}

// ------------------------------------------------------------------ formatting

// native Go value of a concrete interface, if possible
func (w *Worker) goValue(x iface) (any, bool) {
	if x.t == nil {
		return nil, true
	}
	switch v := x.v.(type) {
	case string:
		return v, true
	case float64:
		return v, true
	case *Term:
		if v.op != OpConst {
			v = w.simp(v)
		}
		if v.op != OpConst {
			return nil, false
		}
		wd, signed, ok := intInfo(x.t)
		if !ok {
			return nil, false
		}
		if wd == 0 {
			return v.k != 0, true
		}
		if signed {
			n := sext(v.k, wd)
			switch wd {
			case 8:
				return int8(n), true
			case 16:
				return int16(n), true
			case 32:
				return int32(n), true
			}
			return n, true
		}
		switch wd {
		case 8:
			return uint8(v.k), true
		case 16:
			return uint16(v.k), true
		case 32:
			return uint32(v.k), true
		}
		return v.k, true
	case []value:
		return w.goSlice(x.t, v)
	}
	return nil, false
}

func (w *Worker) hasMethod(t types.Type, name string) bool {
	ms := w.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		if f.Name() == name {
			sg := f.Type().(*types.Signature)
			return sg.Params().Len() == 0 && sg.Results().Len() == 1 && isString(sg.Results().At(0).Type())
		}
	}
	return false
}

// argString renders an argument for %v/%s.
func (w *Worker) argString(x iface, verb byte) value {
	if x.t == nil {
		if verb == 's' {
			return "%!s(<nil>)"
		}
		return "<nil>"
	}
	if isNilPtr(x.v) {
		return "<nil>"
	}
	for _, m := range []string{"Error", "String"} {
		if w.hasMethod(x.t, m) {
			r, _ := w.callMethod(x, m)
			return r
		}
	}
	switch v := x.v.(type) {
	case string, *symString, *opaque:
		return v
	case []value:
		if sl, ok := x.t.Underlying().(*types.Slice); ok && verb == 's' {
			if wd, _, _ := intInfo(sl.Elem()); wd == 8 {
				return w.bytesToStr(v)
			}
		}
	}
	if g, ok := w.goValue(x); ok {
		return fmt.Sprintf("%"+string(verb), g)
	}
	return w.newOpaque()
}

func (w *Worker) format(f string, args []value) (value, []iface) {
	var out value = ""
	var wrapped []iface
	ai := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = w.strConcat(out, f[i:])
			break
		}
		out = w.strConcat(out, f[i:i+j])
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.*", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			out = w.strConcat(out, "%!(NOVERB)")
			break
		}
		flags := f[st:i]
		verb := f[i]
		if verb == '[' { // explicit argument indexes
			return w.newOpaque(), nil
		}
		i++
		if verb == '%' {
			out = w.strConcat(out, "%")
			continue
		}
		if strings.Contains(flags, "*") {
			if ai >= len(args) {
				unsup("format with missing width")
			}
			g, ok := w.goValue(args[ai].(iface))
			ai++
			if !ok {
				return w.newOpaque(), wrapped
			}
			flags = strings.Replace(flags, "*", fmt.Sprint(g), 1)
		}
		if ai >= len(args) {
			out = w.strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		x := args[ai].(iface)
		ai++
		switch verb {
		case 'w', 'v', 's':
			if verb == 'w' {
				wrapped = append(wrapped, x)
			}
			vb := verb
			if vb == 'w' {
				vb = 'v'
			}
			if flags == "" || flags == "+" && verb != 's' {
				out = w.strConcat(out, w.argString(x, vb))
				continue
			}
			s := w.argString(x, vb)
			if c, ok := s.(string); ok {
				if strings.ContainsAny(flags, "#+ ") {
					out = w.strConcat(out, w.newOpaque())
					continue
				}
				out = w.strConcat(out, fmt.Sprintf("%"+flags+"s", c))
				continue
			}
			if _, ok := s.(*symString); ok {
				out = w.strConcat(out, w.padStr(s, flags))
				continue
			}
			out = w.strConcat(out, w.newOpaque())
		case 'c':
			if t, ok := x.v.(*Term); ok && t.op != OpConst && flags == "" {
				if !w.branch(w.ctx.Ult(t, w.ctx.Const(t.w, 0x80))) {
					out = w.strConcat(out, w.newOpaque())
					continue
				}
				out = w.strConcat(out, w.mkStr([]*Term{w.ctx.Extract(t, 0, 8)}))
				continue
			}
			if g, ok := w.goValue(x); ok {
				out = w.strConcat(out, fmt.Sprintf("%"+flags+"c", g))
			} else {
				out = w.strConcat(out, w.newOpaque())
			}
		case 'T':
			out = w.strConcat(out, w.newOpaque())
		default:
			if g, ok := w.goValue(x); ok && !(verb == 'q' && w.hasMethod(x.t, "Error")) {
				out = w.strConcat(out, fmt.Sprintf("%"+flags+string(verb), g))
			} else if ok := x.t != nil && (verb == 'q') && (w.hasMethod(x.t, "Error") || w.hasMethod(x.t, "String")); ok {
				s := w.argString(x, 's')
				if c, ok := s.(string); ok {
					out = w.strConcat(out, fmt.Sprintf("%"+flags+"q", c))
				} else {
					out = w.strConcat(out, w.newOpaque())
				}
			} else {
				out = w.strConcat(out, w.newOpaque())
			}
		}
	}
	if ai < len(args) {
		out = w.strConcat(out, w.newOpaque())
	}
	return out, wrapped
}

func (w *Worker) padStr(s value, flags string) value {
	left := strings.HasPrefix(flags, "-")
	fl := strings.TrimLeft(flags, "-")
	if strings.HasPrefix(fl, "0") {
		return w.newOpaque()
	}
	prec := -1
	if k := strings.IndexByte(fl, '.'); k >= 0 {
		p, err := strconv.Atoi(fl[k+1:])
		if err != nil {
			return w.newOpaque()
		}
		prec = p
		fl = fl[:k]
	}
	width := 0
	if fl != "" {
		n, err := strconv.Atoi(fl)
		if err != nil {
			return w.newOpaque()
		}
		width = n
	}
	if prec >= 0 {
		it := &strIter{s: s}
		k := 0
		for k < prec {
			if _, _, ok := w.nextRune(it); !ok {
				break
			}
			k++
		}
		s = w.strSlice(s, 0, it.pos)
	}
	n := 0
	it := &strIter{s: s}
	for {
		if _, _, ok := w.nextRune(it); !ok {
			break
		}
		n++
	}
	if n >= width {
		return s
	}
	pad := strings.Repeat(" ", width-n)
	if left {
		return w.strConcat(s, pad)
	}
	return w.strConcat(pad, s)
}

func (w *Worker) sprint(args []value, ln bool) value {
	var out value = ""
	prevStr := true
	for i, a := range args {
		x := a.(iface)
		isStr := x.t != nil && isString(x.t)
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = w.strConcat(out, " ")
		}
		out = w.strConcat(out, w.argString(x, 'v'))
		prevStr = isStr
	}
	return out
}

func (w *Worker) errorf(f string, args []value) value {
	s, wrapped := w.format(f, args)
	fp := w.eng.prog.ImportedPackage("fmt")
	mk := func(name string, st structure) value {
		t := types.NewPointer(fp.Type(name).Type())
		p := new(value)
		*p = st
		return iface{w.canonPtr(t), p}
	}
	var errs []value
	for _, x := range wrapped {
		if x.t != nil {
			errs = append(errs, x)
		}
	}
	switch {
	case len(wrapped) == 0:
		p := new(value)
		if fp.Type("wrapError") == nil {
			unsup("fmt.wrapError")
		}
		*p = structure{s}
		ep := w.eng.prog.ImportedPackage("errors")
		return iface{w.canonPtr(types.NewPointer(ep.Type("errorString").Type())), p}
	case len(wrapped) == 1:
		if len(errs) == 0 {
			return mk("wrapError", structure{s, iface{}})
		}
		return mk("wrapError", structure{s, errs[0]})
	}
	return mk("wrapErrors", structure{s, errs})
}

func (w *Worker) canonPtr(t types.Type) types.Type {
	k := t.String()
	if c, ok := w.eng.canon.Load(k); ok {
		return c.(types.Type)
	}
	c, _ := w.eng.canon.LoadOrStore(k, t)
	return c.(types.Type)
}

// ---------------------------------------------------------------------- errors

func (w *Worker) errorsIs(err, target iface) value {
	if err.t == nil || target.t == nil {
		return w.ctx.Bool(err.t == nil && target.t == nil)
	}
	cmp := types.Comparable(target.t)
	return w.ctx.Bool(w.errIs(err, target, cmp))
}

func methodOf(w *Worker, t types.Type, name string) *types.Signature {
	ms := w.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return ms.At(i).Obj().Type().(*types.Signature)
		}
	}
	return nil
}

func (w *Worker) errIs(err, target iface, cmp bool) bool {
	for {
		if cmp && types.Identical(err.t, target.t) && types.Comparable(err.t) {
			if w.branch(w.eq(err.t, err.v, target.v)) {
				return true
			}
		}
		if sg := methodOf(w, err.t, "Is"); sg != nil && sg.Params().Len() == 1 && sg.Results().Len() == 1 && types.IsInterface(sg.Params().At(0).Type()) {
			r, _ := w.callMethod(err, "Is", target)
			if w.branch(r.(*Term)) {
				return true
			}
		}
		sg := methodOf(w, err.t, "Unwrap")
		if sg == nil || sg.Params().Len() != 0 || sg.Results().Len() != 1 {
			return false
		}
		r, _ := w.callMethod(err, "Unwrap")
		switch x := r.(type) {
		case iface:
			if x.t == nil {
				return false
			}
			err = x
		case []value:
			for _, e := range x {
				ei := e.(iface)
				if ei.t == nil {
					continue
				}
				if w.errIs(ei, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func (w *Worker) errorsAs(err, target iface) value {
	if err.t == nil {
		return w.ctx.fls
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		w.throw("errors: target must be a non-nil pointer")
	}
	tt := pt.Elem()
	return w.ctx.Bool(w.errAs(err, target, tt))
}

func (w *Worker) errAs(err, target iface, tt types.Type) bool {
	for {
		if it, ok := tt.Underlying().(*types.Interface); ok {
			if w.implements(err.t, it) {
				w.storeTo(target.v, err, false)
				return true
			}
		} else if types.Identical(err.t, tt) {
			w.storeTo(target.v, err.v, false)
			return true
		}
		if sg := methodOf(w, err.t, "As"); sg != nil && sg.Params().Len() == 1 && sg.Results().Len() == 1 {
			r, _ := w.callMethod(err, "As", target)
			if w.branch(r.(*Term)) {
				return true
			}
		}
		sg := methodOf(w, err.t, "Unwrap")
		if sg == nil || sg.Params().Len() != 0 || sg.Results().Len() != 1 {
			return false
		}
		r, _ := w.callMethod(err, "Unwrap")
		switch x := r.(type) {
		case iface:
			if x.t == nil {
				return false
			}
			err = x
		case []value:
			for _, e := range x {
				ei := e.(iface)
				if ei.t != nil && w.errAs(ei, target, tt) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// ------------------------------------------------------------- encoding/binary

func binSizeOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		wd, _, ok := intInfo(u)
		if !ok {
			return -1
		}
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr:
			return -1
		}
		if wd == 0 {
			return 1
		}
		return int(wd) / 8
	case *types.Array:
		n := binSizeOf(u.Elem())
		if n < 0 {
			return -1
		}
		return n * int(u.Len())
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := binSizeOf(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func bigEndian(o iface) bool {
	s := o.t.String()
	switch {
	case strings.HasSuffix(s, "littleEndian"), strings.HasSuffix(s, "nativeEndian"):
		return false
	case strings.HasSuffix(s, "bigEndian"):
		return true
	}
	unsup("byte order %s", s)
	return false
}

func (w *Worker) binSizeVal(data iface) int {
	switch u := data.t.Underlying().(type) {
	case *types.Slice:
		n := binSizeOf(u.Elem())
		if n < 0 {
			return -1
		}
		return n * len(data.v.([]value))
	case *types.Pointer:
		if sl, ok := u.Elem().Underlying().(*types.Slice); ok {
			n := binSizeOf(sl.Elem())
			if n < 0 {
				return -1
			}
			return n * len((*w.cell(data.v)).([]value))
		}
		return binSizeOf(u.Elem())
	}
	return binSizeOf(data.t)
}

func (w *Worker) binarySize(data iface) value { return i64(w, w.binSizeVal(data)) }

func (w *Worker) binaryRead(r, order, data iface) value {
	be := bigEndian(order)
	n := w.binSizeVal(data)
	mkErr := func(msg string) value {
		return w.call(w.funcByName("errors", "New"), []value{msg}, nil, nil)
	}
	if n < 0 {
		return mkErr("binary.Read: invalid type " + data.t.String())
	}
	switch data.t.Underlying().(type) {
	case *types.Pointer, *types.Slice:
	default:
		return mkErr("binary.Read: invalid type " + data.t.String())
	}
	buf := w.makeSlice(types.Typ[types.Uint8], n, n)
	res := w.call(w.funcByName("io", "ReadFull"), []value{r, buf}, nil, nil).(tuple)
	if e := res[1].(iface); e.t != nil {
		return e
	}
	pos := 0
	var rd func(t types.Type, p *value, exported bool)
	rd = func(t types.Type, p *value, exported bool) {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if !exported {
				panic(targetPanic{v: iface{types.Typ[types.String], "reflect: reflect.Value.SetUint using value obtained using unexported field"}, where: w.where()})
			}
			wd, _, _ := intInfo(u)
			if wd == 0 {
				w.store(p, w.ctx.BNot(w.ctx.Eq(buf[pos].(*Term), w.ctx.small[8][0])))
				pos++
				return
			}
			k := int(wd) / 8
			v := w.ctx.Const(wd, 0)
			for i := 0; i < k; i++ {
				sh := 8 * i
				if be {
					sh = 8 * (k - 1 - i)
				}
				v = w.ctx.Bin(OpOr, v, w.ctx.Bin(OpShl, w.ctx.ZExt(buf[pos+i].(*Term), wd), w.ctx.Const(wd, uint64(sh))))
			}
			pos += k
			w.store(p, v)
		case *types.Array:
			a := (*p).(array)
			for i := range a {
				rd(u.Elem(), &a[i], exported)
			}
		case *types.Struct:
			s := (*p).(structure)
			for i := range s {
				f := u.Field(i)
				if f.Name() == "_" {
					pos += binSizeOf(f.Type())
					continue
				}
				rd(f.Type(), &s[i], exported && f.Exported())
			}
		}
	}
	switch u := data.t.Underlying().(type) {
	case *types.Pointer:
		p := w.cell(data.v)
		if sl, ok := u.Elem().Underlying().(*types.Slice); ok {
			s := (*p).([]value)
			for i := range s {
				rd(sl.Elem(), &s[i], true)
			}
		} else {
			rd(u.Elem(), p, true)
		}
	case *types.Slice:
		s := data.v.([]value)
		for i := range s {
			rd(u.Elem(), &s[i], true)
		}
	}
	return iface{}
}

func (w *Worker) binaryWrite(wr, order, data iface) value {
	be := bigEndian(order)
	n := w.binSizeVal(data)
	if n < 0 {
		return w.call(w.funcByName("errors", "New"), []value{"binary.Write: some values are not fixed-sized in type " + data.t.String()}, nil, nil)
	}
	var buf []value
	var wt func(t types.Type, v value)
	wt = func(t types.Type, v value) {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			x := v.(*Term)
			wd, _, _ := intInfo(u)
			if wd == 0 {
				buf = append(buf, w.ctx.Ite(x, w.ctx.small[8][1], w.ctx.small[8][0]))
				return
			}
			k := int(wd) / 8
			for i := 0; i < k; i++ {
				sh := 8 * i
				if be {
					sh = 8 * (k - 1 - i)
				}
				buf = append(buf, w.ctx.Extract(x, uint64(sh), 8))
			}
		case *types.Array:
			for _, e := range v.(array) {
				wt(u.Elem(), e)
			}
		case *types.Struct:
			for i, e := range v.(structure) {
				f := u.Field(i)
				if f.Name() == "_" {
					for k := binSizeOf(f.Type()); k > 0; k-- {
						buf = append(buf, w.ctx.small[8][0])
					}
					continue
				}
				wt(f.Type(), e)
			}
		}
	}
	switch u := data.t.Underlying().(type) {
	case *types.Pointer:
		v := w.load(data.v)
		if sl, ok := u.Elem().Underlying().(*types.Slice); ok {
			for _, e := range v.([]value) {
				wt(sl.Elem(), e)
			}
		} else {
			wt(u.Elem(), v)
		}
	case *types.Slice:
		for _, e := range data.v.([]value) {
			wt(u.Elem(), e)
		}
	default:
		wt(data.t, data.v)
	}
	r, ok := w.callMethod(wr, "Write", buf)
	if !ok {
		unsup("binary.Write target")
	}
	return r.(tuple)[1]
}

// -------------------------------------------------------------- field access

// fieldOf finds the field called name, or else the only one of v's type, the only
// one v can be assigned to, or the one at the position after an @ in the name.
func (w *Worker) fieldOf(x iface, name string, v types.Type) (*value, types.Type) {
	pt, ok := x.t.Underlying().(*types.Pointer)
	if !ok {
		unsup("field of %s", x.t)
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		unsup("field of %s", x.t)
	}
	name, at, hint := strings.Cut(name, "@")
	pos := -1
	if hint {
		pos, _ = strconv.Atoi(at)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			pos = i
			return &(*w.cell(x.v)).(structure)[i], st.Field(i).Type()
		}
	}
	for _, fits := range []func(types.Type) bool{
		func(t types.Type) bool { return types.Identical(v, t) },
		func(t types.Type) bool { return types.AssignableTo(v, t) },
	} {
		n, k := 0, 0
		for i := 0; v != nil && i < st.NumFields(); i++ {
			if fits(st.Field(i).Type()) {
				n++
				k = i
			}
		}
		if n == 1 {
			pos = k
			break
		}
	}
	if pos < 0 || pos >= st.NumFields() || v != nil && !types.AssignableTo(v, st.Field(pos).Type()) {
		return nil, nil
	}
	return &(*w.cell(x.v)).(structure)[pos], st.Field(pos).Type()
}

func (w *Worker) setField(x iface, name string, v iface) {
	p, t := w.fieldOf(x, name, v.t)
	if p == nil {
		unsup("no field %s in %s", name, x.t)
	}
	if types.IsInterface(t) {
		w.store(p, v)
		return
	}
	if v.t == nil {
		w.store(p, w.zero(t))
		return
	}
	w.store(p, v.v)
}

func (w *Worker) getField(x iface, name string) value {
	p, t := w.fieldOf(x, name, nil)
	if p == nil {
		return iface{}
	}
	if types.IsInterface(t) {
		return copyVal(*p)
	}
	return iface{t, copyVal(*p)}
}

// newElem makes a pointer to a new element of the slice x points to.
func (w *Worker) newElem(x iface) value {
	st := x.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice)
	v := w.zero(st.Elem())
	return iface{types.NewPointer(st.Elem()), &v}
}

// ---------------------------------------------------------------- observations

func (w *Worker) renderObs() []string {
	var out []string
	for _, o := range w.obs {
		var b strings.Builder
		b.WriteString(o.name)
		for _, v := range o.vals {
			b.WriteByte(' ')
			b.WriteString(w.renderVal(v.(iface)))
		}
		out = append(out, b.String())
	}
	return out
}

func (w *Worker) renderVal(x iface) string {
	if x.t == nil {
		return "nil"
	}
	switch v := x.v.(type) {
	case *Term:
		k := w.evalModel(v)
		wd, signed, _ := intInfo(x.t)
		if wd == 0 {
			return strconv.FormatBool(k != 0)
		}
		if signed {
			return strconv.FormatInt(sext(k, wd), 10)
		}
		return strconv.FormatUint(k, 10)
	case string:
		return strconv.Quote(v)
	case *symString:
		b := make([]byte, len(v.b))
		for i, t := range v.b {
			b[i] = byte(w.evalModel(t))
		}
		return strconv.Quote(string(b))
	case *opaque:
		return "?"
	case []value:
		if sl, ok := x.t.Underlying().(*types.Slice); ok {
			if wd, _, ok := intInfo(sl.Elem()); ok && wd == 8 {
				b := make([]byte, len(v))
				for i, t := range v {
					b[i] = byte(w.evalModel(t.(*Term)))
				}
				return hex.EncodeToString(b) + "."
			}
			if isString(sl.Elem()) {
				var p []string
				for _, e := range v {
					p = append(p, w.renderVal(iface{sl.Elem(), e}))
				}
				return "[" + strings.Join(p, " ") + "]"
			}
			if _, _, ok := intInfo(sl.Elem()); ok {
				var p []string
				for _, e := range v {
					p = append(p, w.renderVal(iface{sl.Elem(), e}))
				}
				return "[" + strings.Join(p, " ") + "]"
			}
		}
	}
	if methodOf(w, x.t, "Error") != nil {
		return "error"
	}
	return "?"
}

var _ = sort.Strings

// localOffset is local time's offset from UTC, here and in the native replay.
const localOffset = 5*3600 + 30*60

// initLocal makes local time a zone that differs from UTC.
func (w *Worker) initLocal() value {
	tp := w.eng.prog.ImportedPackage("time")
	loc := w.call(tp.Func("FixedZone"), []value{"Local", w.ctx.Const(64, localOffset)}, nil, nil)
	w.store(w.global(tp.Members["localLoc"].(*ssa.Global)), copyVal(*w.cell(loc)))
	return nil
}

// fprint writes what text gives, unless the target is a file: that is for people.
func (w *Worker) fprint(to iface, text func() value) value {
	if to.t != nil && strings.HasSuffix(to.t.String(), "os.File") {
		return tuple{i64(w, 0), iface{}}
	}
	r, ok := w.callMethod(to, "Write", w.strBytes(text()))
	if !ok {
		unsup("Fprint target")
	}
	return r
}

func (w *Worker) strBytes(s value) []value {
	ts := w.strTerms(s)
	b := make([]value, len(ts))
	for i := range ts {
		b[i] = ts[i]
	}
	return b
}

// sortSlice sorts like sort.Slice, keeping the order of equal elements.
func (w *Worker) sortSlice(x iface, less value) {
	s, ok := x.v.([]value)
	if !ok {
		unsup("sort.Slice of %T", x.v)
	}
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			r := w.callValue(less, []value{i64(w, j), i64(w, j-1)}, nil)
			if !w.branch(r.(*Term)) {
				break
			}
			a, b := copyVal(s[j]), copyVal(s[j-1])
			w.store(&s[j], b)
			w.store(&s[j-1], a)
		}
	}
}

func (w *Worker) deepEqualAny(a, b iface) *Term {
	if a.t == nil || b.t == nil {
		return w.ctx.Bool(a.t == nil && b.t == nil)
	}
	if !types.Identical(a.t, b.t) {
		return w.ctx.fls
	}
	return w.deepEqual(a.t, a.v, b.v, 0)
}

func (w *Worker) deepEqual(t types.Type, a, b value, depth int) *Term {
	if depth > 100 {
		unsup("reflect.DeepEqual of a deep value")
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, y := a.([]value), b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return w.ctx.fls
		}
		r := w.ctx.tru
		for i := range x {
			r = w.ctx.And(r, w.deepEqual(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Array:
		x, y := a.(array), b.(array)
		r := w.ctx.tru
		for i := range x {
			r = w.ctx.And(r, w.deepEqual(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Struct:
		x, y := a.(structure), b.(structure)
		r := w.ctx.tru
		for i := range x {
			r = w.ctx.And(r, w.deepEqual(u.Field(i).Type(), x[i], y[i], depth+1))
		}
		return r
	case *types.Pointer:
		if isNilPtr(a) || isNilPtr(b) {
			return w.ctx.Bool(isNilPtr(a) && isNilPtr(b))
		}
		if x, ok := a.(*value); ok {
			if y, ok := b.(*value); ok && x == y {
				return w.ctx.tru
			}
		}
		return w.deepEqual(u.Elem(), w.load(a), w.load(b), depth+1)
	case *types.Interface:
		return w.deepEqualAny(a.(iface), b.(iface))
	case *types.Map, *types.Chan:
		unsup("reflect.DeepEqual of %s", t)
	case *types.Signature:
		x, _ := a.(*funcval)
		y, _ := b.(*funcval)
		return w.ctx.Bool(x == nil && y == nil)
	}
	return w.eq(t, a, b)
}

// goSlice is the native form of a slice of known bytes, integers or strings.
func (w *Worker) goSlice(t types.Type, s []value) (any, bool) {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok || w.hasMethod(sl.Elem(), "Error") || w.hasMethod(sl.Elem(), "String") {
		return nil, false
	}
	var b []byte
	var n []int64
	var u []uint64
	var str []string
	wd, signed, isInt := intInfo(sl.Elem())
	if (!isInt || wd == 0) && !isString(sl.Elem()) {
		return nil, false
	}
	for _, e := range s {
		g, ok := w.goValue(iface{sl.Elem(), e})
		if !ok {
			return nil, false
		}
		switch {
		case !isInt:
			str = append(str, g.(string))
		case wd == 8 && !signed:
			b = append(b, g.(uint8))
		case signed:
			n = append(n, reflect.ValueOf(g).Int())
		default:
			u = append(u, reflect.ValueOf(g).Uint())
		}
	}
	switch {
	case !isInt:
		return str, true
	case wd == 8 && !signed:
		return b, true
	case signed:
		return n, true
	}
	return u, true
}
