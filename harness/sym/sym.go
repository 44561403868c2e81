// Package sym is the interface between a harness and the symbolic executor.
// The executor intercepts these functions; compiled natively, they replay one
// assignment of concrete input values.
package sym

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"unsafe"
)

type assumeFailed struct{}
type assertFailed struct{ label string }

var (
	values []uint64
	pos    int
	tier   string
	obs    []string
)

func next() uint64 {
	if pos < len(values) {
		pos++
		return values[pos-1]
	}
	pos++
	return 0
}

func Byte() byte     { return byte(next()) }
func Uint8() uint8   { return byte(next()) }
func Uint16() uint16 { return uint16(next()) }
func Uint32() uint32 { return uint32(next()) }
func Uint64() uint64 { return next() }
func Uint() uint     { return uint(next()) }
func Int64() int64   { return int64(next()) }
func Int() int       { return int(next()) }
func Bool() bool     { return next() == 1 }

// ByteRange is any byte in [lo,hi].
func ByteRange(lo, hi byte) byte {
	v := byte(next())
	if v < lo {
		v = lo
	}
	return v
}

// Range is any int in [lo,hi].
func Range(lo, hi int) int {
	if lo > hi {
		panic(assumeFailed{})
	}
	v := next()
	if v > uint64(hi-lo) { // no value the solver was asked for
		panic(assumeFailed{})
	}
	return lo + int(v)
}

// Choice is a concrete value in [0,n): one path per value.
func Choice(n int) int {
	v := next()
	if v >= uint64(n) {
		panic(assumeFailed{})
	}
	return int(v)
}

// Bytes is a slice of n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return b
}

// String is a string of n arbitrary bytes.
func String(n int) string { return string(Bytes(n)) }

// StringRange is a string of n bytes in [lo,hi].
func StringRange(n int, lo, hi byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteRange(lo, hi)
	}
	return string(b)
}

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

// Stop abandons the path.
func Stop() { panic(assumeFailed{}) }

func Assert(c bool, label string) {
	if !c {
		panic(assertFailed{label})
	}
}

func Fail(label string) { panic(assertFailed{label}) }

// Cover marks a point the exploration has to reach.
func Cover(label string) {}

// Concretize forces one path per value.
func Concretize(n int) int { return n }
func ConcByte(n byte) byte { return n }
func Sat(c bool) bool      { return c }
func Thorough() bool       { return tier == "thorough" }
func StepLimit(n int)      {}

// Bound is a stated bound of a harness, per tier.
func Bound(name string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

func BytesEq(a, b []byte) bool { return bytes.Equal(a, b) }

func AllZero(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	done := false
	defer func() {
		if done {
			return
		}
		r := recover()
		switch r.(type) {
		case assumeFailed, assertFailed:
			panic(r)
		}
		p = true
	}()
	f()
	done = true
	return false
}

// fieldOf finds the field called name, or else the only one of val's type, the only
// one val can be assigned to, or the one at the position after an @ in the name.
func fieldOf(ptr any, name string, val any) (f reflect.Value, ok bool) {
	v := reflect.ValueOf(ptr).Elem()
	name, at, hint := strings.Cut(name, "@")
	pos := -1
	if hint {
		pos, _ = strconv.Atoi(at)
	}
	vt := reflect.TypeOf(val)
	if sf, ok := v.Type().FieldByName(name); ok && len(sf.Index) == 1 {
		pos, vt = sf.Index[0], nil
	} else {
		for _, fits := range []func(reflect.Type) bool{
			func(t reflect.Type) bool { return vt == t },
			func(t reflect.Type) bool { return vt.AssignableTo(t) },
		} {
			n, k := 0, 0
			for i := 0; vt != nil && i < v.NumField(); i++ {
				if fits(v.Field(i).Type()) {
					n++
					k = i
				}
			}
			if n == 1 {
				pos = k
				break
			}
		}
	}
	if pos < 0 || pos >= v.NumField() || vt != nil && !vt.AssignableTo(v.Field(pos).Type()) {
		return f, false
	}
	f = v.Field(pos)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), true
}

// Fields lists the fields of the struct ptr points to: name, type and the
// value of the tag key, for each.
func Fields(ptr any, key string) []string {
	t := reflect.TypeOf(ptr).Elem()
	var r []string
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		r = append(r, f.Name, f.Type.String(), f.Tag.Get(key))
	}
	return r
}

// SetField sets a field, exported or not, of the struct ptr points to. The name
// may be followed by @ and the field's position, for when it has been renamed.
func SetField(ptr any, name string, val any) {
	f, ok := fieldOf(ptr, name, val)
	if !ok {
		panic("no field " + name)
	}
	if val == nil {
		f.Set(reflect.Zero(f.Type()))
		return
	}
	f.Set(reflect.ValueOf(val))
}

// GetField reads a field, exported or not; it is nil if there is none.
func GetField(ptr any, name string) any {
	f, ok := fieldOf(ptr, name, nil)
	if !ok {
		return nil
	}
	return f.Interface()
}

// IsSlice tells whether ptr points to a slice.
func IsSlice(ptr any) bool { return reflect.TypeOf(ptr).Elem().Kind() == reflect.Slice }

// NewElem makes a pointer to a new element of the slice ptr points to.
func NewElem(ptr any) any {
	return reflect.New(reflect.TypeOf(ptr).Elem().Elem()).Interface()
}

// Truncate empties the slice ptr points to.
func Truncate(ptr any) {
	v := reflect.ValueOf(ptr).Elem()
	v.Set(v.Slice(0, 0))
}

// Append appends what elem points to, to the slice ptr points to.
func Append(ptr, elem any) {
	v := reflect.ValueOf(ptr).Elem()
	v.Set(reflect.Append(v, reflect.ValueOf(elem).Elem()))
}

// Observe records values; the record of a native run is compared with the
// record the executor predicts for the same inputs.
func Observe(name string, vals ...any) {
	var b strings.Builder
	b.WriteString(name)
	for _, v := range vals {
		b.WriteByte(' ')
		b.WriteString(render(v))
	}
	obs = append(obs, b.String())
}

func render(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case error:
		return "error"
	case string:
		return strconv.Quote(x)
	case []byte:
		return hex.EncodeToString(x) + "."
	case []string:
		var p []string
		for _, s := range x {
			p = append(p, strconv.Quote(s))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(r.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(r.Uint(), 10)
	case reflect.String:
		return strconv.Quote(r.String())
	case reflect.Slice:
		if r.Type().Elem().Kind() == reflect.Uint8 {
			return hex.EncodeToString(r.Bytes()) + "."
		}
		switch r.Type().Elem().Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Bool, reflect.String:
			var p []string
			for i := 0; i < r.Len(); i++ {
				p = append(p, render(r.Index(i).Interface()))
			}
			return "[" + strings.Join(p, " ") + "]"
		}
	}
	return "?"
}

type result struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

// Epoch numbers the runs of harnesses in one process.
var Epoch int

func runCase(f func()) (res result) {
	Epoch++
	defer func() {
		res.Obs = obs
		r := recover()
		switch x := r.(type) {
		case nil:
		case assumeFailed:
			res.Status = "assume"
		case assertFailed:
			res.Status, res.Label, res.Msg = "assert", x.label, x.label
		default:
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			res.Status, res.Label, res.Msg = "panic", "panic", fmt.Sprintf("%v\n%s", r, st)
		}
	}()
	f()
	res.Status = "ok"
	return
}

// Main is the entry point of the replay program: one JSON case per line.
func Main(hs map[string]func()) {
	debug.SetMaxStack(128 << 20)
	out := bufio.NewWriter(os.Stdout)
	dec := json.NewDecoder(os.Stdin)
	for {
		var c struct {
			Harness string   `json:"harness"`
			Tier    string   `json:"tier"`
			Values  []uint64 `json:"values"`
		}
		if err := dec.Decode(&c); err != nil {
			break
		}
		values, pos, tier, obs = c.Values, 0, c.Tier, nil
		f := hs[c.Harness]
		var r result
		if f == nil {
			r = result{Status: "error", Msg: "no such harness " + c.Harness}
		} else {
			r = runCase(f)
		}
		b, _ := json.Marshal(r)
		out.WriteString("RESULT ")
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
