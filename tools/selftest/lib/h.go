// Package c01 checks the executor's models of library functions. To run it, copy
// harness/ and put this file in place of c01/h.go:
// bin/gosym check -prop C01 -repo /repo -harness COPY -out /tmp/o -evidence /tmp/e
package c01

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"sort"
	"strings"

	"github.com/dargueta/disko/zz_verif/sym"
)

// H_Sort: sorting.
func H_Sort() {
	x := sym.Bytes(3)
	y := slices.Clone(x)
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	slices.Sort(y)
	sym.Assert(x[0] <= x[1] && x[1] <= x[2] && bytes.Equal(x, y), "sorted")
	type p struct {
		a byte
		s string
	}
	z := []p{{2, "b"}, {1, "a"}, {2, "a"}}
	sort.SliceStable(z, func(i, j int) bool { return z[i].a < z[j].a })
	sym.Assert(z[0].s == "a" && z[1].s == "b" && z[2].a == 2, "stable")
	k := sort.Search(3, func(i int) bool { return y[i] >= x[1] })
	sym.Assert(k < 3 && y[k] == x[1], "search")
}

// H_Deep: deep equality and maps.
func H_Deep() {
	a, b := sym.Bytes(2), sym.Bytes(2)
	sym.Assert(reflect.DeepEqual(a, b) == bytes.Equal(a, b), "deep")
	sym.Assert(!reflect.DeepEqual([]byte(nil), []byte{}) && !reflect.DeepEqual(1, int64(1)), "nil and types")
	type T struct {
		A []int
		B *int
		C any
	}
	i, j := 1, 1
	sym.Assert(reflect.DeepEqual(T{[]int{1}, &i, "x"}, T{[]int{1}, &j, "x"}) && reflect.DeepEqual(&T{}, &T{}), "struct")
	m := map[byte]int{a[0]: 1}
	m[a[1]]++
	c := maps.Clone(m)
	sym.Assert(maps.Equal(c, m), "clone")
	c[a[0]] = 7
	sym.Assert(m[a[0]] != 7, "a clone is another map")
}

// H_Binary: encoding/binary on slices.
func H_Binary() {
	v := sym.Uint32()
	b := binary.LittleEndian.AppendUint32(nil, v)
	var s struct{ A, B uint16 }
	n, err := binary.Decode(b, binary.LittleEndian, &s)
	sym.Assert(n == 4 && err == nil && uint32(s.A)|uint32(s.B)<<16 == v, "decode")
	_, err = binary.Decode(b[:3], binary.LittleEndian, &s)
	sym.Assert(err != nil, "short")
	c, err := binary.Append([]byte{1}, binary.BigEndian, s)
	sym.Assert(len(c) == 5 && err == nil && c[2] == byte(s.A), "append")
	d := make([]byte, 4)
	n, err = binary.Encode(d, binary.LittleEndian, &s)
	sym.Assert(n == 4 && err == nil && bytes.Equal(d, b), "encode")
}

// H_Format: formatting.
func H_Format() {
	var b bytes.Buffer
	n, err := fmt.Fprintln(&b, "a", 1)
	sym.Assert(n == 4 && err == nil && b.String() == "a 1\n", "fprintln")
	n, err = fmt.Fprint(&b, "a", "b", 1, 2)
	sym.Assert(n == 5 && err == nil, "fprint")
	sym.Assert(string(fmt.Appendf([]byte("x"), "%d-%s", 3, "y")) == "x3-y", "appendf")
	sym.Assert(fmt.Sprintf("%x", []byte{1, 255}) == "01ff", "bytes")
	sym.Assert(fmt.Sprintf("%v %d %q", []int{1, -2}, []uint16{3}, []string{"b"}) == `[1 -2] [3] ["b"]`, "slices")
	sym.Assert(fmt.Sprint([]int{1}, "x", 3, []byte{4}) == "[1]x3 [4]", "sprint")
	sym.Assert(fmt.Sprintf("%c%c|%3d|%-3d|%+d|%08b|%o|%#x|%t", 'a', 98, 5, 5, 5, 5, 8, 255, true) == "ab|  5|5  |+5|00000101|10|0xff|true", "numbers")
	s := sym.StringRange(2, 'a', 'z')
	sym.Assert(fmt.Sprintf("%*s", 4, s) == "  "+s && fmt.Sprintf("%-*s|", 4, s) == s+"  |", "width")
	sym.Assert(fmt.Sprintf("%-6.6s%-3.3s", s, "abcd") == s+"    abc" && fmt.Sprintf("%c%c", s[0], s[1]) == s, "precision")
	sym.Assert(strings.Map(func(r rune) rune { return r }, s) == s, "map")
}
