// Package c03: recursive run-length encoding is lossless and canonical.
package c03

import (
	"errors"
	"io"

	"github.com/dargueta/disko/utilities/compression"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

func encode(data []byte, max int) []byte {
	comp := hlib.NewSink()
	src := hlib.NewSrc(data)
	src.Max = max
	if len(data) <= 6 {
		src.Idle = 1 - max
	}
	n, err := compression.CompressRLERecursive(src, comp)
	sym.Assert(err == nil, "compressing succeeds")
	sym.Assert(n == int64(len(comp.Data)), "compression returns the number of bytes written")
	return comp.Data
}

func decodeTo(s []byte, want []byte) {
	out := hlib.NewSink()
	src := hlib.NewSrc(s)
	src.EOFWithData = sym.Choice(2) == 1
	if len(s) <= 6 {
		src.Idle = 1
	}
	n, err := compression.DecompressRLERecursive(src, out)
	sym.Assert(err == nil, "a stream in the format is accepted")
	sym.Assert(len(out.Data) == len(want), "decoded length is what the stream denotes")
	sym.Assert(sym.BytesEq(out.Data, want), "decoded bytes are what the stream denotes")
	sym.Assert(n == int64(len(out.Data)), "decompression returns the number of bytes written")
}

// H_Short: every byte string up to the bound: canonical encoding and round trip.
func H_Short() {
	n := sym.Choice(sym.Bound("length", 8, 11) + 1)
	data := sym.Bytes(n)
	got := encode(data, sym.Choice(2))
	want := hlib.RefRRLE(hlib.RunsOf(data))
	sym.Assert(len(got) == len(want), "encoded length is the documented one")
	sym.Assert(sym.BytesEq(got, want), "encoded bytes are the documented ones")
	decodeTo(got, data)
	sym.Cover("short")
	sym.Observe("enc", got)
}

// H_Runs: two runs, the first of any length up to the bound; runs of bytes of
// every value, 255 included.
func H_Runs() {
	n1 := 1 + sym.Choice(sym.Bound("run length", 1040, 2600))
	n2 := []int{0, 1, 257}[sym.Choice(3)]
	b := sym.Bytes(2)
	sym.Assume(b[0] != b[1])
	rs := []hlib.Run{{B: b[0], N: n1}}
	if n2 > 0 {
		rs = append(rs, hlib.Run{B: b[1], N: n2})
	}
	data := hlib.Expand(rs)
	got := encode(data, 0)
	want := hlib.RefRRLE(rs)
	sym.Assert(len(got) == len(want), "encoded length is the documented one")
	sym.Assert(sym.BytesEq(got, want), "encoded bytes are the documented ones")
	decodeTo(got, data)
	sym.Cover("runs")
}

// refDecode expands a stream; ok is false if it ends inside a run's count.
func refDecode(s []byte) (out []byte, ok bool) {
	for i := 0; i < len(s); {
		if i+1 < len(s) && s[i] == s[i+1] {
			b := s[i]
			n := 2
			i += 2
			for {
				if i >= len(s) {
					return out, false
				}
				c := sym.Concretize(int(s[i]))
				i++
				n += c
				if c != 255 {
					break
				}
			}
			for k := 0; k < n; k++ {
				out = append(out, b)
			}
			continue
		}
		out = append(out, s[i])
		i++
	}
	return out, true
}

// H_Decode: every byte stream up to the bound, either in the format or ending
// inside a run's count.
func H_Decode() {
	s := sym.Bytes(sym.Choice(sym.Bound("stream length", 5, 5) + 1))
	checkDecode(s)
}

// H_DecodeTokens: literals and runs with counts 0, 1, 254, 255 0, 255 255 7 and
// one cut inside the count.
func H_DecodeTokens() {
	n := sym.Bound("tokens", 3, 4)
	var s []byte
	afterLiteral := false
tokens:
	for i := 0; i < n; i++ {
		b := sym.Byte()
		if afterLiteral {
			sym.Assume(b != s[len(s)-1])
		}
		afterLiteral = false
		switch sym.Choice(7) {
		case 0:
			s = append(s, b)
			afterLiteral = true
		case 1:
			s = append(s, b, b, 0)
		case 2:
			s = append(s, b, b, 1)
		case 3:
			s = append(s, b, b, 254)
		case 4:
			s = append(s, b, b, 255, 0)
		case 5:
			s = append(s, b, b, 255, 255, 7)
		case 6:
			s = append(s, b, b, 255)
			break tokens
		}
	}
	checkDecode(s)
}

func checkDecode(s []byte) {
	want, ok := refDecode(s)
	if ok {
		decodeTo(s, want)
		sym.Cover("valid")
		return
	}
	out := hlib.NewSink()
	_, err := compression.DecompressRLERecursive(hlib.NewSrc(s), out)
	sym.Assert(err != nil, "a stream that ends inside a count is refused")
	sym.Assert(errors.Is(err, io.ErrUnexpectedEOF), "it is reported as an unexpected end of file")
	sym.Cover("truncated")
}

// H_Huge: run lengths around 65536 and around the next multiple of 255, and some
// that need more than 512 and 1024 bytes of count.
func H_Huge() {
	n := []int{65535, 65536, 65537, 65538, 65790, 65791, 65792, 65793, 131327, 262144 + 513, 524288 + 3}[sym.Choice(sym.Bound("huge lengths", 10, 11))]
	b := sym.Bytes(2)
	sym.Assume(b[0] != b[1])
	rs := []hlib.Run{{B: b[0], N: n}, {B: b[1], N: 1}}
	data := hlib.Expand(rs)
	got := encode(data, 0)
	want := hlib.RefRRLE(rs)
	sym.Assert(len(got) == len(want), "encoded length is the documented one")
	sym.Assert(sym.BytesEq(got, want), "encoded bytes are the documented ones")
	decodeTo(got, data)
}

// H_Long: long inputs of many bytes and runs, of any length up to the bound and
// around powers of two.
func H_Long() {
	rs := hlib.Long(sym.Bound("length", 300, 2000), sym.Bound("powers of two from 1024", 5, 8), true)
	data := hlib.Expand(rs)
	got := encode(data, 0)
	want := hlib.RefRRLE(rs)
	sym.Assert(len(got) == len(want), "encoded length is the documented one")
	sym.Assert(sym.BytesEq(got, want), "encoded bytes are the documented ones")
	decodeTo(got, data)
}
