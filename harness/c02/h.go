// Package c02: RLE8 encoding follows the documented format.
package c02

import (
	"errors"
	"io"

	"github.com/dargueta/disko/utilities/compression"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

func encode(data []byte) []byte {
	comp := hlib.NewSink()
	_, err := compression.CompressRLE8(hlib.NewSrc(data), comp)
	sym.Assert(err == nil, "compressing succeeds")
	return comp.Data
}

// H_Encode: every byte string up to the bound is encoded as documented.
func H_Encode() {
	n := sym.Choice(sym.Bound("length", 9, 12) + 1)
	data := sym.Bytes(n)
	got := encode(data)
	want := hlib.RefRLE8(hlib.RunsOf(data))
	sym.Assert(len(got) == len(want), "encoded length is the documented one")
	sym.Assert(sym.BytesEq(got, want), "encoded bytes are the documented ones")
	sym.Observe("enc", got)
	sym.Cover("encode")
}

// H_EncodeRuns: two adjacent runs, the first of any length up to the bound.
func H_EncodeRuns() {
	n1 := 1 + sym.Choice(sym.Bound("run length", 1040, 2600))
	n2 := []int{0, 1, 2, 258}[sym.Choice(4)]
	b := sym.Bytes(2)
	sym.Assume(b[0] != b[1])
	rs := []hlib.Run{{B: b[0], N: n1}}
	if n2 > 0 {
		rs = append(rs, hlib.Run{B: b[1], N: n2})
	}
	got := encode(hlib.Expand(rs))
	want := hlib.RefRLE8(rs)
	sym.Assert(len(got) == len(want), "encoded length is the documented one")
	sym.Assert(sym.BytesEq(got, want), "encoded bytes are the documented ones")
	if n1 == 300 && n2 == 0 {
		x := b[0]
		sym.Assert(sym.BytesEq(got, []byte{x, x, 255, x, x, 41}), "300 X's give X X 255 X X 41")
		sym.Cover("300")
	}
}

// refDecode expands a stream; ok is false if it ends inside a run.
func refDecode(s []byte) (out []byte, ok bool) {
	for i := 0; i < len(s); {
		if i+1 < len(s) && s[i] == s[i+1] {
			if i+2 >= len(s) {
				return append(out, s[i]), false
			}
			n := sym.Concretize(int(s[i+2])) + 2
			for k := 0; k < n; k++ {
				out = append(out, s[i])
			}
			i += 3
			continue
		}
		out = append(out, s[i])
		i++
	}
	return out, true
}

func decode(s []byte) {
	want, ok := refDecode(s)
	src := hlib.NewSrc(s)
	src.EOFWithData = sym.Choice(2) == 1
	if len(s) <= 4 {
		src.Idle = 1
	}
	out := hlib.NewSink()
	n, err := compression.DecompressRLE8(src, out)
	if ok {
		sym.Assert(err == nil, "a stream in the documented format is accepted")
		sym.Assert(len(out.Data) == len(want), "decoded length is what the stream denotes")
		sym.Assert(sym.BytesEq(out.Data, want), "decoded bytes are what the stream denotes")
		sym.Assert(n == int64(len(want)), "decoding returns the number of bytes")
		sym.Cover("valid")
	} else {
		sym.Assert(err != nil, "a stream that ends after a doubled byte is refused")
		sym.Assert(errors.Is(err, io.ErrUnexpectedEOF), "it is reported as an unexpected end of file")
		sym.Assert(hlib.IsPrefix(out.Data, append(want, want[len(want)-1])), "nothing but a prefix was written")
		sym.Cover("truncated")
	}
	sym.Observe("dec", out.Data, err)
}

// H_Decode: every byte stream up to the bound (any such stream is either in
// the format or ends after a doubled byte), with every count value.
func H_Decode() {
	decode(sym.Bytes(sym.Choice(sym.Bound("stream length", 5, 5) + 1)))
}

// H_DecodeTokens: every sequence of literals and runs, with arbitrary byte
// values (so a token's byte may equal its neighbour's) and counts from
// {0,1,5,255}; one count is arbitrary.
func H_DecodeTokens() {
	n := sym.Bound("tokens", 3, 4)
	var s []byte
	for i := 0; i < n; i++ {
		b := sym.Byte()
		switch k := sym.Choice(5); k {
		case 0:
			s = append(s, b)
		default:
			s = append(s, b, b, []byte{0, 1, 5, 255}[k-1])
		}
	}
	decode(s)
}

// H_DecodeBuffer: runs and literals around the end of the 4096-byte buffer.
func H_DecodeBuffer() {
	s := hlib.Fill(4096 - sym.Choice(5))
	v := sym.Bytes(2)
	c := []byte{0, 3, 255}[sym.Choice(3)]
	s = append(s, v[0], v[0], c, v[1])
	if sym.Choice(2) == 1 {
		s = append(s, v[1])
	}
	decode(s)
}

// H_EncodeHuge: run lengths around 65536 and its sum with a full piece, and above further powers of two.
func H_EncodeHuge() {
	n := []int{65535, 65536, 65537, 65536 + 256, 65536 + 257, 65536 + 258, 131072 + 255, 262144 + 513, 524288 + 3}[sym.Choice(sym.Bound("huge lengths", 8, 9))]
	b := sym.Bytes(2)
	sym.Assume(b[0] != b[1])
	rs := []hlib.Run{{B: b[0], N: n}, {B: b[1], N: 1}}
	got := encode(hlib.Expand(rs))
	want := hlib.RefRLE8(rs)
	sym.Assert(len(got) == len(want), "encoded length is the documented one")
	sym.Assert(sym.BytesEq(got, want), "encoded bytes are the documented ones")
}

// H_Long: long inputs and streams of many bytes and runs, of any length up to the
// bound and around powers of two.
func H_Long() {
	rs := hlib.Long(sym.Bound("length", 300, 2000), sym.Bound("powers of two from 1024", 5, 8), true)
	data := hlib.Expand(rs)
	got := encode(data)
	want := hlib.RefRLE8(rs)
	sym.Assert(len(got) == len(want), "encoded length is the documented one")
	sym.Assert(sym.BytesEq(got, want), "encoded bytes are the documented ones")
	cut := sym.Choice(2) == 1 && rs[len(rs)-1].N == 2
	if cut {
		want = want[:len(want)-1]
	}
	out := hlib.NewSink()
	n, err := compression.DecompressRLE8(hlib.NewSrc(want), out)
	if cut {
		sym.Assert(errors.Is(err, io.ErrUnexpectedEOF), "a stream that ends after a doubled byte is refused")
		sym.Assert(hlib.IsPrefix(out.Data, data), "nothing but a prefix was written")
		return
	}
	sym.Assert(err == nil, "a stream in the documented format is accepted")
	sym.Assert(n == int64(len(out.Data)) && len(out.Data) == len(data), "decoded length is what the stream denotes")
	sym.Assert(sym.BytesEq(out.Data, data), "decoded bytes are what the stream denotes")
}
