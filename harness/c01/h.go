// Package c01: RLE8 compression is lossless.
package c01

import (
	"github.com/dargueta/disko/utilities/compression"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

func roundTrip(data []byte, src *hlib.Src, src2 func([]byte) *hlib.Src) {
	comp := hlib.NewSink()
	n, err := compression.CompressRLE8(src, comp)
	sym.Assert(err == nil, "compressing succeeds")
	sym.Assert(n == int64(len(comp.Data)), "compression returns the number of bytes delivered")
	out := hlib.NewSink()
	m, err := compression.DecompressRLE8(src2(comp.Data), out)
	sym.Assert(err == nil, "decompressing compressed data succeeds")
	sym.Assert(m == int64(len(out.Data)), "decompression returns the number of bytes delivered")
	sym.Assert(len(out.Data) == len(data), "round trip keeps the length")
	sym.Assert(sym.BytesEq(out.Data, data), "round trip gives the original bytes")
	sym.Observe("n", n, m, comp.Data)
}

// H_Short: every byte string up to the bound, every split of the source of the
// compressor into reads, end-of-file with or after the last data; the
// decompressor's source delivers everything at once or byte by byte.
func H_Short() {
	n := sym.Choice(sym.Bound("length", 5, 7) + 1)
	data := sym.Bytes(n)
	src := hlib.NewSrc(data)
	src.AnySplit, src.Idle = true, 1
	src.EOFWithData = sym.Choice(2) == 1
	mode := sym.Choice(3)
	roundTrip(data, src, func(b []byte) *hlib.Src {
		s := hlib.NewSrc(b)
		s.EOFWithData = mode == 1
		if mode == 2 {
			s.Max = 1
		}
		return s
	})
	sym.Cover("short")
}

// H_DecompressSplits: every byte string up to the bound, every split of the
// compressed stream into reads.
func H_DecompressSplits() {
	n := sym.Choice(sym.Bound("length", 4, 5) + 1)
	data := sym.Bytes(n)
	eof := sym.Choice(2) == 1
	roundTrip(data, hlib.NewSrc(data), func(b []byte) *hlib.Src {
		s := hlib.NewSrc(b)
		s.AnySplit, s.Idle = true, 1
		s.EOFWithData = eof
		return s
	})
}

// H_Runs: a run of any length up to the bound between two shorter runs; the
// three byte values are arbitrary (neighbouring runs may join).
func H_Runs() {
	max := sym.Bound("run length", 530, 1100)
	n0 := sym.Choice(3)
	n1 := 1 + sym.Choice(max)
	n2 := sym.Choice(3)
	b := sym.Bytes(3)
	var data []byte
	for i := 0; i < n0; i++ {
		data = append(data, b[0])
	}
	for i := 0; i < n1; i++ {
		data = append(data, b[1])
	}
	for i := 0; i < n2; i++ {
		data = append(data, b[2])
	}
	src := hlib.NewSrc(data)
	roundTrip(data, src, hlib.NewSrc)
	sym.Cover("runs")
}

// H_Buffer: a run and arbitrary bytes placed around the end of the 4096-byte
// read buffer, for plain and compressed data.
func H_Buffer() {
	back := sym.Choice(sym.Bound("distance from the buffer end", 8, 12) + 1)
	runLen := []int{1, 2, 3, 5, 257, 258, 259, 300}[sym.Choice(8)]
	data := hlib.Fill(4096 - back)
	v := sym.Bytes(3)
	for i := 0; i < runLen; i++ {
		data = append(data, v[0])
	}
	data = append(data, v[1], v[2])
	src := hlib.NewSrc(data)
	src.EOFWithData = sym.Choice(2) == 1
	roundTrip(data, src, hlib.NewSrc)
	sym.Cover("buffer")
}

// H_Huge: run lengths around 65536 and its sum with a full piece, and above further powers of two.
func H_Huge() {
	n := []int{65535, 65536, 65537, 65536 + 256, 65536 + 257, 65536 + 258, 131072 + 255, 262144 + 513, 524288 + 3}[sym.Choice(sym.Bound("huge lengths", 8, 9))]
	b := sym.Bytes(2)
	data := make([]byte, n)
	for i := range data {
		data[i] = b[0]
	}
	data = append(data, b[1])
	src := hlib.NewSrc(data)
	src.EOFWithData = sym.Choice(2) == 1
	roundTrip(data, src, hlib.NewSrc)
	sym.Cover("huge")
}

// H_Long: long inputs of many bytes and runs, of any length up to the bound and
// around powers of two.
func H_Long() {
	data := hlib.Expand(hlib.Long(sym.Bound("length", 300, 2000), sym.Bound("powers of two from 1024", 5, 8), true))
	src := hlib.NewSrc(data)
	src.EOFWithData = sym.Choice(2) == 1
	roundTrip(data, src, hlib.NewSrc)
	sym.Cover("long")
}
