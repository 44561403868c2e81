// Package c05: disk image container round trip.
package c05

import (
	"errors"

	"github.com/dargueta/disko/utilities/compression"
	"github.com/dargueta/disko/zz_verif/hlib"
	_ "github.com/dargueta/disko/zz_verif/models"
	"github.com/dargueta/disko/zz_verif/sym"
)

// image is an arbitrary image: some arbitrary bytes, optionally with a long
// run in the middle.
func image() []byte {
	n := sym.Choice(sym.Bound("image bytes", 4, 6) + 1)
	d := sym.Bytes(n)
	if n > 0 {
		switch sym.Choice(3) {
		case 1:
			l := []int{2, 256, 257, 258, 259, 514, 515}[sym.Choice(7)]
			x := d[n-1]
			d = d[:n-1]
			for i := 0; i < l; i++ {
				d = append(d, x)
			}
		case 2:
			d = append(hlib.Fill([]int{4090, 4096, 5000}[sym.Choice(3)]), d...)
		}
	}
	return d
}

func compress(d []byte) []byte {
	s := hlib.NewSink()
	n, err := compression.CompressImage(hlib.NewSrc(d), s)
	sym.Assert(err == nil, "compressing an image succeeds")
	sym.Assert(n == int64(len(s.Data)), "compression returns the number of container bytes delivered")
	return s.Data
}

// H_RoundTrip: to a stream and to a byte slice.
func H_RoundTrip() {
	d := image()
	c := compress(d)
	if sym.Choice(2) == 0 {
		out := hlib.NewSink()
		n, err := compression.DecompressImage(hlib.NewSrc(c), out)
		sym.Assert(err == nil, "expanding succeeds")
		sym.Assert(n == int64(len(d)), "expansion returns the number of image bytes")
		sym.Assert(len(out.Data) == len(d), "the expanded image has the original size")
		sym.Assert(sym.BytesEq(out.Data, d), "the expanded image is identical")
		sym.Cover("stream")
		return
	}
	got, err := compression.DecompressImageToBytes(hlib.NewSrc(c))
	sym.Assert(err == nil, "expanding to bytes succeeds")
	sym.Assert(len(got) == len(d), "the expanded slice has the original size")
	sym.Assert(sym.BytesEq(got, d), "the expanded slice is identical")
	sym.Cover("slice")
}

// H_SourceFails: the image source fails at any offset.
func H_SourceFails() {
	d := sym.Bytes(sym.Choice(sym.Bound("image bytes", 4, 6) + 1))
	src := hlib.NewSrc(d)
	src.FailAt = sym.Choice(len(d) + 1)
	src.Err = hlib.Inject()
	src.DataWithErr = sym.Choice(2) == 1
	_, err := compression.CompressImage(src, hlib.NewSink())
	sym.Assert(err != nil, "a failing image source is an error")
	sym.Assert(errors.Is(err, hlib.Failure), "the error matches the failure")
	sym.Cover("source fails")
}

// failNth fails the n-th write.
type failNth struct {
	n, k int
}

func (f *failNth) Write(p []byte) (int, error) {
	f.k++
	if f.k > f.n {
		return 0, hlib.Inject()
	}
	return len(p), nil
}

// H_SinkFails: the container destination refuses the header, the data or the
// trailer (writes 1 to 3).
func H_SinkFails() {
	d := sym.Bytes(sym.Choice(sym.Bound("image bytes", 4, 6) + 1))
	f := &failNth{n: sym.Choice(3)}
	_, err := compression.CompressImage(hlib.NewSrc(d), f)
	sym.Assert(err != nil, "a refusing container destination is an error")
	sym.Assert(errors.Is(err, hlib.Failure), "the error matches the failure")
	sym.Cover("sink fails")
}

// H_ExpandSinkFails: the image destination refuses a write at any offset.
func H_ExpandSinkFails() {
	d := sym.Bytes(1 + sym.Choice(sym.Bound("image bytes", 4, 6)))
	c := compress(d)
	out := hlib.NewSink()
	out.FailAt = sym.Choice(len(d))
	out.Err = hlib.Inject()
	out.Part = sym.Choice(2) == 1
	_, err := compression.DecompressImage(hlib.NewSrc(c), out)
	sym.Assert(err != nil, "a refusing image destination is an error")
	sym.Assert(errors.Is(err, hlib.Failure), "the error matches the failure")
}

// H_Truncated: the container is cut anywhere in its first 12 or last 12 bytes,
// or its source fails there.
func H_Truncated() {
	d := sym.Bytes(sym.Choice(sym.Bound("image bytes", 4, 6) + 1))
	c := compress(d)
	keep := sym.Choice(12)
	if sym.Choice(2) == 1 {
		keep = len(c) - 1 - keep
	}
	fails := sym.Choice(2) == 1
	src := hlib.NewSrc(c[:keep])
	if fails {
		src = hlib.NewSrc(c)
		src.FailAt = keep
		src.Err = hlib.Inject()
	}
	var err error
	if sym.Choice(2) == 0 {
		_, err = compression.DecompressImage(src, hlib.NewSink())
	} else {
		var b []byte
		b, err = compression.DecompressImageToBytes(src)
		sym.Assert(b == nil || err == nil, "no image together with an error")
	}
	sym.Assert(err != nil, "a cut container is an error, never a shorter image")
	if fails {
		sym.Assert(errors.Is(err, hlib.Failure), "the error matches the source's failure")
	}
	sym.Cover("cut")
}

// H_NotAContainer: bytes that do not start with the container's signature.
func H_NotAContainer() {
	d := sym.Bytes(sym.Choice(sym.Bound("bytes", 12, 16)))
	if len(d) >= 2 {
		sym.Assume(sym.Or(d[0] != 0x1f, d[1] != 0x8b))
	}
	_, err := compression.DecompressImage(hlib.NewSrc(d), hlib.NewSink())
	sym.Assert(err != nil, "something that is not a container is an error")
	_, err = compression.DecompressImageToBytes(hlib.NewSrc(d))
	sym.Assert(err != nil, "something that is not a container is an error")
	sym.Cover("no container")
}

// H_Large: images around 65536 bytes: bytes that do not compress, a run, arbitrary bytes.
func H_Large() {
	v := sym.Bytes(3)
	d := hlib.Fill([]int{100, 4097, 16385}[sym.Choice(3)])
	for end := []int{32769, 65535, 65536, 65537}[sym.Choice(4)] - 3; len(d) < end; {
		d = append(d, v[0])
	}
	d = append(d, v[1], v[1], v[2])
	c := compress(d)
	var got []byte
	var err error
	if sym.Choice(2) == 0 {
		out := hlib.NewSink()
		var n int64
		n, err = compression.DecompressImage(hlib.NewSrc(c), out)
		sym.Assert(n == int64(len(d)), "expansion returns the number of image bytes")
		got = out.Data
	} else {
		got, err = compression.DecompressImageToBytes(hlib.NewSrc(c))
	}
	sym.Assert(err == nil, "expanding succeeds")
	sym.Assert(len(got) == len(d), "the expanded image has the original size")
	sym.Assert(sym.BytesEq(got, d), "the expanded image is identical")
}
