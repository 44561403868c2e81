// Package c13: bulk stream copies are complete and report failures.
package c13

import (
	"io"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

// put applies n bytes of data written at the position (or the end) to the model.
func put(f *hlib.ByteFile, data []byte, n int) {
	off := int(f.Pos)
	if f.Flags.Append() {
		off = len(f.Data)
	}
	if n > 0 {
		for len(f.Data) < off+n {
			f.Data = append(f.Data, 0)
		}
		copy(f.Data[off:], data[:n])
		f.Pos = int64(off + n)
	}
}

func readFrom(f *hlib.ByteFile, src *hlib.Src, data []byte) {
	n, err := f.S.(io.ReaderFrom).ReadFrom(src)
	deliver := len(data)
	if src.FailAt >= 0 {
		deliver = src.FailAt
		sym.Assert(hlib.Is(err, hlib.Failure), "a failure of the source is returned")
		sym.Cover("source failed")
	} else {
		sym.Assert(err == nil, "reading from a source succeeds")
		sym.Cover("read")
	}
	sym.Assert(n == int64(deliver), "the number of bytes transferred is returned")
	put(f, data, deliver)
	if deliver == 0 {
		f.Pos = f.S.Tell()
	}
	f.Finish()
}

// H_ReadFrom: any source up to the bound, any split, with or without a failure.
func H_ReadFrom() {
	fl := disko.O_RDWR
	if sym.Choice(2) == 1 {
		fl |= disko.O_APPEND
	}
	total := sym.Choice(3)
	f := hlib.NewByteFile(2, total, sym.Choice(2*total+1), 9, fl)
	f.Seek(int64(sym.Choice(2*total+2)), io.SeekStart)
	data := sym.Bytes(sym.Choice(sym.Bound("source bytes", 4, 5) + 1))
	src := hlib.NewSrc(data)
	src.AnySplit, src.Idle = true, 1
	if sym.Choice(2) == 1 {
		src.FailAt, src.Err = sym.Choice(len(data)+1), hlib.Inject()
		src.DataWithErr = sym.Choice(2) == 1
	} else {
		src.EOFWithData = sym.Choice(2) == 1
	}
	readFrom(f, src, data)
}

// H_ReadFromBig: sources around the size of the internal buffer.
func H_ReadFromBig() {
	data := sym.Bytes([]int{511, 512, 513, 1023, 1024, 1025}[sym.Choice(6)])
	src := hlib.NewSrc(data)
	src.EOFWithData = sym.Choice(2) == 1
	src.Max = []int{0, 100, 512}[sym.Choice(3)]
	if sym.Choice(2) == 1 {
		src.FailAt, src.Err, src.DataWithErr = []int{100, 512, 600}[sym.Choice(3)], hlib.Inject(), sym.Choice(2) == 1
		if src.FailAt > len(data) {
			sym.Stop()
		}
	}
	f := hlib.NewByteFile([]int{128, 512}[sym.Choice(2)], 1, 100, 20, disko.O_RDWR)
	f.Seek([]int64{0, 50, 100, 130}[sym.Choice(4)], io.SeekStart)
	readFrom(f, src, data)
}

// H_NoRoom: the storage runs out of room part of the way.
func H_NoRoom() {
	b := 512
	data := sym.Bytes([]int{300, 512, 900, 1300}[sym.Choice(4)])
	src := hlib.NewSrc(data)
	src.EOFWithData = sym.Choice(2) == 1
	src.Max = []int{0, 200}[sym.Choice(2)]
	limit := 1 + sym.Choice(2)
	start := []int{0, 100, 512}[sym.Choice(3)]
	f := hlib.NewByteFile(b, 1, start, limit, disko.O_RDWR)
	f.Seek(int64(start), io.SeekStart)
	n, err := f.S.(io.ReaderFrom).ReadFrom(src)
	if start+len(data) <= limit*b {
		sym.Assert(err == nil && n == int64(len(data)), "everything is read if there is room")
	} else {
		sym.Assert(hlib.Is(err, disko.ErrNoSpaceOnDevice), "a lack of room is returned even at the end of the source")
		sym.Assert(f.S.Tell() == int64(start)+n, "the position is after the bytes transferred")
		sym.Assert(n >= 0 && n < int64(len(data)), "only bytes transferred are counted")
		sym.Cover("no room")
	}
	put(f, data, sym.Concretize(int(n)))
	f.Finish()
}

// H_Storage: the storage fails while bytes are written or read.
func H_Storage() {
	f := hlib.NewByteFile(2, 3, 5, 9, disko.O_RDWR)
	pos := sym.Choice(5)
	f.Seek(int64(pos), io.SeekStart)
	loaded := sym.Choice(4) // blocks already in the cache
	if loaded > 0 {
		f.ReadAt(loaded*2-1, 0)
	}
	f.FailFetch = true
	if sym.Choice(2) == 0 {
		data := sym.Bytes(1 + sym.Choice(4))
		src := hlib.NewSrc(data)
		src.AnySplit, src.Idle = true, 1
		src.EOFWithData = sym.Choice(2) == 1
		n, err := f.S.(io.ReaderFrom).ReadFrom(src)
		f.FailFetch = false
		if f.Faults == 0 {
			sym.Assert(err == nil && n == int64(len(data)), "everything is read")
		} else {
			sym.Assert(hlib.Is(err, hlib.Failure), "a failure of the storage is returned")
			sym.Cover("copy in failed")
		}
		put(f, data, sym.Concretize(int(n)))
		f.Finish()
		return
	}
	sink := hlib.NewSink()
	n, err := f.S.(io.WriterTo).WriteTo(sink)
	f.FailFetch = false
	sym.Assert(n == int64(len(sink.Data)), "the number of bytes delivered is returned")
	if f.Faults == 0 {
		sym.Assert(err == nil && len(sink.Data) == 5-pos, "everything is delivered")
	} else {
		sym.Assert(hlib.Is(err, hlib.Failure), "a failure of the storage is returned")
		sym.Cover("copy out failed")
	}
	sym.Assert(hlib.IsPrefix(sink.Data, f.Data[pos:]), "what is delivered is right")
}

// shortSink accepts fewer bytes than given without an error, once.
type shortSink struct {
	*hlib.Sink
	at, by, n int
}

func (s *shortSink) Write(p []byte) (int, error) {
	i := s.n
	s.n++
	if i == s.at {
		m := len(p) - s.by
		if m < 0 {
			m = 0
		}
		s.Sink.Write(p[:m])
		return m, nil
	}
	return s.Sink.Write(p)
}

// H_WriteTo: any stream at any position to a destination that may fail or
// accept less than given at any point.
func H_WriteTo() {
	b := sym.Bound("bytes per block", 2, 3)
	total := sym.Choice(4)
	size := sym.Choice(b*total + 1)
	f := hlib.NewByteFile(b, total, size, -1, []disko.IOFlags{disko.O_RDONLY, disko.O_RDWR, disko.O_RDWR | disko.O_APPEND}[sym.Choice(3)])
	pos := sym.Choice(size + 2)
	f.Seek(int64(pos), io.SeekStart)
	want := []byte{}
	if pos < size {
		want = f.Data[pos:]
	}
	sink := hlib.NewSink()
	switch sym.Choice(3) {
	case 0:
		n, err := f.S.(io.WriterTo).WriteTo(sink)
		sym.Assert(err == nil, "writing to a destination succeeds")
		sym.Assert(n == int64(len(want)), "the number of bytes delivered is returned")
		sym.Assert(len(sink.Data) == len(want) && sym.BytesEq(sink.Data, want), "every byte from the position on is delivered")
		sym.Assert(f.S.Tell() == int64(pos+len(want)), "the position is at the end")
		f.Pos = f.S.Tell()
		f.Finish()
	case 1:
		if len(want) == 0 {
			sym.Stop()
		}
		sink.FailAt, sink.Err, sink.Part = sym.Choice(len(want)), hlib.Inject(), sym.Choice(2) == 1
		n, err := f.S.(io.WriterTo).WriteTo(sink)
		sym.Assert(hlib.Is(err, hlib.Failure), "a failure of the destination is returned")
		sym.Assert(n == int64(len(sink.Data)), "the number of bytes delivered before the failure is returned")
		sym.Assert(hlib.IsPrefix(sink.Data, want), "what is delivered is right")
		sym.Cover("destination failed")
	case 2:
		s := &shortSink{Sink: sink, at: sym.Choice(3), by: 1 + sym.Choice(2)}
		n, err := f.S.(io.WriterTo).WriteTo(s)
		if s.n <= s.at {
			sym.Stop()
		}
		sym.Assert(err != nil, "a destination that accepts less than given is a failure")
		sym.Assert(n == int64(len(sink.Data)), "the number of bytes delivered before the short write is returned")
		sym.Assert(hlib.IsPrefix(sink.Data, want), "what is delivered is right")
		sym.Cover("short write")
	}
}

// H_StreamToStream: one stream is read into another.
func H_StreamToStream() {
	src := hlib.NewByteFile([]int{1, 2, 3}[sym.Choice(3)], 2, 2, -1, disko.O_RDONLY)
	pos := sym.Choice(4)
	src.Seek(int64(pos), io.SeekStart)
	dst := hlib.NewByteFile(2, 1, sym.Choice(3), 9, disko.O_RDWR)
	dst.Seek(int64(sym.Choice(4)), io.SeekStart)
	want := []byte{}
	if pos < 2 {
		want = src.Data[pos:]
	}
	var n int64
	var err error
	if sym.Choice(2) == 0 {
		n, err = dst.S.(io.ReaderFrom).ReadFrom(src.S)
	} else {
		n, err = src.S.(io.WriterTo).WriteTo(onlyWriter{dst.S})
	}
	sym.Assert(err == nil && n == int64(len(want)), "the whole stream is copied")
	put(dst, want, len(want))
	dst.Finish()
}

type onlyWriter struct{ s io.Writer }

func (w onlyWriter) Write(p []byte) (int, error) { return w.s.Write(p) }

// H_AnyPlace: bulk copies from and to any position at all, the source failing
// at any place.
func H_AnyPlace() {
	f := hlib.NewByteFile(2, 2, 3, 5, disko.O_RDWR)
	pos := sym.Int64()
	sym.Assume(pos >= 0)
	f.Seek(pos, io.SeekStart)
	if sym.Choice(2) == 0 {
		sink := hlib.NewSink()
		n, err := f.S.(io.WriterTo).WriteTo(sink)
		sym.Assert(err == nil, "writing to a destination succeeds")
		want := sym.IteInt(pos >= 3, 0, int(3-pos))
		sym.Assert(n == int64(want) && len(sink.Data) == want, "every byte from the position on is delivered")
		sym.Assert(hlib.IsPrefix(sink.Data, f.Data[3-sym.Concretize(want):]), "what is delivered is right")
		sym.Assert(f.S.Size() == 3, "copying out leaves the size alone")
		return
	}
	data := sym.Bytes(sym.Bound("source bytes", 4, 6))
	src := hlib.NewSrc(data)
	src.EOFWithData = sym.Choice(2) == 1
	src.FailAt, src.Err = sym.Concretize(sym.Range(-1, len(data))), hlib.Inject()
	src.DataWithErr = sym.Choice(2) == 1
	room := int64(10) - pos // the storage has room for 5 blocks of 2 bytes
	deliver := int64(len(data))
	if src.FailAt >= 0 {
		deliver = int64(src.FailAt)
	}
	n, err := f.S.(io.ReaderFrom).ReadFrom(src)
	sym.Assert(n >= 0 && n <= deliver, "no more than was delivered is transferred")
	if deliver > 0 && room < deliver {
		sym.Assert(err != nil, "a lack of room is returned")
		sym.Cover("no room")
		sym.Assert(f.S.Tell() == pos+n, "the position is after the bytes transferred")
		if pos > 10 {
			sym.Assert(n == 0 && f.S.Size() == 3, "nothing is written where there is no room")
			return
		}
	} else {
		sym.Assert((err == nil) == (src.FailAt < 0), "the failure of the source is returned")
		sym.Assert(sym.Implies(src.FailAt >= 0, hlib.Is(err, hlib.Failure)), "the failure of the source is returned")
		sym.Assert(n == deliver, "everything is transferred")
	}
	if n == 0 {
		sym.Assert(f.S.Size() == 3, "nothing transferred changes nothing")
		return
	}
	f.Pos = int64(sym.Concretize(int(pos)))
	put(f, data, sym.Concretize(int(n)))
	f.Finish()
}

// H_Large: transfers of many thousands of bytes, the source or the destination
// failing or giving in anywhere around a power of two, or not at all.
func H_Large() {
	size := []int{4095, 4097, 32769, 65537}[sym.Choice(4)]
	at := []int{-1, 4096, 32768, 65536}[sym.Choice(4)]
	if at >= size {
		sym.Stop()
	}
	data := append(hlib.Fill(size-2), sym.Bytes(2)...)
	if sym.Choice(2) == 0 {
		src := hlib.NewSrc(data)
		src.EOFWithData = sym.Choice(2) == 1
		if at >= 0 {
			src.FailAt, src.Err, src.DataWithErr = at, hlib.Inject(), sym.Choice(2) == 1
		}
		f := hlib.NewByteFile(512, 1, 100, 200, disko.O_RDWR)
		readFrom(f, src, data)
		return
	}
	f := hlib.NewByteFile(512, 0, 0, 200, disko.O_RDWR)
	n, err := f.S.Write(data)
	sym.Assert(n == size && err == nil, "writing succeeds")
	put(f, data, size)
	f.Seek(0, io.SeekStart)
	sink := hlib.NewSink()
	if at >= 0 {
		sink.FailAt, sink.Err, sink.Part = at, hlib.Inject(), sym.Choice(2) == 1
	}
	m, err := f.S.(io.WriterTo).WriteTo(sink)
	sym.Assert(m == int64(len(sink.Data)), "the number of bytes delivered is returned")
	sym.Assert(hlib.IsPrefix(sink.Data, data), "what is delivered is right")
	if at >= 0 {
		sym.Assert(hlib.Is(err, hlib.Failure), "a failure of the destination is returned")
		return
	}
	sym.Assert(err == nil && len(sink.Data) == size, "every byte from the position on is delivered")
}
