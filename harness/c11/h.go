// Package c11: a stream behaves like an ordinary byte file.
package c11

import (
	"io"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common/basicstream"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

// arbitrary is a stream of any size in any number of blocks at any position.
// Everything beyond its size in the storage is arbitrary.
func arbitrary(b, maxBlocks, extra int) *hlib.ByteFile {
	return arbitraryIn(disko.O_RDWR, b, maxBlocks, extra)
}

func arbitraryIn(flags disko.IOFlags, b, maxBlocks, extra int) *hlib.ByteFile {
	total := sym.Choice(maxBlocks + 1)
	size := sym.Choice(b*total + 1)
	limit := -1
	if sym.Choice(3) > 0 {
		limit = total + extra
	}
	f := hlib.NewByteFile(b, total, size, limit, flags)
	f.Seek(int64(sym.Choice(b*total+3)), io.SeekStart)
	return f
}

// H_OneOp: any state, any operation, then everything is observed. The state of
// a stream is its size, position, contents and the content of the storage, so
// this is an inductive step for sequences of any length.
func H_OneOp() {
	f := arbitrary(sym.Bound("bytes per block", 2, 3), sym.Bound("blocks", 2, 3), 2)
	f.Op(5, 8)
	f.Finish()
	sym.Cover("finished")
}

// H_Sequence: sequences of operations on a small stream.
func H_Sequence() {
	flags := []disko.IOFlags{disko.O_RDWR, disko.O_RDWR | disko.O_APPEND}[sym.Choice(2)]
	f := hlib.NewByteFile(2, 1, sym.Choice(3), 2, flags)
	for i := 0; i < sym.Bound("operations", 2, 3); i++ {
		if sym.Choice(2) == 0 {
			f.Op(2, 3)
		} else {
			f.Seek(int64(sym.Choice(4)-1), sym.Choice(3))
		}
	}
	f.Finish()
}

// H_Seek: any state, any 64-bit offset and origin, in append mode or not.
func H_Seek() {
	flags := []disko.IOFlags{disko.O_RDWR, disko.O_RDWR | disko.O_APPEND}[sym.Choice(2)]
	f := arbitraryIn(flags, 1, sym.Bound("blocks", 1, 2), 1)
	w := sym.Int()
	switch sym.Choice(4) {
	case 0, 1, 2:
		w = sym.Choice(3)
	default:
		sym.Assume(w < 0 || w > 2)
	}
	f.Seek(sym.Int64(), w)
	f.Read(1)
	sym.Assert(f.S.Size() == int64(len(f.Data)), "seeking does not change the size")
}

// H_Wild: reads, writes and truncations at any 64-bit offset.
func H_Wild() {
	total := sym.Choice(3)
	size := sym.Choice(2*total + 1)
	f := hlib.NewByteFile(2, total, size, 3, disko.O_RDWR)
	off := sym.Int64()
	n := sym.Choice(3)
	switch sym.Choice(4) {
	case 0:
		f.ReadAt(n, off)
	case 1:
		f.WriteAt(n, off)
	case 2:
		f.Truncate(off)
	case 3:
		sym.Assume(off >= 0)
		f.Seek(off, io.SeekStart)
		f.Write(n, false)
	}
	f.Finish()
}

// H_NoRoom: growth is refused by the storage or fails; nothing changes.
func H_NoRoom() {
	f := arbitrary(2, 2, 2)
	f.FailGrow = true
	f.Op(4, 7)
	f.FailGrow = false
	f.Finish()
}

// H_FaultyStorage: blocks cannot be fetched while an operation runs. It either
// behaves as usual or fails leaving contents, size and position alone.
func H_FaultyStorage() {
	total := 1 + sym.Choice(2)
	f := hlib.NewByteFile(2, total, sym.Choice(2*total+1), 4, disko.O_RDWR)
	f.Seek(int64(sym.Choice(2*total+2)), io.SeekStart)
	f.FailFetch = true
	b := sym.Bytes(1 + sym.Choice(3))
	off := int64(sym.Choice(6))
	var n int
	var err error
	kind := sym.Choice(4)
	switch kind {
	case 0:
		n, err = f.S.Read(b)
	case 1:
		n, err = f.S.ReadAt(b, off)
	case 2:
		n, err = f.S.WriteAt(b, off)
	case 3:
		n, err = f.S.Write(b)
		off = f.Pos
	}
	f.FailFetch = false
	if f.Faults > 0 {
		sym.Assert(hlib.Is(err, hlib.Failure), "a failure of the storage is returned")
		sym.Assert(n == 0, "nothing is transferred when the storage fails")
		sym.Cover("failed")
		f.Finish()
	}
}

// H_BigBlocks: realistic block sizes and offsets around block boundaries.
func H_BigBlocks() {
	b := []int{128, 512}[sym.Choice(2)]
	size := 2*b + []int{-1, 0, 1, b}[sym.Choice(4)]
	f := hlib.NewByteFile(b, 3, size, 9, disko.O_RDWR)
	offs := []int64{0, 1, int64(b) - 1, int64(b), int64(b) + 1, int64(2*b) - 1, int64(2 * b), int64(3 * b), int64(4*b) + 1}
	lens := []int{1, 2, b - 1, b, b + 1, 2*b - 1, 2*b + 1}
	off := offs[sym.Choice(len(offs))]
	n := lens[sym.Choice(len(lens))]
	switch sym.Choice(4) {
	case 0:
		f.ReadAt(n, off)
	case 1:
		f.WriteAt(n, off)
	case 2:
		f.Seek(off, io.SeekStart)
		f.Write(n, false)
	case 3:
		f.Truncate(off)
		f.Truncate(off + int64(n))
	}
	f.Finish()
}

// H_Large: streams of some 64 KiB, positions and lengths around 32768 and 65536.
func H_Large() {
	total := 140
	f := hlib.NewByteFile(512, total, []int{32768, 65535, 65537, 70000}[sym.Choice(4)], total+70, disko.O_RDWR)
	off := []int64{0, 32767, 65535, 65536, 71680, 98304}[sym.Choice(6)]
	n := []int{1, 2, 513, 33000, 65536}[sym.Choice(5)]
	switch sym.Choice(6) {
	case 0:
		f.ReadAt(n, off)
	case 1:
		f.WriteAt(n, off)
	case 2:
		f.Seek(off, io.SeekStart)
		f.Write(n, false)
	case 3:
		f.Seek(off, io.SeekStart)
		f.Read(n)
		f.Seek(int64(-n), io.SeekEnd)
		f.Read(2)
	case 4:
		f.Truncate(off)
		f.Write(n, true)
	case 5:
		f.Truncate(off + int64(n))
	}
	f.Finish()
	sym.Cover("large")
}

// H_New: any 64-bit size; only sizes the storage can hold are accepted.
func H_New() {
	total := sym.Choice(3)
	f := hlib.NewByteFile(2, total, 0, 2, disko.O_RDWR)
	size := sym.Int64()
	s, err := basicstream.New(size, f.Cache, disko.O_RDWR)
	ok := size >= 0 && size <= int64(2*total)
	sym.Assert((err == nil) == ok, "a stream can be as large as its storage")
	if ok {
		sym.Assert(s.Size() == size, "a new stream has the size given")
	}
}
