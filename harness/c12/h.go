// Package c12: stream access modes are enforced.
package c12

import (
	"io"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

func flags() disko.IOFlags {
	fl := []disko.IOFlags{disko.O_RDONLY, disko.O_WRONLY, disko.O_RDWR}[sym.Choice(3)]
	if sym.Choice(2) == 1 {
		fl |= disko.O_APPEND
	}
	if sym.Choice(2) == 1 {
		fl |= disko.O_SYNC
	}
	if sym.Choice(2) == 1 {
		fl |= disko.O_TRUNC
	}
	if sym.Choice(2) == 1 { // flags that mean nothing to a stream
		fl |= disko.O_CREATE | disko.O_EXCL | disko.O_NOATIME
	}
	return fl
}

func open(b, maxBlocks int) *hlib.ByteFile {
	fl := flags()
	total := sym.Choice(maxBlocks + 1)
	f := hlib.NewByteFile(b, total, sym.Choice(b*total+1), total+3, fl)
	if fl.Truncate() {
		sym.Assert(f.S.Size() == 0, "truncating on opening leaves size zero")
		sym.Cover("truncated")
	}
	return f
}

// finish observes everything; a stream that is not writable has not changed
// the storage at all.
func finish(f *hlib.ByteFile, orig []byte) {
	if f.Flags.Synchronous() {
		f.Cover()
	}
	f.Finish()
	if !f.Flags.Write() {
		sym.Assert(len(f.Store) == len(orig) && sym.BytesEq(f.Store, orig), "a stream without write access leaves the storage alone")
		sym.Assert(f.Writes == 0, "a stream without write access writes nothing to the storage")
	}
}

// H_Modes: every access mode, any state, any operation.
func H_Modes() {
	f := open(2, sym.Bound("blocks", 1, 2))
	orig := append([]byte{}, f.Store...)
	f.Seek(int64(sym.Choice(4)), io.SeekStart)
	f.Op(3, 4)
	finish(f, orig)
}

// H_Sequence: two operations in every access mode.
func H_Sequence() {
	fl := flags()
	f := hlib.NewByteFile(2, 1, 1, 3, fl)
	orig := append([]byte{}, f.Store...)
	for i := 0; i < sym.Bound("operations", 2, 2); i++ {
		if sym.Choice(3) == 0 {
			f.Seek(int64(sym.Choice(3)), sym.Choice(3))
		} else {
			f.Op(sym.Bound("length", 1, 2), sym.Bound("offset", 2, 3))
		}
	}
	finish(f, orig)
}

// H_Large: long transfers in every access mode.
func H_Large() {
	fl := []disko.IOFlags{disko.O_RDWR, disko.O_WRONLY}[sym.Choice(2)]
	fl |= []disko.IOFlags{0, disko.O_APPEND, disko.O_SYNC, disko.O_APPEND | disko.O_SYNC}[sym.Choice(4)]
	size := []int{32769, 70000}[sym.Choice(2)]
	f := hlib.NewByteFile(512, 140, size, 280, fl)
	orig := append([]byte{}, f.Store...)
	f.Seek(int64([]int{0, 40000}[sym.Choice(2)]), io.SeekStart)
	n := []int{33000, 65536}[sym.Choice(2)]
	switch sym.Choice(4) {
	case 0:
		f.Write(n, false)
	case 1:
		f.WriteAt(n, 513)
	case 2:
		f.Truncate(int64(n))
	case 3:
		f.Read(n)
		f.Write(2, true)
	}
	finish(f, orig)
	sym.Cover("large")
}

// H_Bulk: bulk copies obey the access mode.
func H_Bulk() {
	f := open(2, 1)
	orig := append([]byte{}, f.Store...)
	f.Seek(int64(sym.Choice(3)), io.SeekStart)
	if sym.Choice(2) == 0 {
		sink := hlib.NewSink()
		n, err := f.S.(io.WriterTo).WriteTo(sink)
		if !f.Flags.Read() {
			sym.Assert(n == 0 && hlib.Is(err, disko.ErrNotPermitted), "copying out without read access is not permitted")
			sym.Assert(len(sink.Data) == 0, "nothing is delivered without read access")
			sym.Cover("no read")
			finish(f, orig)
		}
		return
	}
	data := sym.Bytes(sym.Choice(4))
	n, err := f.S.(io.ReaderFrom).ReadFrom(hlib.NewSrc(data))
	if !f.Flags.Write() {
		sym.Assert(n == 0 && hlib.Is(err, disko.ErrNotPermitted), "copying in without write access is not permitted")
		sym.Cover("no write")
		finish(f, orig)
		return
	}
	sym.Assert(err == nil && n == int64(len(data)), "copying in succeeds")
	off := int(f.Pos)
	if f.Flags.Append() {
		off = len(f.Data)
	}
	if len(data) > 0 {
		for len(f.Data) < off+len(data) {
			f.Data = append(f.Data, 0)
		}
		copy(f.Data[off:], data)
		f.Pos = int64(off + len(data))
	} else {
		f.Pos = f.S.Tell()
	}
	if f.Flags.Synchronous() {
		f.Stored("after copying in synchronous mode")
	}
	finish(f, orig)
}

// H_SyncFailure: in synchronous mode a storage that cannot be written makes
// the write or truncation fail.
func H_SyncFailure() {
	fl := []disko.IOFlags{disko.O_WRONLY, disko.O_RDWR}[sym.Choice(2)] | disko.O_SYNC
	if sym.Choice(2) == 1 {
		fl |= disko.O_APPEND
	}
	f := hlib.NewByteFile(2, 2, sym.Choice(5), 4, fl)
	f.FailFlush = true
	var err error
	switch sym.Choice(4) {
	case 0:
		_, err = f.S.Write(sym.Bytes(1 + sym.Choice(3)))
	case 1:
		_, err = f.S.WriteString(sym.String(1 + sym.Choice(3)))
	case 2:
		if fl.Append() {
			sym.Stop()
		}
		_, err = f.S.WriteAt(sym.Bytes(1+sym.Choice(3)), int64(sym.Choice(6)))
	case 3:
		err = f.S.Truncate(int64(5 + sym.Choice(3)))
	}
	sym.Assert(f.Faults > 0, "the change is written to the storage before the call returns")
	sym.Assert(hlib.Is(err, hlib.Failure), "a failure to write to the storage is returned")
}

// H_AnyFlags: every value of the flags and any offsets at all: what is and is
// not permitted depends on the access mode and O_APPEND alone.
func H_AnyFlags() {
	fl := disko.IOFlags(sym.Int())
	mode := int(fl) & 3
	sym.Assume(mode != 3)
	f := hlib.NewByteFile(2, 2, 3, 4, fl)
	orig := append([]byte{}, f.Store...)
	canRead, canWrite := mode != 1, mode != 0
	// far is any place that no file within the storage reaches.
	far := func() int64 {
		n := sym.Int64()
		sym.Assume(n < 0 || n > 8)
		return n
	}
	buf := sym.Bytes(2)
	switch sym.Choice(6) {
	case 0:
		n, err := f.S.ReadAt(buf, far())
		sym.Assert(n == 0 && err != nil, "nothing is read far away")
		sym.Assert(hlib.Is(err, disko.ErrNotPermitted) == !canRead, "reading is refused exactly without read access")
	case 1:
		off := int64(sym.Range(0, 5))
		n, err := f.S.WriteAt(buf, off)
		refused := !canWrite || int(fl)&8 != 0
		sym.Assert(hlib.Is(err, disko.ErrNotPermitted) == refused, "explicit offsets are refused exactly without write access or in append mode")
		sym.Assert(sym.Implies(refused, n == 0), "nothing is written when refused")
		if !refused {
			sym.Assert(err == nil && n == 2, "writing succeeds")
			return
		}
	case 2:
		n, err := f.S.WriteAt(buf, far())
		sym.Assert(n == 0 && err != nil, "nothing is written far away")
		refused := !canWrite || int(fl)&8 != 0
		sym.Assert(sym.Implies(refused, hlib.Is(err, disko.ErrNotPermitted)), "explicit offsets are refused without write access or in append mode")
	case 3:
		err := f.S.Truncate(far())
		sym.Assert(err != nil, "an impossible size is an error")
		sym.Assert(sym.Implies(!canWrite, hlib.Is(err, disko.ErrNotPermitted)), "truncating is refused without write access")
	case 4:
		f.Seek(far(), sym.Range(0, 2))
		at := f.Pos
		n, err := f.S.Write(buf)
		sym.Assert(hlib.Is(err, disko.ErrNotPermitted) == !canWrite, "writing is refused exactly without write access")
		if !canWrite {
			sym.Assert(n == 0 && f.S.Tell() == at, "nothing is written when refused")
		} else if int(fl)&8 != 0 {
			sym.Assert(err == nil && n == 2, "appending succeeds wherever the position is")
			sym.Assert(f.S.Size() == int64(len(f.Data)+2), "appended bytes go to the end")
			sym.Assert(f.S.Tell() == int64(len(f.Data)+2), "the position is after the appended bytes")
			sym.Cover("appended")
			return
		} else if at > 6 {
			sym.Assert(n == 0 && err != nil, "nothing is written far away")
		} else {
			return
		}
	case 5:
		n, err := f.S.Read(buf)
		sym.Assert(hlib.Is(err, disko.ErrNotPermitted) == !canRead, "reading is refused exactly without read access")
		if canRead {
			return
		}
		sym.Assert(n == 0, "nothing is read when refused")
	}
	f.Pos = f.S.Tell()
	sym.Assert(f.S.Size() == int64(len(f.Data)), "a refused operation leaves the size alone")
	sym.Assert(f.S.Close() == nil, "closing succeeds")
	if canWrite { // what the storage holds past the end of the file does not matter
		orig = orig[:len(f.Data)]
	}
	sym.Assert(len(f.Store) >= len(orig) && sym.BytesEq(f.Store[:len(orig)], orig), "a refused operation leaves the storage alone")
}
