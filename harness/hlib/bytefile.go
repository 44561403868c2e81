package hlib

import (
	"bytes"
	"io"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/basicstream"
	"github.com/dargueta/disko/file_systems/common/blockcache"
	"github.com/dargueta/disko/zz_verif/sym"
)

// FileLike is what a stream and an open file have in common.
type FileLike interface {
	io.ReadWriteCloser
	io.ReaderAt
	io.WriterAt
	io.StringWriter
	io.Seeker
	Truncate(size int64) error
	Sync() error
	Size() int64
	Tell() int64
}

// ByteFile is a stream under test together with the ordinary byte file it must
// behave like.
type ByteFile struct {
	S     FileLike
	Cache *blockcache.BlockCache
	B     int
	Flags disko.IOFlags

	Store     []byte // backing storage
	StoreOf   func() []byte
	Limit     int // most blocks the storage can hold (-1: fixed size)
	FailFetch bool
	FailFlush bool
	FailGrow  bool
	Faults    int
	Writes    int // blocks written to the storage

	Data []byte // model: contents
	Pos  int64  // model: position
}

// NewByteFile makes a stream of the given size over total blocks of arbitrary
// content.
func NewByteFile(b, total, size, limit int, flags disko.IOFlags) *ByteFile {
	f := &ByteFile{B: b, Limit: limit, Flags: flags}
	f.Store = Scattered(b * total)
	f.Data = append([]byte{}, f.Store[:size]...)
	var rs blockcache.ResizeCallback
	if limit >= 0 {
		rs = f.resize
	}
	f.Cache = blockcache.New(uint(b), uint(total), f.fetch, f.flush, rs)
	s, err := basicstream.New(int64(size), f.Cache, flags)
	if s != nil {
		f.S = s
	}
	if flags.Truncate() {
		if !flags.Write() {
			sym.Assert(err != nil, "truncating a stream that is not writable on opening is refused")
			sym.Stop()
		}
		f.Data = nil
	}
	sym.Assert(err == nil, "opening the stream succeeds")
	sym.Assert(s.Size() == int64(len(f.Data)), "the opened stream has the expected size")
	sym.Assert(s.Tell() == 0, "the opened stream is at its beginning")
	return f
}

// Scattered is n arbitrary bytes; of very many only every 1024th is arbitrary.
func Scattered(n int) []byte {
	if n <= 4096 {
		return sym.Bytes(n)
	}
	b := Fill(n)
	for i := 1023; i < n; i += 1024 {
		b[i] = sym.Byte()
	}
	return b
}

// grow makes the model's contents at least n bytes long.
func (f *ByteFile) grow(n int) {
	if len(f.Data) < n {
		f.Data = append(f.Data, make([]byte, n-len(f.Data))...)
	}
}

func (f *ByteFile) fetch(blk c.LogicalBlock, buf []byte) error {
	if f.FailFetch {
		f.Faults++
		return Inject()
	}
	i := sym.Concretize(int(blk)) * f.B
	copy(buf, f.Store[i:i+f.B])
	return nil
}

func (f *ByteFile) flush(blk c.LogicalBlock, buf []byte) error {
	if f.FailFlush {
		f.Faults++
		return Inject()
	}
	f.Writes++
	i := sym.Concretize(int(blk)) * f.B
	copy(f.Store[i:i+f.B], buf)
	return nil
}

func (f *ByteFile) resize(n c.LogicalBlock) error {
	if f.FailGrow {
		f.Faults++
		return Inject()
	}
	if n > c.LogicalBlock(f.Limit) {
		return disko.ErrNoSpaceOnDevice
	}
	want := sym.Concretize(int(n)) * f.B
	if len(f.Store) < want {
		f.Store = append(f.Store, bytes.Repeat([]byte{0xEE}, want-len(f.Store))...)
	}
	f.Store = f.Store[:want]
	return nil
}

// room reports whether the storage can hold size bytes.
func (f *ByteFile) room(size int64) bool {
	if f.Cache != nil && size <= int64(f.Cache.Size()) {
		return true
	}
	return size <= int64(f.Limit)*int64(f.B)
}

// unchanged checks that size and position are what the model says.
func (f *ByteFile) state(what string) {
	sym.Assert(f.S.Size() == int64(len(f.Data)), what+": the size is that of an ordinary file")
	sym.Assert(f.S.Tell() == f.Pos, what+": the position is that of an ordinary file")
}

// Read reads n bytes at the position.
func (f *ByteFile) Read(n int) {
	buf := Scattered(n)
	got, err := f.S.Read(buf)
	if f.readResult("read", buf, f.Pos, got, err, true) {
		f.Pos += int64(got)
	}
	f.state("read")
}

// ReadAt reads n bytes at an offset.
func (f *ByteFile) ReadAt(n int, off int64) {
	buf := Scattered(n)
	got, err := f.S.ReadAt(buf, off)
	f.readResult("read at", buf, off, got, err, false)
	f.state("read at")
}

func (f *ByteFile) readResult(what string, buf []byte, off int64, got int, err error, stream bool) bool {
	if !f.Flags.Read() {
		sym.Assert(got == 0 && Is(err, disko.ErrNotPermitted), what+": reading without read access is not permitted")
		return false
	}
	if off < 0 {
		sym.Assert(got == 0 && err != nil, what+": a negative offset is an error")
		return false
	}
	if len(buf) == 0 {
		sym.Assert(got == 0 && err == nil, what+": reading nothing succeeds")
		return true
	}
	want := 0
	if off < int64(len(f.Data)) {
		want = len(f.Data) - sym.Concretize(int(off))
		if want > len(buf) {
			want = len(buf)
		}
	}
	sym.Assert(got == want, what+": as many bytes are read as from an ordinary file")
	if want > 0 {
		o := sym.Concretize(int(off))
		sym.Assert(sym.BytesEq(buf[:want], f.Data[o:o+want]), what+": the bytes read are those of an ordinary file")
	}
	if want == 0 || (want < len(buf) && !stream) {
		sym.Assert(err == io.EOF, what+": the end of the file is reported")
	} else if want == len(buf) {
		sym.Assert(err == nil, what+": a complete read is no end of file")
	} else {
		sym.Assert(err == nil || err == io.EOF, what+": a short read at the end succeeds")
	}
	return true
}

// Write writes n arbitrary bytes at the position (the end in append mode).
func (f *ByteFile) Write(n int, str bool) {
	b := sym.Bytes(n)
	orig := append([]byte{}, b...)
	var got int
	var err error
	if str {
		got, err = f.S.WriteString(string(b))
	} else {
		got, err = f.S.Write(b)
	}
	sym.Assert(sym.BytesEq(b, orig), "write: the caller's buffer is left alone")
	if f.refusedWrite("write", got, err) {
		return
	}
	off := f.Pos
	if f.Flags.Append() && n > 0 {
		off = int64(len(f.Data))
	}
	if f.written("write", b, off, got, err) && n > 0 {
		f.Pos = off + int64(n)
	}
	f.state("write")
	f.synced(err)
}

func (f *ByteFile) refusedWrite(what string, got int, err error) bool {
	if f.Flags.Write() {
		return false
	}
	sym.Assert(Is(err, disko.ErrNotPermitted), what+": writing without write access is not permitted")
	sym.Assert(got == 0, what+": nothing is written without write access")
	f.state(what)
	return true
}

// WriteAt writes n arbitrary bytes at an offset.
func (f *ByteFile) WriteAt(n int, off int64) {
	b := sym.Bytes(n)
	got, err := f.S.WriteAt(b, off)
	if f.refusedWrite("write at", got, err) {
		return
	}
	if f.Flags.Append() {
		sym.Assert(got == 0 && Is(err, disko.ErrNotPermitted), "write at: explicit offsets are refused in append mode")
	} else {
		f.written("write at", b, off, got, err)
	}
	f.state("write at")
	f.synced(err)
}

func (f *ByteFile) written(what string, b []byte, off int64, got int, err error) bool {
	if off < 0 {
		sym.Assert(got == 0 && err != nil, what+": a negative offset is an error")
		return false
	}
	n := len(b)
	if n == 0 {
		sym.Assert(got == 0 && err == nil, what+": writing nothing succeeds")
		return true
	}
	if off > off+int64(n) || !f.room(off+int64(n)) || (f.FailGrow && f.Faults > 0) {
		sym.Assert(got == 0 && err != nil, what+": a write the storage has no room for fails")
		return false
	}
	sym.Assert(err == nil, what+": succeeds")
	sym.Assert(got == n, what+": all bytes are written")
	o := sym.Concretize(int(off))
	f.grow(o + n)
	copy(f.Data[o:], b)
	return true
}

// synced checks that in synchronous mode a successful change has reached the
// storage.
func (f *ByteFile) synced(err error) {
	if err == nil && f.Flags.Synchronous() {
		f.stored("in synchronous mode")
	}
}

func (f *ByteFile) stored(when string) {
	if f.StoreOf != nil {
		f.Store = f.StoreOf()
	}
	sym.Assert(len(f.Store) >= len(f.Data), when+": the storage has room for the contents")
	sym.Assert(sym.BytesEq(f.Store[:len(f.Data)], f.Data), when+": the storage holds exactly the contents")
}

// Seek moves the position.
func (f *ByteFile) Seek(off int64, whence int) {
	abs := off
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		abs += f.Pos
	case io.SeekEnd:
		abs += int64(len(f.Data))
	default:
		abs = -1
	}
	got, err := f.S.Seek(off, whence)
	if abs < 0 {
		sym.Assert(err != nil, "seek: an invalid place is an error")
	} else {
		sym.Assert(err == nil, "seek: succeeds")
		sym.Assert(got == abs, "seek: returns the new position")
		f.Pos = abs
	}
	f.state("seek")
}

// Truncate changes the size.
func (f *ByteFile) Truncate(size int64) {
	room := f.room(size)
	err := f.S.Truncate(size)
	if !f.Flags.Write() {
		sym.Assert(Is(err, disko.ErrNotPermitted), "truncate: truncating without write access is not permitted")
		f.state("truncate")
		return
	}
	if size < 0 || !room || (f.FailGrow && f.Faults > 0) {
		sym.Assert(err != nil, "truncate: an impossible size is an error")
		f.state("truncate")
		return
	}
	if f.Limit >= 0 { // storage that cannot be resized may refuse
		sym.Assert(err == nil, "truncate: succeeds")
	}
	if err == nil {
		n := sym.Concretize(int(size))
		f.grow(n)
		f.Data = f.Data[:n]
	}
	f.state("truncate")
	f.synced(err)
}

// Sync writes everything to the storage.
func (f *ByteFile) Sync(closing bool) {
	var err error
	if closing {
		err = f.S.Close()
	} else {
		err = f.S.Sync()
	}
	sym.Assert(err == nil, "syncing succeeds")
	f.stored("after syncing")
	f.state("sync")
}

// Contents checks the whole contents without moving the position.
func (f *ByteFile) Contents() {
	if f.Flags.Read() {
		f.ReadAt(len(f.Data)+1, 0)
	}
}

// Finish observes contents and storage.
func (f *ByteFile) Finish() {
	f.state("finally")
	f.Contents()
	f.Sync(sym.Choice(2) == 1)
}

// Op performs one operation; offsets and lengths are small.
func (f *ByteFile) Op(maxLen, maxOff int) {
	switch sym.Choice(7) {
	case 0:
		f.Read(sym.Choice(maxLen + 1))
	case 1:
		f.Write(sym.Choice(maxLen+1), false)
	case 2:
		f.ReadAt(sym.Choice(maxLen+1), int64(sym.Choice(maxOff+2)-1))
	case 3:
		f.WriteAt(sym.Choice(maxLen+1), int64(sym.Choice(maxOff+2)-1))
	case 4:
		f.Write(sym.Choice(maxLen+1), true)
	case 5:
		f.Truncate(int64(sym.Choice(maxOff+2) - 1))
	case 6:
		f.Sync(false)
	}
}

// Stored checks that the storage holds the contents.
func (f *ByteFile) Stored(when string) { f.stored(when) }

// Cover records that a synchronous stream was exercised.
func (f *ByteFile) Cover() { sym.Cover("synchronous") }
