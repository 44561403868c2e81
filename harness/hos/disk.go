// Package hos backs an *os.File with an in-memory disk (see gosym/osoverlay.go).
package hos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"time"

	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

var errNegative = errors.New("negative offset")
var errInvalid = errors.New("invalid argument")

// Disk is an image file in memory. When Armed, at most one operation fails; a
// failing write may have written its first half.
type Disk struct {
	Data   []byte
	Pos    int64
	Armed  bool
	Fired  bool
	Stuck  bool // all operations after the failing one fail, too
	Writes int  // operations that may change the contents
	Ops    int
	// FakeSize, if not nil, replaces the size of the image; what lies outside
	// Data then reads as zeros.
	FakeSize *int64
	Closed   bool
}

// NewDisk makes a disk and the file for it.
func NewDisk(data []byte) (*Disk, *os.File) {
	d := &Disk{Data: data}
	return d, os.ZzVerifNewFile("image", d)
}

func (d *Disk) fault() bool {
	d.Ops++
	if d.Fired && d.Stuck {
		return true
	}
	if !d.Armed || d.Fired {
		return false
	}
	if sym.Choice(2) == 1 {
		d.Fired = true
		return true
	}
	return false
}

func (d *Disk) size() int64 {
	if d.FakeSize != nil {
		return *d.FakeSize
	}
	return int64(len(d.Data))
}

func (d *Disk) ReadAt(b []byte, off int64) (int, error) {
	if d.fault() {
		return 0, hlib.Inject()
	}
	if off < 0 {
		return 0, errNegative
	}
	off = int64(sym.Concretize(int(off)))
	if d.FakeSize != nil {
		for i := range b {
			b[i] = 0
		}
		if off < int64(len(d.Data)) {
			copy(b, d.Data[off:])
		}
		return len(b), nil
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= int64(len(d.Data)) {
		return 0, io.EOF
	}
	n := copy(b, d.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (d *Disk) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	n, err := d.ReadAt(b, d.Pos)
	d.Pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

func (d *Disk) WriteAt(b []byte, off int64) (int, error) {
	d.Writes++
	n := len(b)
	var err error
	if d.fault() {
		err = hlib.Inject()
		n = 0
		if len(b) > 1 && sym.Choice(2) == 1 {
			n = len(b) / 2
		}
	}
	if off < 0 {
		return 0, errNegative
	}
	if n == 0 {
		return 0, err
	}
	at := sym.Concretize(int(off))
	for len(d.Data) < at+n {
		d.Data = append(d.Data, make([]byte, at+n-len(d.Data))...)
	}
	copy(d.Data[at:], b[:n])
	return n, err
}

func (d *Disk) Write(b []byte) (int, error) {
	n, err := d.WriteAt(b, d.Pos)
	d.Pos += int64(n)
	return n, err
}

func (d *Disk) Seek(off int64, whence int) (int64, error) {
	if d.fault() {
		return 0, hlib.Inject()
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += d.Pos
	case io.SeekEnd:
		off += d.size()
	default:
		return 0, errInvalid
	}
	if off < 0 {
		return 0, errInvalid
	}
	d.Pos = off
	return off, nil
}

func (d *Disk) Truncate(size int64) error {
	d.Writes++
	if d.fault() {
		return hlib.Inject()
	}
	if size < 0 {
		return errInvalid
	}
	n := sym.Concretize(int(size))
	if n <= len(d.Data) {
		d.Data = d.Data[:n:n]
		return nil
	}
	d.Data = append(d.Data, make([]byte, n-len(d.Data))...)
	return nil
}

func (d *Disk) Sync() error {
	if d.fault() {
		return hlib.Inject()
	}
	return nil
}

func (d *Disk) Close() error {
	d.Closed = true
	if d.fault() {
		return hlib.Inject()
	}
	return nil
}

func (d *Disk) Stat() (os.FileInfo, error) {
	if d.fault() {
		return nil, hlib.Inject()
	}
	return info{d.size()}, nil
}

type info struct{ size int64 }

func (i info) Name() string       { return "image" }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return 0o644 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

// Endless is an image whose contents are a function of the offset and which
// logs what is written to it, so that offsets may stay symbolic.
type Endless struct {
	Size   int64
	Pos    int64
	Base   []byte // contents at the offsets below len(Base), for concrete offsets
	UseFn  bool
	Reads  []Access
	Writes []Access
	Trunc  int
}

// Access is one read or write.
type Access struct {
	Off  int64
	Data []byte
}

// NewEndless makes such an image and the file for it.
func NewEndless(base []byte) (*Endless, *os.File) {
	d := &Endless{Base: base, Size: int64(len(base))}
	return d, os.ZzVerifNewFile("image", d)
}

// At is the byte at an offset once UseFn is set.
func At(off int64) byte { return byte(off) ^ byte(off>>7) ^ byte(off>>15) }

func (d *Endless) ReadAt(b []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errNegative
	}
	d.Reads = append(d.Reads, Access{off, append([]byte{}, b...)})
	if !d.UseFn {
		at := sym.Concretize(int(off))
		n := copy(b, d.Base[at:])
		if n < len(b) {
			return n, io.EOF
		}
		return n, nil
	}
	for i := range b {
		b[i] = At(off + int64(i))
	}
	return len(b), nil
}

func (d *Endless) WriteAt(b []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errNegative
	}
	d.Writes = append(d.Writes, Access{off, append([]byte{}, b...)})
	return len(b), nil
}

func (d *Endless) Read(b []byte) (int, error) {
	n, err := d.ReadAt(b, d.Pos)
	d.Pos += int64(n)
	return n, err
}

func (d *Endless) Write(b []byte) (int, error) {
	n, err := d.WriteAt(b, d.Pos)
	d.Pos += int64(n)
	return n, err
}

func (d *Endless) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += d.Pos
	case io.SeekEnd:
		off += d.Size
	}
	if off < 0 {
		return 0, errInvalid
	}
	d.Pos = off
	return off, nil
}

func (d *Endless) Truncate(size int64) error  { d.Trunc++; return nil }
func (d *Endless) Sync() error                { return nil }
func (d *Endless) Close() error               { return nil }
func (d *Endless) Stat() (os.FileInfo, error) { return info{d.Size}, nil }
