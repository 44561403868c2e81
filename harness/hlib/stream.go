package hlib

import (
	"errors"
	"io"

	"github.com/dargueta/disko/zz_verif/sym"
)

// Stream is a seekable stream over Data that grows when written past its end,
// as a file does, and can misbehave in every way a stream may.
type Stream struct {
	Data []byte
	Pos  int64

	AnySplit    bool // reads deliver any number of bytes >= 1
	EOFWithData bool // the last bytes arrive together with io.EOF
	Idle        int  // so many reads may give nothing and no error

	// FailOp is the index of the call that fails, among the calls of FailKind
	// ("read", "write", "seek", "truncate").
	FailKind string
	FailOp   int
	FailErr  error // nil: the write is short without an error
	FailPart bool  // a failing transfer is done in part

	n        map[string]int
	Failed   bool
	Written  [][2]int // offset, length of every write
	TruncArg int64
}

func NewStream(data []byte) *Stream {
	return &Stream{Data: data, FailOp: -1, n: map[string]int{}, TruncArg: -1}
}

func (s *Stream) fail(kind string) bool {
	i := s.n[kind]
	s.n[kind] = i + 1
	if kind == s.FailKind && i == s.FailOp {
		s.Failed = true
		return true
	}
	return false
}

func (s *Stream) Reset() { s.n = map[string]int{}; s.Written = nil; s.Failed = false }

func (s *Stream) Read(p []byte) (int, error) {
	n := 0
	if int(s.Pos) < len(s.Data) {
		n = len(s.Data) - int(s.Pos)
	}
	if n > len(p) {
		n = len(p)
	}
	if s.fail("read") {
		m := 0
		if s.FailPart && n > 1 {
			m = 1
			copy(p[:m], s.Data[s.Pos:])
			s.Pos++
		}
		return m, s.FailErr
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.Idle > 0 && sym.Choice(2) == 1 {
		s.Idle--
		return 0, nil
	}
	if n == 0 {
		return 0, io.EOF
	}
	if s.AnySplit && n > 1 {
		n = 1 + sym.Choice(n)
	}
	copy(p[:n], s.Data[s.Pos:int(s.Pos)+n])
	s.Pos += int64(n)
	if s.EOFWithData && int(s.Pos) == len(s.Data) {
		return n, io.EOF
	}
	return n, nil
}

func (s *Stream) Write(p []byte) (int, error) {
	if s.fail("write") {
		m := 0
		if s.FailPart && len(p) > 1 {
			m = 1
			s.put(p[:1])
		}
		return m, s.FailErr
	}
	s.put(p)
	return len(p), nil
}

func (s *Stream) put(p []byte) {
	off := int(s.Pos)
	s.Written = append(s.Written, [2]int{off, len(p)})
	for len(s.Data) < off+len(p) {
		s.Data = append(s.Data, 0)
	}
	copy(s.Data[off:], p)
	s.Pos += int64(len(p))
}

func (s *Stream) Seek(off int64, whence int) (int64, error) {
	if s.fail("seek") {
		return 0, s.FailErr
	}
	switch whence {
	case io.SeekCurrent:
		off += s.Pos
	case io.SeekEnd:
		off += int64(len(s.Data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.Pos = off
	return off, nil
}

// TruncStream is a Stream that can also be truncated.
type TruncStream struct{ *Stream }

func (s TruncStream) Truncate(n int64) error {
	if s.fail("truncate") {
		return s.FailErr
	}
	s.TruncArg = n
	for int64(len(s.Data)) < n {
		s.Data = append(s.Data, 0)
	}
	s.Data = s.Data[:n]
	return nil
}
