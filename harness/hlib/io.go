// Package hlib holds sources, sinks and reference codecs shared by harnesses.
package hlib

import (
	"bytes"
	"errors"
	"io"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/zz_verif/sym"
)

// ErrInjected is the failure injected into sources and sinks.
var ErrInjected = errors.New("injected failure")

// Failures are values a failing part may return; code must not take any of
// them for something else than a failure.
var Failures = []error{ErrInjected, io.ErrUnexpectedEOF, disko.ErrIOFailed, io.ErrShortWrite}

// Failure is the failure that is injected.
var Failure = ErrInjected

var chosenIn = -1

// Inject returns the failure, chosen on the first call.
func Inject() error {
	if chosenIn != sym.Epoch {
		chosenIn = sym.Epoch
		Failure = Failures[sym.Choice(len(Failures))]
	}
	return Failure
}

// Src is an io.Reader over Data. Split chooses the size of each read.
type Src struct {
	Data        []byte
	Pos         int
	Max         int  // largest read (0: unlimited)
	AnySplit    bool // every read returns any number of bytes >= 1
	EOFWithData bool // the last data arrives together with io.EOF
	FailAt      int  // the read reaching this offset fails (-1: never)
	Err         error
	DataWithErr bool // the failing read delivers the bytes before FailAt with the error
	Reads       int
	Idle        int // so many reads may give nothing and no error
}

func NewSrc(data []byte) *Src { return &Src{Data: data, FailAt: -1} }

func (s *Src) Read(p []byte) (int, error) {
	s.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	if s.Idle > 0 && sym.Choice(2) == 1 {
		s.Idle--
		return 0, nil
	}
	end := len(s.Data)
	if s.FailAt >= 0 && s.FailAt < end {
		end = s.FailAt
	}
	if s.Pos >= end {
		if s.FailAt >= 0 && s.Pos >= s.FailAt {
			return 0, s.Err
		}
		return 0, io.EOF
	}
	n := end - s.Pos
	if s.Max > 0 && n > s.Max {
		n = s.Max
	}
	if n > len(p) {
		n = len(p)
	}
	if s.AnySplit && n > 1 {
		n = 1 + sym.Choice(n)
	}
	copy(p[:n], s.Data[s.Pos:s.Pos+n])
	s.Pos += n
	if s.Pos == end {
		if s.FailAt >= 0 && s.Pos == s.FailAt {
			if s.DataWithErr {
				return n, s.Err
			}
		} else if s.EOFWithData {
			return n, io.EOF
		}
	}
	return n, nil
}

// Sink is an io.Writer that can fail or accept less than given.
type Sink struct {
	Data   []byte
	FailAt int // a write that would go beyond this many bytes fails (-1: never)
	Err    error
	Part   bool // the failing write accepts the bytes before FailAt
	Writes int
	Failed bool
}

func NewSink() *Sink { return &Sink{FailAt: -1} }

func (s *Sink) Write(p []byte) (int, error) {
	s.Writes++
	if s.FailAt >= 0 && len(s.Data)+len(p) > s.FailAt {
		s.Failed = true
		n := 0
		if s.Part {
			n = s.FailAt - len(s.Data)
			if n < 0 {
				n = 0
			}
			s.Data = append(s.Data, p[:n]...)
		}
		return n, s.Err
	}
	s.Data = append(s.Data, p...)
	return len(p), nil
}

// Run is a maximal run of equal bytes.
type Run struct {
	B byte
	N int
}

// RunsOf splits data into maximal runs (forks on equality of neighbours).
func RunsOf(data []byte) []Run {
	var rs []Run
	for i, b := range data {
		if i > 0 && rs[len(rs)-1].B == b {
			rs[len(rs)-1].N++
		} else {
			rs = append(rs, Run{b, 1})
		}
	}
	return rs
}

// RefRLE8 is the documented RLE8 encoding of runs.
func RefRLE8(rs []Run) []byte {
	var out []byte
	for _, r := range rs {
		n := r.N
		for n >= 2 {
			k := n
			if k > 257 {
				k = 257
			}
			out = append(out, r.B, r.B, byte(k-2))
			n -= k
		}
		if n == 1 {
			out = append(out, r.B)
		}
	}
	return out
}

// RefRRLE is the documented recursive encoding of runs.
func RefRRLE(rs []Run) []byte {
	var out []byte
	for _, r := range rs {
		if r.N == 1 {
			out = append(out, r.B)
			continue
		}
		out = append(out, r.B, r.B)
		n := r.N - 2
		for n >= 255 {
			out = append(out, 255)
			n -= 255
		}
		out = append(out, byte(n))
	}
	return out
}

// Expand writes out runs.
func Expand(rs []Run) []byte {
	var out []byte
	for _, r := range rs {
		for i := 0; i < r.N; i++ {
			out = append(out, r.B)
		}
	}
	return out
}

// Fill is n concrete bytes without equal neighbours.
func Fill(n int) []byte {
	return bytes.Repeat([]byte{1, 2, 3, 4, 5}, n/5+1)[:n:n]
}

// IsPrefix reports whether a is a prefix of b.
func IsPrefix(a, b []byte) bool {
	if len(a) > len(b) {
		return false
	}
	return sym.BytesEq(a, b[:len(a)])
}

// Is is errors.Is.
func Is(err, target error) bool { return errors.Is(err, target) }

// Long is a long list of runs: single bytes, pairs, or single bytes and runs in
// turn, up to any length, or around a power of two; then two runs of arbitrary bytes
// (of several lengths if ends).
func Long(max, top int, ends bool) []Run {
	kind := sym.Choice(3)
	n := 0
	if sym.Choice(2) == 0 {
		n = sym.Choice(max + 1)
	} else {
		n = (1024 << sym.Choice(top)) - 1 + sym.Choice(3)
	}
	var rs []Run
	for size := 0; size < n; {
		r := Run{B: byte(len(rs)%5 + 1), N: 1}
		switch {
		case kind == 1:
			r.N = 2
		case kind == 2 && len(rs)%2 == 1:
			r.N = 3 + len(rs)%60
		}
		rs = append(rs, r)
		size += r.N
	}
	v := sym.Bytes(2)
	sym.Assume(v[0] > 5)
	sym.Assume(v[1] > 5)
	sym.Assume(v[0] != v[1])
	if !ends {
		return append(rs, Run{v[0], 300}, Run{v[1], 1})
	}
	return append(rs, Run{v[0], []int{1, 2, 3, 300}[sym.Choice(4)]}, Run{v[1], 1 + sym.Choice(2)})
}
