// Package c04: codecs report I/O failures; the run reader is exact.
package c04

import (
	"errors"
	"io"

	"github.com/dargueta/disko/utilities/compression"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

var sourceErrs = []error{hlib.ErrInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe}

type codec func(io.Reader, io.Writer) (int64, error)

var codecs = []codec{compression.CompressRLE8, compression.DecompressRLE8, compression.CompressRLERecursive, compression.DecompressRLERecursive}

// input is an arbitrary input of codec k: any bytes for a compressor; for a
// decompressor a valid stream (literals and runs).
func input(k int) []byte {
	n := sym.Choice(sym.Bound("input tokens", 3, 4) + 1)
	if k%2 == 0 {
		d := sym.Bytes(n)
		if sym.Choice(2) == 1 && n > 0 { // a long run at the end
			for i := 0; i < 260; i++ {
				d = append(d, d[n-1])
			}
		}
		return d
	}
	var rs []hlib.Run
	for i := 0; i < n; i++ {
		r := hlib.Run{B: sym.Byte(), N: []int{1, 2, 4, 300}[sym.Choice(4)]}
		if i > 0 {
			sym.Assume(r.B != rs[i-1].B)
		}
		rs = append(rs, r)
	}
	if k == 1 {
		return hlib.RefRLE8(rs)
	}
	return hlib.RefRRLE(rs)
}

func run(k int, in []byte) []byte {
	s := hlib.NewSink()
	_, err := codecs[k](hlib.NewSrc(in), s)
	sym.Assert(err == nil, "the codec succeeds without faults")
	return s.Data
}

// H_SourceFails: the source fails at any offset, with or without data in the
// failing read.
func H_SourceFails() {
	k := sym.Choice(4)
	in := input(k)
	full := run(k, in)
	src := hlib.NewSrc(in)
	if len(in) <= 16 {
		src.FailAt = sym.Choice(len(in) + 1)
	} else {
		src.FailAt = []int{0, 1, 2, len(in) - 2, len(in) - 1, len(in)}[sym.Choice(6)]
	}
	src.Err = sourceErrs[sym.Choice(len(sourceErrs))]
	src.DataWithErr = sym.Choice(2) == 1
	if sym.Choice(2) == 1 {
		src.Max = 1
	}
	if len(in) <= 16 {
		src.Idle = 1
	}
	out := hlib.NewSink()
	_, err := codecs[k](src, out)
	sym.Assert(err != nil, "a source failure is not reported as success")
	sym.Assert(errors.Is(err, src.Err), "the error matches the source's failure")
	sym.Assert(hlib.IsPrefix(out.Data, full), "what was written is a prefix of the correct output")
	sym.Cover("source")
	sym.Observe("out", out.Data, err)
}

// H_SinkFails: the destination refuses a write at any offset of the output.
func H_SinkFails() {
	k := sym.Choice(4)
	in := input(k)
	full := run(k, in)
	if len(full) == 0 {
		return
	}
	out := hlib.NewSink()
	if len(full) <= 16 {
		out.FailAt = sym.Choice(len(full))
	} else {
		out.FailAt = []int{0, 1, 2, 3, 255, 256, 257, 258, 259, 299, 300, len(full) - 2, len(full) - 1}[sym.Choice(13)]
		if out.FailAt >= len(full) {
			return
		}
	}
	out.Err = hlib.Inject()
	out.Part = sym.Choice(2) == 1
	_, err := codecs[k](hlib.NewSrc(in), out)
	sym.Assert(err != nil, "a refused write is not reported as success")
	sym.Assert(errors.Is(err, hlib.Failure), "the error matches the destination's failure")
	sym.Assert(hlib.IsPrefix(out.Data, full), "what was written is a prefix of the correct output")
	sym.Cover("sink")
}

// scanner is an io.ByteScanner that can fail.
type scanner struct {
	data   []byte
	pos    int
	failAt int
	err    error
}

func (s *scanner) ReadByte() (byte, error) {
	if s.failAt >= 0 && s.pos >= s.failAt {
		return 0, s.err
	}
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	s.pos++
	return s.data[s.pos-1], nil
}

func (s *scanner) UnreadByte() error {
	if s.pos == 0 {
		return bufErr
	}
	s.pos--
	return nil
}

var bufErr = errors.New("nothing to unread")

// H_RunReader: the run reader over any byte string, from a reader or a byte
// scanner.
func H_RunReader() {
	n := sym.Choice(sym.Bound("length", 8, 11) + 1)
	data := sym.Bytes(n)
	checkRuns(data, hlib.RunsOf(data))
}

// H_RunReaderLong: runs of any length up to the bound.
func H_RunReaderLong() {
	b := sym.Bytes(2)
	sym.Assume(b[0] != b[1])
	rs := []hlib.Run{{B: b[0], N: 1 + sym.Choice(sym.Bound("run length", 600, 4200))}}
	if sym.Choice(2) == 1 {
		rs = append(rs, hlib.Run{B: b[1], N: 2})
	}
	checkRuns(hlib.Expand(rs), rs)
}

func checkRuns(data []byte, want []hlib.Run) {
	var g compression.RLEGrouper
	if sym.Choice(2) == 0 {
		src := hlib.NewSrc(data)
		src.EOFWithData = sym.Choice(2) == 1
		src.Idle = 1
		g = compression.NewRLEGrouperFromReader(src)
	} else {
		g = compression.NewRLEGrouperFromByteScanner(&scanner{data: data, failAt: -1})
	}
	i := 0
	for {
		r, err := g.GetNextRun()
		if err != nil {
			sym.Assert(errors.Is(err, io.EOF), "only end-of-file is reported for a sound source")
		}
		if r.RunLength == 0 {
			sym.Assert(err != nil, "a run of length zero comes with an error")
			break
		}
		sym.Assert(r.RunLength > 0, "run lengths are positive")
		sym.Assert(i < len(want), "no more runs than the source has")
		sym.Assert(r.Byte == want[i].B, "the run's byte is exact")
		sym.Assert(r.RunLength == want[i].N, "the run's length is exact")
		i++
		if err != nil {
			sym.Assert(i == len(want), "end-of-file only with the last run")
			break
		}
	}
	sym.Assert(i == len(want), "every run is returned")
	r, err := g.GetNextRun()
	sym.Assert(r.RunLength == 0 && errors.Is(err, io.EOF), "after the end there is only end-of-file")
	sym.Cover("runs")
}

// H_RunReaderFails: the source fails at any offset.
func H_RunReaderFails() {
	n := sym.Choice(sym.Bound("length", 6, 8) + 1)
	data := sym.Bytes(n)
	all := hlib.RunsOf(data)
	at := sym.Choice(n + 1)
	err0 := sourceErrs[sym.Choice(len(sourceErrs))]
	var g compression.RLEGrouper
	if sym.Choice(2) == 0 {
		src := hlib.NewSrc(data)
		src.FailAt = at
		src.Err = err0
		src.DataWithErr = sym.Choice(2) == 1
		src.Idle = 1
		g = compression.NewRLEGrouperFromReader(src)
	} else {
		g = compression.NewRLEGrouperFromByteScanner(&scanner{data: data, failAt: at, err: err0})
	}
	for i := 0; ; i++ {
		r, err := g.GetNextRun()
		if err != nil {
			sym.Assert(errors.Is(err, err0), "the source's failure is reported")
			sym.Assert(!errors.Is(err, io.EOF), "and not as the end of the data")
			sym.Assert(r.RunLength == 0, "no run together with a failure")
			break
		}
		sym.Assert(i < len(all), "no invented runs")
		sym.Assert(r.Byte == all[i].B && r.RunLength == all[i].N, "runs before the failure are maximal and exact")
	}
	sym.Cover("fails")
}

// H_RunReaderHuge: run lengths around 65536.
func H_RunReaderHuge() {
	b := sym.Bytes(2)
	sym.Assume(b[0] != b[1])
	rs := []hlib.Run{{B: b[0], N: 65535 + sym.Choice(3)}, {B: b[1], N: 2}}
	checkRuns(hlib.Expand(rs), rs)
}

// H_Long: long inputs of many bytes and runs, the source or the destination failing
// around a power of two, near the end, or not at all; the run reader over the same.
func H_Long() {
	rs := hlib.Long(sym.Bound("length", 5, 50), sym.Bound("powers of two from 1024", 3, 5), false)
	data := hlib.Expand(rs)
	k := sym.Choice(5)
	var in, full []byte
	switch k {
	case 0:
		in, full = data, hlib.RefRLE8(rs)
	case 1:
		in, full = hlib.RefRLE8(rs), data
	case 2:
		in, full = data, hlib.RefRRLE(rs)
	case 3:
		in, full = hlib.RefRRLE(rs), data
	default:
		checkRuns(data, rs)
		return
	}
	src, out := hlib.NewSrc(in), hlib.NewSink()
	fault := sym.Choice(3)
	at := func(n int) int {
		if sym.Choice(2) == 0 {
			return n - 1 - sym.Choice(4)
		}
		return (64 << sym.Choice(sym.Bound("failures at powers of two from 64", 7, 11))) - sym.Choice(2)
	}
	switch fault {
	case 0:
		src.FailAt, src.Err = at(len(in)), hlib.ErrInjected
		src.DataWithErr = sym.Choice(2) == 1
		if src.FailAt < 0 || src.FailAt > len(in) {
			return
		}
	case 1:
		out.FailAt, out.Err = at(len(full)), hlib.ErrInjected
		out.Part = sym.Choice(2) == 1
		if out.FailAt < 0 || out.FailAt >= len(full) {
			return
		}
	}
	n, err := codecs[k](src, out)
	sym.Assert(hlib.IsPrefix(out.Data, full), "what was written is a prefix of the correct output")
	if fault == 2 {
		sym.Assert(err == nil && n == int64(len(out.Data)) && len(out.Data) == len(full), "the codec succeeds without faults")
		sym.Cover("long")
		return
	}
	sym.Assert(errors.Is(err, hlib.ErrInjected), "the error matches the failure")
	sym.Cover("long fails")
}
