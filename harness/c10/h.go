// Package c10: a cache over a stream or byte slice transfers whole blocks.
package c10

import (
	"errors"
	"io"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

// at is the i-th byte of the stream, zero past its end.
func at(d []byte, i int) byte {
	if i < len(d) {
		return d[i]
	}
	return 0
}

func window(d []byte, off, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = at(d, off+i)
	}
	return r
}

func wrap(s *hlib.Stream, b, total uint, allow, trunc bool) *blockcache.BlockCache {
	if trunc {
		return blockcache.WrapStream(hlib.TruncStream{Stream: s}, b, total, allow)
	}
	return blockcache.WrapStream(s, b, total, allow)
}

// checkReads reads every block and compares with the stream's bytes.
func checkReads(k *blockcache.BlockCache, want []byte, b int) {
	for i := 0; i < len(want)/b; i++ {
		buf := sym.Bytes(b)
		n, err := k.ReadAt(buf, c.LogicalBlock(i))
		sym.Assert(err == nil, "reading a block succeeds")
		sym.Assert(n == b, "a block is read whole")
		sym.Assert(sym.BytesEq(buf, want[i*b:(i+1)*b]), "block i shows bytes [i*B,(i+1)*B) of the stream, zero past its end")
	}
}

// H_Read: streams of any length, delivering any number of bytes at a time.
func H_Read() {
	b := []int{1, 2, 4}[sym.Choice(3)]
	total := sym.Bound("blocks", 3, 4)
	s := hlib.NewStream(sym.Bytes(sym.Choice(b*total + 2)))
	s.AnySplit, s.Idle = true, 1
	s.EOFWithData = sym.Choice(2) == 1
	s.Pos = int64(sym.Choice(2))
	orig := append([]byte{}, s.Data...)
	k := wrap(s, uint(b), uint(total), false, false)
	if sym.Choice(2) == 1 { // out of order
		buf := make([]byte, b)
		_, err := k.ReadAt(buf, c.LogicalBlock(total-1))
		sym.Assert(err == nil, "reading the last block succeeds")
	}
	checkReads(k, window(orig, 0, b*total), b)
	sym.Assert(k.Flush() == nil, "flushing succeeds")
	sym.Assert(sym.BytesEq(s.Data, orig) && len(s.Data) == len(orig), "reading changes nothing in the stream")
	sym.Cover("read")
}

// H_Slice: a byte slice, its size given by its length.
func H_Slice() {
	b := []int{1, 3, 4}[sym.Choice(3)]
	data := sym.Bytes(sym.Choice(13))
	orig := append([]byte{}, data...)
	total := len(data) / b
	k := blockcache.WrapSlice(data, uint(b))
	sym.Assert(int(k.TotalBlocks()) == total, "a slice has as many blocks as fit")
	sym.Assert(int(k.BytesPerBlock()) == b, "the block size is as given")
	checkReads(k, window(orig, 0, b*total), b)
	want := append([]byte{}, orig...)
	if total > 0 {
		i := sym.Choice(total)
		v := sym.Bytes(b)
		_, err := k.WriteAt(v, c.LogicalBlock(i))
		sym.Assert(err == nil, "writing a block succeeds")
		copy(want[i*b:], v)
	}
	sym.Assert(sym.BytesEq(data, orig), "a write reaches the slice only when flushed")
	sym.Assert(k.Flush() == nil, "flushing succeeds")
	sym.Assert(sym.BytesEq(data, want), "a flush changes exactly the dirty blocks of the slice")
	err := k.Resize(uint(total + 1))
	sym.Assert(errors.Is(err, disko.ErrNotPermitted), "a cache over a slice is not resizable")
}

// H_Inferred: the number of blocks is taken from the stream's length.
func H_Inferred() {
	b := []int{1, 3, 4}[sym.Choice(3)]
	s := hlib.NewStream(sym.Bytes(sym.Choice(10)))
	s.Pos = int64(sym.Choice(3))
	total := len(s.Data) / b
	allow := sym.Choice(2) == 1
	k := blockcache.WrapStreamWithInferredSize(hlib.TruncStream{Stream: s}, uint(b), allow)
	sym.Assert(int(k.TotalBlocks()) == total, "the number of blocks is what the stream holds")
	checkReads(k, window(s.Data, 0, b*total), b)
	err := k.Resize(uint(total + 1))
	if allow {
		sym.Assert(err == nil && len(s.Data) == (total+1)*b, "resizing resizes the stream")
	} else {
		sym.Assert(errors.Is(err, disko.ErrNotPermitted), "resizing is not permitted when forbidden")
	}
}

// H_Flush: any blocks made dirty; the flush changes exactly their bytes.
func H_Flush() {
	b := []int{1, 3}[sym.Choice(2)]
	total := sym.Bound("blocks", 3, 5)
	s := hlib.NewStream(sym.Bytes(sym.Choice(b*total + 2)))
	orig := append([]byte{}, s.Data...)
	k := wrap(s, uint(b), uint(total), false, false)
	dirty := make([]bool, total)
	want := append([]byte{}, orig...)
	for i := 0; i < total; i++ {
		if dirty[i] = sym.Choice(2) == 1; dirty[i] {
			v := sym.Bytes(b)
			n := b
			if b > 1 {
				n -= sym.Choice(2)
			}
			_, err := k.WriteAt(v[:n], c.LogicalBlock(i))
			sym.Assert(err == nil, "writing a block succeeds")
			for len(want) < (i+1)*b {
				want = append(want, 0)
			}
			copy(want[i*b:], v[:n])
		}
	}
	s.Reset()
	sym.Assert(k.Flush() == nil, "flushing succeeds")
	for _, w := range s.Written {
		for j := w[0]; j < w[0]+w[1]; j++ {
			sym.Assert(j/b < total && dirty[j/b], "a flush writes only bytes of dirty blocks")
		}
	}
	sym.Assert(len(s.Data) == len(want), "a flush extends the stream only for dirty blocks")
	sym.Assert(sym.BytesEq(s.Data, want), "a flush changes exactly the bytes of the dirty blocks")
	sym.Cover("flushed")
}

// H_Large: a stream of some 70000 bytes, blocks around 32768 and 65536 bytes, and
// transfers of very many bytes.
func H_Large() {
	const b = 512
	s := hlib.NewStream(hlib.Scattered([]int{65536, 70001, 71680}[sym.Choice(3)]))
	total := 140
	want := append(append([]byte{}, s.Data...), make([]byte, total*b-len(s.Data))...)
	size := len(s.Data)
	k := wrap(s, b, uint(total), true, true)
	if sym.Choice(2) == 1 {
		total = []int{63, 64, 127, 128, 129, 200}[sym.Choice(6)]
		sym.Assert(k.Resize(uint(total)) == nil, "resizing succeeds when permitted")
		sym.Assert(len(s.Data) == total*b, "the stream is resized along")
		size = total * b
		if size <= len(want) {
			want = want[:size]
		} else {
			want = append(want, make([]byte, size-len(want))...)
		}
	}
	i := []int{0, 62, 63, 127, 128, total - 1}[sym.Choice(6)]
	n := []int{b, 2 * b, 65 * b, 128 * b}[sym.Choice(4)]
	if i >= total || i*b+n > total*b {
		sym.Stop()
	}
	if sym.Choice(2) == 1 {
		d := hlib.Scattered(n)
		got, err := k.WriteAt(d, c.LogicalBlock(i))
		sym.Assert(err == nil && got == n, "writing blocks succeeds")
		copy(want[i*b:], d)
		if i*b+n > size {
			size = i*b + n
		}
		sym.Assert(k.Flush() == nil, "flushing succeeds")
		sym.Assert(len(s.Data) == size, "a flush extends the stream only for dirty blocks")
		sym.Assert(sym.BytesEq(s.Data, want[:size]), "a flush changes exactly the bytes of the dirty blocks")
	}
	buf := make([]byte, n)
	got, err := k.ReadAt(buf, c.LogicalBlock(i))
	sym.Assert(err == nil && got == n, "reading blocks succeeds")
	sym.Assert(sym.BytesEq(buf, want[i*b:i*b+n]), "block i shows bytes [i*B,(i+1)*B) of the stream, zero past its end")
	sym.Cover("large")
}

var failures = []error{hlib.ErrInjected, disko.ErrIOFailed, io.ErrClosedPipe, io.EOF, nil}

// H_Failures: any read, write or seek fails (also with io.EOF on a write, or a
// short write without an error); the operation reports it and works once the
// fault is gone.
func H_Failures() {
	b, total := 2, 3
	s := hlib.NewStream(sym.Bytes(sym.Choice(b*total + 1)))
	orig := window(s.Data, 0, b*total)
	k := wrap(s, uint(b), uint(total), false, false)
	kind := []string{"read", "write", "seek"}[sym.Choice(3)]
	nf := 3
	if kind == "write" {
		nf = len(failures)
	}
	ferr := failures[sym.Choice(nf)]
	arm := func() {
		s.Reset()
		s.FailKind, s.FailErr, s.FailOp = kind, ferr, sym.Choice(4)
		s.FailPart = sym.Choice(2) == 1
	}
	check := func(err error, what string) bool {
		if s.Failed {
			sym.Assert(err != nil, what+": a failure of the stream is returned")
			if ferr != nil {
				sym.Assert(errors.Is(err, ferr), what+": the error matches the stream's failure")
			}
			s.Reset()
			s.FailOp = -1
			return false
		}
		sym.Assert(err == nil, what+" succeeds")
		return true
	}
	arm()
	buf := make([]byte, b*total)
	_, err := k.ReadAt(buf, 0)
	if !check(err, "read") {
		sym.Cover("read failed")
		_, err = k.ReadAt(buf, 0)
		sym.Assert(err == nil, "the read succeeds once the fault is gone")
	}
	sym.Assert(sym.BytesEq(buf, orig), "the data read is right")
	v := sym.Bytes(b * total)
	s.FailOp = -1
	_, err = k.WriteAt(v, 0)
	sym.Assert(err == nil, "writing succeeds")
	arm()
	if !check(k.Flush(), "flush") {
		sym.Cover("flush failed")
		sym.Assert(k.Flush() == nil, "the flush succeeds once the fault is gone")
	}
	sym.Assert(len(s.Data) == b*total && sym.BytesEq(s.Data, v), "everything has been written")
}

// H_Resize: permitted, forbidden and unsupported resizing; grown blocks can be
// written and flushed.
func H_Resize() {
	b := 2
	total := sym.Choice(4)
	s := hlib.NewStream(sym.Bytes(b * total))
	orig := append([]byte{}, s.Data...)
	allow, trunc := sym.Choice(2) == 1, sym.Choice(2) == 1
	k := wrap(s, uint(b), uint(total), allow, trunc)
	cur := append([]byte{}, orig...)
	if total > 0 && sym.Choice(2) == 1 {
		v := sym.Bytes(b)
		i := sym.Choice(total)
		_, err := k.WriteAt(v, c.LogicalBlock(i))
		sym.Assert(err == nil, "writing succeeds")
		copy(cur[i*b:], v)
	}
	for r := 0; r < 2; r++ {
		n := sym.Choice(6)
		if sym.Choice(2) == 1 {
			s.FailKind, s.FailOp, s.FailErr = "truncate", 0, hlib.Inject()
		} else {
			s.FailOp = -1
		}
		s.Reset()
		s.TruncArg = -1
		err := k.Resize(uint(n))
		switch {
		case !allow:
			sym.Assert(errors.Is(err, disko.ErrNotPermitted), "resizing is not permitted when forbidden")
		case !trunc:
			sym.Assert(errors.Is(err, disko.ErrNotSupported), "resizing is not supported when the stream cannot be resized")
		case s.FailOp == 0:
			sym.Assert(errors.Is(err, hlib.Failure), "a failure to resize the stream is returned")
		default:
			sym.Assert(err == nil, "resizing succeeds")
			sym.Assert(s.TruncArg == int64(n*b), "the stream is resized to whole blocks")
			cur = window(cur, 0, n*b)
			sym.Cover("resized")
			continue
		}
		sym.Assert(s.TruncArg == -1, "a refused resize leaves the stream alone")
	}
	s.FailOp = -1
	n := len(cur) / b
	sym.Assert(int(k.TotalBlocks()) == n, "the cache has the new number of blocks")
	if n > 0 && sym.Choice(2) == 1 {
		v := sym.Bytes(b)
		i := sym.Choice(n)
		_, err := k.WriteAt(v, c.LogicalBlock(i))
		sym.Assert(err == nil, "writing any block succeeds after resizing")
		copy(cur[i*b:], v)
	}
	checkReads(k, cur, b)
	sym.Assert(k.Flush() == nil, "flushing succeeds after resizing")
	sym.Assert(len(s.Data) == len(cur) && sym.BytesEq(s.Data, cur), "the stream holds the blocks")
}

// H_AnyRange: any block number and any length, written and flushed.
func H_AnyRange() {
	b := []int{1, 2, 4}[sym.Choice(3)]
	total := sym.Bound("blocks", 3, 4)
	s := hlib.NewStream(sym.Bytes(sym.Choice(b*total + 2)))
	s.Pos = int64(sym.Range(0, 3))
	orig := append([]byte{}, s.Data...)
	k := wrap(s, uint(b), uint(total), false, false)
	blk := sym.Uint()
	n := sym.Range(0, b*total+1)
	v := sym.Bytes(b*total + 1)
	got, err := k.WriteAt(v[:n], c.LogicalBlock(blk))
	fits := blk < uint(total) && uint(n) <= (uint(total)-blk)*uint(b)
	if !fits && n > 0 {
		sym.Assert(err != nil && got == 0, "a write that does not fit is refused")
		sym.Assert(k.Flush() == nil, "flushing succeeds")
		sym.Assert(len(s.Data) == len(orig) && sym.BytesEq(s.Data, orig), "a refused write leaves the stream alone")
		sym.Cover("refused")
		return
	}
	if n == 0 {
		return
	}
	sym.Assert(err == nil && got == n, "a write that fits succeeds")
	s.Reset()
	sym.Assert(k.Flush() == nil, "flushing succeeds")
	at, m := sym.Concretize(int(blk))*b, sym.Concretize(n)
	want := append([]byte{}, orig...)
	for len(want) < (at+m+b-1)/b*b {
		want = append(want, 0)
	}
	copy(want[at:], v[:m])
	sym.Assert(len(s.Data) == len(want), "a flush extends the stream only for dirty blocks")
	sym.Assert(sym.BytesEq(s.Data, want), "a flush changes exactly the bytes of the dirty blocks")
	for _, w := range s.Written {
		sym.Assert(w[0] >= at && w[0]+w[1] <= (at+m+b-1)/b*b, "a flush writes only bytes of dirty blocks")
	}
}

// H_Position: neither a failed operation, done in part, nor anybody else moving
// the stream's position makes a later operation on any block go astray.
func H_Position() {
	b, total := 2, 3
	s := hlib.NewStream(sym.Bytes(b*total - sym.Choice(2)))
	cur := window(s.Data, 0, b*total)
	k := wrap(s, uint(b), uint(total), false, false)
	for i := 0; i < sym.Bound("operations", 2, 3); i++ {
		s.Reset()
		s.FailOp = -1
		if sym.Choice(2) == 1 {
			s.FailKind, s.FailErr = []string{"read", "write", "seek"}[sym.Choice(3)], hlib.Inject()
			s.FailOp, s.FailPart = sym.Choice(2), sym.Choice(2) == 1
		} else if sym.Choice(2) == 1 {
			s.Pos = int64(sym.Choice(b*total + 2))
		}
		blk := sym.Choice(total)
		var err error
		var buf, v []byte
		switch sym.Choice(3) {
		case 0:
			buf = make([]byte, b)
			_, err = k.ReadAt(buf, c.LogicalBlock(blk))
			if err == nil {
				sym.Assert(sym.BytesEq(buf, cur[blk*b:blk*b+b]), "a read shows the block's bytes")
			}
		case 1:
			v = sym.Bytes(b)
			_, err = k.WriteAt(v, c.LogicalBlock(blk))
			if err == nil {
				copy(cur[blk*b:], v)
			}
		case 2:
			err = k.Flush()
		}
		sym.Assert((err != nil) == s.Failed, "an operation fails exactly if the stream does")
		if s.Failed {
			sym.Cover("failed")
			if v != nil { // the write may or may not have been done
				s.Reset()
				s.FailOp = -1
				_, err = k.WriteAt(v, c.LogicalBlock(blk))
				sym.Assert(err == nil, "the write succeeds once the fault is gone")
				copy(cur[blk*b:], v)
			}
		}
	}
	s.Reset()
	s.FailOp = -1
	if sym.Choice(2) == 1 {
		checkReads(k, cur, b)
	}
	sym.Assert(k.Flush() == nil, "flushing succeeds")
	for i := range cur {
		sym.Assert(at(s.Data, i) == cur[i], "the stream holds the latest data")
	}
}
