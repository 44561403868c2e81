// Package models replaces library code the executor does not encode. It is
// used by the executor only, never by the native replay.
package models

import (
	"compress/gzip"
	"errors"
	"io"
)

// gzip is modelled as a lossless self-delimiting container: a 10-byte header
// (written by the first Write, Flush or Close), then per data byte a 1 and the
// byte, a 0, and an 8-byte trailer.

type gzw struct {
	w      io.Writer
	header bool
	closed bool
	err    error
	buf    []byte
	n      int
}

type gzr struct {
	r    io.Reader
	err  error
	n    int
	done bool
}

var writers = map[*gzip.Writer]*gzw{}
var readers = map[*gzip.Reader]*gzr{}

var errLevel = errors.New("gzip: invalid compression level")

func GzipNewWriterLevel(w io.Writer, level int) (*gzip.Writer, error) {
	if level < gzip.HuffmanOnly || level > gzip.BestCompression {
		return nil, errLevel
	}
	z := new(gzip.Writer)
	writers[z] = &gzw{w: w}
	return z, nil
}

func GzipNewWriter(w io.Writer) *gzip.Writer {
	z, _ := GzipNewWriterLevel(w, gzip.DefaultCompression)
	return z
}

func (s *gzw) head() {
	if !s.header {
		s.header = true
		_, s.err = s.w.Write([]byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 2, 255})
	}
}

func GzipWrite(z *gzip.Writer, p []byte) (int, error) {
	s := writers[z]
	if s.err != nil {
		return 0, s.err
	}
	s.head()
	if s.err != nil {
		return 0, s.err
	}
	for _, b := range p {
		s.buf = append(s.buf, 1, b)
	}
	s.n += len(p)
	return len(p), nil
}

func GzipFlush(z *gzip.Writer) error {
	s := writers[z]
	if s.err != nil || s.closed {
		return s.err
	}
	s.head()
	if s.err == nil && len(s.buf) > 0 {
		_, s.err = s.w.Write(s.buf)
		s.buf = nil
	}
	return s.err
}

func GzipClose(z *gzip.Writer) error {
	s := writers[z]
	if s.err != nil {
		return s.err
	}
	if s.closed {
		return nil
	}
	s.closed = true
	s.head()
	if s.err != nil {
		return s.err
	}
	s.buf = append(s.buf, 0)
	_, s.err = s.w.Write(s.buf)
	if s.err != nil {
		return s.err
	}
	n := s.n
	_, s.err = s.w.Write([]byte{0, 0, 0, 0, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)})
	return s.err
}

func noEOF(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

func (s *gzr) readHeader() error {
	var h [10]byte
	if _, err := io.ReadFull(s.r, h[:]); err != nil {
		return err
	}
	if h[0] != 0x1f || h[1] != 0x8b || h[2] != 8 {
		return gzip.ErrHeader
	}
	return nil
}

func GzipNewReader(r io.Reader) (*gzip.Reader, error) {
	s := &gzr{r: r}
	if err := s.readHeader(); err != nil {
		return nil, err
	}
	z := new(gzip.Reader)
	readers[z] = s
	return z, nil
}

func GzipRead(z *gzip.Reader, p []byte) (int, error) {
	s := readers[z]
	if s.err != nil {
		return 0, s.err
	}
	n := 0
	var b [1]byte
	for n < len(p) {
		if _, err := io.ReadFull(s.r, b[:]); err != nil {
			s.err = noEOF(err)
			break
		}
		if b[0] == 1 {
			if _, err := io.ReadFull(s.r, b[:]); err != nil {
				s.err = noEOF(err)
				break
			}
			p[n] = b[0]
			n++
			s.n++
			continue
		}
		if b[0] != 0 {
			s.err = errors.New("flate: corrupt input")
			break
		}
		var t [8]byte
		if _, err := io.ReadFull(s.r, t[:]); err != nil {
			s.err = noEOF(err)
			break
		}
		if int(t[4])|int(t[5])<<8|int(t[6])<<16|int(t[7])<<24 != s.n {
			s.err = gzip.ErrChecksum
			break
		}
		s.n = 0
		s.err = s.readHeader() // io.EOF at the end of the container
		if s.err != nil {
			break
		}
	}
	if n > 0 {
		return n, nil
	}
	return 0, s.err
}

func GzipReaderClose(z *gzip.Reader) error { return nil }
