// Package libmod defines library functions by others the executor knows. It is used by
// the executor only, never by the native replay.
package libmod

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
)

// The slice functions of encoding/binary in terms of those on streams.

var errTooSmall = errors.New("buffer too small")

func BinaryDecode(buf []byte, order binary.ByteOrder, data any) (int, error) {
	n := binary.Size(data)
	if n < 0 {
		return 0, errors.New("binary.Decode: invalid type")
	}
	if len(buf) < n {
		return 0, errTooSmall
	}
	if err := binary.Read(bytes.NewReader(buf[:n]), order, data); err != nil {
		return 0, err
	}
	return n, nil
}

func BinaryAppend(buf []byte, order binary.ByteOrder, data any) ([]byte, error) {
	var b bytes.Buffer
	if err := binary.Write(&b, order, data); err != nil {
		return nil, err
	}
	return append(buf, b.Bytes()...), nil
}

func BinaryEncode(buf []byte, order binary.ByteOrder, data any) (int, error) {
	n := binary.Size(data)
	if n < 0 {
		return 0, errors.New("binary.Encode: some values are not fixed-sized")
	}
	if len(buf) < n {
		return 0, errTooSmall
	}
	b, err := BinaryAppend(nil, order, data)
	return copy(buf, b), err
}

func FmtAppend(b []byte, a ...any) []byte            { return append(b, fmt.Sprint(a...)...) }
func FmtAppendf(b []byte, f string, a ...any) []byte { return append(b, fmt.Sprintf(f, a...)...) }
func FmtAppendln(b []byte, a ...any) []byte          { return append(b, fmt.Sprintln(a...)...) }
