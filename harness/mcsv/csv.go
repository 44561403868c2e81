// Package mcsv models the decoding of records into flat structs by csvutil. It
// is used by the executor only, never by the native replay.
package mcsv

import (
	"errors"
	"io"
	"strconv"
	"strings"

	"github.com/dargueta/disko/zz_verif/sym"
	"github.com/jszwec/csvutil"
)

type state struct {
	r      csvutil.Reader
	header []string
}

var decoders = map[*csvutil.Decoder]*state{}

var errType = errors.New("csvutil: cannot unmarshal")

func NewDecoder(r csvutil.Reader, header ...string) (*csvutil.Decoder, error) {
	if len(header) == 0 {
		var err error
		if header, err = r.Read(); err != nil {
			return nil, err
		}
	}
	d := new(csvutil.Decoder)
	decoders[d] = &state{r: r, header: append([]string{}, header...)}
	return d, nil
}

// Decode decodes one record into a struct, or all that are left into a slice.
func Decode(d *csvutil.Decoder, v any) error {
	s := decoders[d]
	if !sym.IsSlice(v) {
		return decode(s, v)
	}
	sym.Truncate(v)
	for n := 0; ; n++ {
		e := sym.NewElem(v)
		if err := decode(s, e); err == io.EOF && n > 0 {
			return nil
		} else if err != nil {
			return err
		}
		sym.Append(v, e)
	}
}

func decode(s *state, v any) error {
	rec, err := s.r.Read()
	if err != nil {
		return err
	}
	if len(rec) != len(s.header) {
		return csvutil.ErrFieldCount
	}
	fs := sym.Fields(v, "csv")
	for i := 0; i+2 < len(fs); i += 3 {
		name, opts, _ := strings.Cut(fs[i+2], ",")
		if name == "-" || fs[i][0] < 'A' || fs[i][0] > 'Z' {
			continue
		}
		if name == "" {
			name = fs[i]
		}
		col := -1
		for j := range s.header {
			if s.header[j] == name {
				col = j
			}
		}
		if col < 0 {
			continue
		}
		x := rec[col]
		if x == "" && opts == "omitempty" {
			continue
		}
		switch fs[i+1] {
		case "string":
			sym.SetField(v, fs[i], x)
		case "uint":
			n, err := strconv.ParseUint(x, 10, 64)
			if err != nil {
				return errType
			}
			sym.SetField(v, fs[i], uint(n))
		case "int":
			n, err := strconv.ParseInt(x, 10, 64)
			if err != nil {
				return errType
			}
			sym.SetField(v, fs[i], int(n))
		case "uint64":
			n, err := strconv.ParseUint(x, 10, 64)
			if err != nil {
				return errType
			}
			sym.SetField(v, fs[i], n)
		case "int64":
			n, err := strconv.ParseInt(x, 10, 64)
			if err != nil {
				return errType
			}
			sym.SetField(v, fs[i], n)
		case "bool":
			b, err := strconv.ParseBool(x)
			if err != nil {
				return errType
			}
			sym.SetField(v, fs[i], b)
		default:
			sym.Fail("a field type the model of csvutil does not know: " + fs[i+1])
		}
	}
	return nil
}
