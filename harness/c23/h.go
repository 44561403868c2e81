// Package c23: FAT8 file names convert exactly.
package c23

import (
	"errors"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"
	"github.com/dargueta/disko/zz_verif/sym"
)

func upper(c byte) byte { return sym.IteByte(c >= 'a' && c <= 'z', c-32, c) }

// want is the documented conversion; ok is false when the name is refused as
// too long.
func want(name string) (out [9]byte, ok bool) {
	for i := range out {
		out[i] = ' '
	}
	dot := -1
	for i := 0; i < len(name); i++ {
		if name[i] == '.' {
			dot = i
			break
		}
	}
	stem, ext := name, ""
	if dot >= 0 {
		stem, ext = name[:dot], name[dot+1:]
		if ext == "" {
			ext = "."
		}
	}
	if len(stem) > 6 || len(ext) > 3 {
		return out, false
	}
	for i := 0; i < len(stem); i++ {
		out[i] = upper(stem[i])
	}
	for i := 0; i < len(ext); i++ {
		out[6+i] = upper(ext[i])
	}
	return out, true
}

// H_ToBytes: every ASCII name up to the bound.
func H_ToBytes() {
	n := sym.Choice(sym.Bound("longest name", 16, 64) + 1)
	name := sym.StringRange(n, 0, 0x7f)
	raw, err := fat8.FilenameToBytes(name)
	sym.Observe("raw", raw, err)
	if n == 0 {
		sym.Assert(err != nil && errors.Is(err, disko.ErrInvalidArgument), "an empty name is invalid")
		return
	}
	w, ok := want(name)
	if !ok {
		sym.Assert(err != nil && errors.Is(err, disko.ErrNameTooLong), "a name with a part too long is refused as too long")
		return
	}
	sym.Assert(err == nil, "a name whose parts fit is accepted")
	sym.Assert(len(raw) == 9, "the converted name is nine bytes")
	sym.Assert(sym.BytesEq(raw, w[:]), "the converted name is the upper-cased stem and extension with padding")
}

// H_RoundTrip: there and back for every name of a stem and an extension that
// do not end in spaces.
func H_RoundTrip() {
	s, e := 1+sym.Choice(6), sym.Choice(4)
	stem := sym.StringRange(s, 0, 0x7f)
	for i := 0; i < s; i++ {
		sym.Assume(stem[i] != '.')
	}
	sym.Assume(stem[s-1] != ' ')
	name := stem
	if e > 0 {
		ext := sym.StringRange(e, 0, 0x7f)
		sym.Assume(ext[e-1] != ' ')
		name = stem + "." + ext
	}
	raw, err := fat8.FilenameToBytes(name)
	sym.Assert(err == nil, "a name whose parts fit is accepted")
	back, err := fat8.BytesToFilename(raw)
	sym.Assert(err == nil, "a converted name converts back")
	up := make([]byte, len(name))
	for i := range up {
		up[i] = upper(name[i])
	}
	sym.Observe("back", back)
	sym.Assert(len(back) == len(up), "converting back gives a name of the original length")
	sym.Assert(sym.BytesEq([]byte(back), up), "converting back gives the upper-cased original")
}

// H_FromBytes: every nine-byte ASCII directory name.
func H_FromBytes() {
	raw := sym.Bytes(9)
	for i := range raw {
		sym.Assume(raw[i] < 0x80)
	}
	name, err := fat8.BytesToFilename(raw)
	sym.Assert(err == nil, "a directory name converts")
	s, e := 6, 9
	for s > 0 && raw[s-1] == ' ' {
		s--
	}
	for e > 6 && raw[e-1] == ' ' {
		e--
	}
	var w []byte
	for i := 0; i < s; i++ {
		w = append(w, upper(raw[i]))
	}
	if e > 6 {
		w = append(w, '.')
		for i := 6; i < e; i++ {
			w = append(w, upper(raw[i]))
		}
	}
	sym.Observe("name", name)
	sym.Assert(len(name) == len(w), "the name has the length of its parts without padding")
	sym.Assert(sym.BytesEq([]byte(name), w), "the name is the trimmed stem and extension, upper-cased")
}

// H_AnyBytes: whatever the bytes of the name, the result is nine bytes or an
// error.
func H_AnyBytes() {
	n := sym.Choice(sym.Bound("longest arbitrary name", 4, 6) + 1)
	name := sym.String(n)
	raw, err := fat8.FilenameToBytes(name)
	sym.Assert(err != nil || len(raw) == 9, "a converted name is always nine bytes")
}

// H_AnyDirName: converting an arbitrary nine-byte name back never crashes.
func H_AnyDirName() {
	raw := []byte("AB CDEFGH")
	k := sym.Choice(9)
	for i := 0; i < 1; i++ {
		raw[k+i] = sym.Byte()
	}
	name, err := fat8.BytesToFilename(raw)
	sym.Assert(err == nil && len(name) > 0, "an arbitrary directory name converts")
}
