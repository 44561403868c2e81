// Package c34: FAT8 file information.
package c34

import (
	"errors"
	"os"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"
	"github.com/dargueta/disko/zz_verif/sym"
)

var names = []string{"A", "DATA.1", "FOO1.BIN", "PROG", "A.BIN", "FOO1"}

// spelled is a name with the case of up to three of its letters chosen, as in a
// path of the only directory there is.
func spelled(name string) string {
	b := []byte(name)
	k := 0
	for i, c := range b {
		if c >= 'A' && c <= 'Z' && k < 3 {
			k++
			b[i] |= byte(sym.Choice(2)) << 5
		}
	}
	return []string{"", "/"}[sym.Choice(2)] + string(b)
}

type file struct {
	clusters int
	unused   uint
	binary   bool
	index    uint
}

// H_Stat: files of any length on a volume of any size, found under their name in
// any case.
func H_Stat() {
	blocks := []uint{640, 1898, 2002}[sym.Choice(3)]
	geo, err := fat8.GetGeometry(blocks)
	sym.Assert(err == nil, "the size is a FAT8 size")
	var drv fat8.FAT8Driver
	sym.SetField(&drv, "geometry", geo)
	on := map[string]fat8.DirectoryEntry{}
	files := map[string]file{}
	for i := 0; i < 2; i++ {
		n := names[3*i+sym.Choice(3)]
		f := file{clusters: []int{1, 2, 7, 80}[sym.Choice(4)], unused: uint(sym.Range(0, int(geo.SectorsPerCluster)-1)), binary: sym.Bool(), index: sym.Uint()}
		e := fat8.DirectoryEntry{IsBinary: f.binary, UnusedSectorsInLastCluster: f.unused,
			IsEBCDIC: sym.Bool(), IsWriteProtected: sym.Bool(), ReadAfterWriteEnabled: sym.Bool()}
		sym.SetField(&e, "name@1", n)
		sym.SetField(&e, "index@3", f.index)
		cs := make([]fat8.PhysicalCluster, f.clusters)
		for j := range cs {
			cs[j] = fat8.PhysicalCluster(j + 1)
		}
		sym.SetField(&e, "clusters@2", cs)
		on[n] = e
		files[n] = f
	}
	sym.SetField(&drv, "dirents", on)
	n := names[sym.Choice(len(names))]
	st, err := drv.Stat(spelled(n))
	f, ok := files[n]
	switch {
	case !ok:
		sym.Assert(errors.Is(err, disko.ErrNotFound), "a name that is not on the volume is not found")
		sym.Cover("missing")
	case !f.binary:
		if err != nil {
			sym.Assert(errors.Is(err, disko.ErrNotImplemented), "text files may not be supported")
		}
	default:
		sym.Assert(err == nil, "a file on the volume is found under its name in any case")
		spc := int64(geo.SectorsPerTrack / 2)
		sectors := int64(f.clusters)*spc - int64(f.unused)
		sym.Assert(st.NumBlocks == sectors, "a file has the sectors of its clusters but the unused ones")
		sym.Assert(st.Size == sectors*128, "a binary file is all of its sectors long")
		sym.Assert(st.BlockSize == 128, "a block is a sector")
		sym.Assert(st.InodeNumber == uint64(f.index), "a file is identified by its directory entry")
		sym.Assert(st.Nlinks == 1 && st.IsFile(), "every entry is a file with one name")
		sym.Assert(st.CreatedAt.IsZero() && st.LastAccessed.IsZero() && st.LastChanged.IsZero() && st.LastModified.IsZero() && st.DeletedAt.IsZero(), "times are undefined")
		sym.Cover("file")
	}
}

type info string

func (i info) Name() string       { return string(i) }
func (i info) Size() int64        { return 0 }
func (i info) Mode() os.FileMode  { return 0o777 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

// upper is ASCII upper case.
func upper(b byte) byte {
	return sym.IteByte(sym.And(b >= 'a', b <= 'z'), b-32, b)
}

// H_SameFile: any two names of up to 3 ASCII characters.
func H_SameFile() {
	a, b := sym.StringRange(sym.Choice(4), 1, 127), sym.StringRange(sym.Choice(4), 1, 127)
	var drv fat8.FAT8Driver
	same := len(a) == len(b)
	for i := 0; i < len(a) && i < len(b); i++ {
		same = sym.And(same, upper(a[i]) == upper(b[i]))
	}
	sym.Assert(drv.SameFile(info(a), info(b)) == same, "files are the same exactly if their names are, whatever the case")
}

// H_Path: any path of up to 3 ASCII characters on a volume with two short names.
func H_Path() {
	geo, err := fat8.GetGeometry(640)
	sym.Assert(err == nil, "the size is a FAT8 size")
	var drv fat8.FAT8Driver
	sym.SetField(&drv, "geometry", geo)
	on := map[string]fat8.DirectoryEntry{}
	for i, n := range []string{"A", "B."} {
		e := fat8.DirectoryEntry{IsBinary: true}
		sym.SetField(&e, "name@1", n)
		sym.SetField(&e, "index@3", uint(i))
		sym.SetField(&e, "clusters@2", []fat8.PhysicalCluster{1})
		on[n] = e
	}
	sym.SetField(&drv, "dirents", on)
	p := sym.StringRange(sym.Choice(4), 1, 127)
	st, err := drv.Stat(p)
	q := p
	if len(q) > 0 && q[0] == '/' {
		q = q[1:]
	}
	a := len(q) == 1 && upper(q[0]) == 'A'
	b := len(q) == 2 && sym.And(upper(q[0]) == 'B', q[1] == '.')
	if err == nil {
		sym.Assert(sym.Or(sym.And(a, st.InodeNumber == 0), sym.And(b, st.InodeNumber == 1)), "a path finds the file it names only")
		sym.Cover("found")
	} else {
		sym.Assert(!sym.Or(a, b), "a file is found under its name")
		sym.Assert(errors.Is(err, disko.ErrNotFound), "a name that is not on the volume is not found")
		sym.Cover("not found")
	}
}
