// Package c20: open and mount flags are interpreted consistently.
package c20

import (
	"os"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/zz_verif/sym"
)

// H_Convert: all flag words of the os package.
func H_Convert() {
	w := sym.Int()
	// O_SYNC has several bits on Linux; all or none of them
	sync := w & os.O_SYNC
	sym.Assume(sync == 0 || sync == os.O_SYNC)
	f := disko.OSFlagsToIOFlags(w)
	acc := w & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	switch acc {
	case os.O_RDONLY:
		sym.Assert(f&disko.O_ACCMODE == disko.O_RDONLY, "the access mode is preserved")
	case os.O_WRONLY:
		sym.Assert(f&disko.O_ACCMODE == disko.O_WRONLY, "the access mode is preserved")
	case os.O_RDWR:
		sym.Assert(f&disko.O_ACCMODE == disko.O_RDWR, "the access mode is preserved")
	}
	sym.Assert((f&disko.O_APPEND != 0) == (w&os.O_APPEND != 0), "the append bit is preserved")
	sym.Assert((f&disko.O_CREATE != 0) == (w&os.O_CREATE != 0), "the create bit is preserved")
	sym.Assert((f&disko.O_EXCL != 0) == (w&os.O_EXCL != 0), "the exclusive bit is preserved")
	sym.Assert((f&disko.O_TRUNC != 0) == (w&os.O_TRUNC != 0), "the truncate bit is preserved")
	sym.Assert((f&disko.O_SYNC != 0) == (sync != 0), "the sync bit is preserved")
	known := disko.O_ACCMODE | disko.O_APPEND | disko.O_CREATE | disko.O_EXCL | disko.O_TRUNC | disko.O_SYNC
	sym.Assert(f&^known == 0, "nothing else is added")
	if acc != os.O_WRONLY|os.O_RDWR { // not an access mode
		sym.Assert(f.Read() == (acc == os.O_RDONLY || acc == os.O_RDWR), "converted flags are as readable")
		sym.Assert(f.Write() == (acc != os.O_RDONLY), "converted flags are as writable")
	}
}

// H_Queries: all 64-bit words of disko flags.
func H_Queries() {
	f := disko.IOFlags(sym.Int())
	acc := f & 3
	sym.Assert(f.Read() == (acc == 0 || acc == 2), "readable means read-only or read-write")
	sym.Assert(f.Write() == (acc == 1 || acc == 2), "writable means write-only or read-write")
	sym.Assert(f.RequiresWritePerm() == (acc == 1 || acc == 2 || f&0x400 != 0), "write permission is needed when writable or truncating")
	sym.Assert(f.Append() == (f&disko.O_APPEND != 0), "append answers from its own bit")
	sym.Assert(f.Create() == (f&disko.O_CREATE != 0), "create answers from its own bit")
	sym.Assert(f.Truncate() == (f&disko.O_TRUNC != 0), "truncate answers from its own bit")
	sym.Assert(f.Exclusive() == (f&disko.O_EXCL != 0), "exclusive answers from its own bit")
	sym.Assert(f.Synchronous() == (f&disko.O_SYNC != 0), "synchronous answers from its own bit")
	sym.Assert(f.NoFollow() == (f&disko.O_NOFOLLOW != 0), "no-follow answers from its own bit")
}

// H_Distinct: no two flags share a bit (concretely, on the constants).
func H_Distinct() {
	fl := []disko.IOFlags{disko.O_APPEND, disko.O_CREATE, disko.O_TRUNC, disko.O_EXCL, disko.O_SYNC, disko.O_NOFOLLOW, disko.O_ACCMODE}
	seen := disko.IOFlags(0)
	for _, f := range fl {
		sym.Assert(f != 0 && seen&f == 0, "open flags have bits of their own")
		seen |= f
	}
	sym.Assert(disko.O_RDONLY != disko.O_WRONLY && disko.O_WRONLY != disko.O_RDWR && disko.O_RDONLY != disko.O_RDWR, "access modes differ")
	ms := []disko.MountFlags{disko.MountFlagsAllowRead, disko.MountFlagsAllowWrite, disko.MountFlagsAllowInsert,
		disko.MountFlagsAllowDelete, disko.MountFlagsAllowAdminister, disko.MountFlagsPreserveTimestamps, disko.MountFlagsCustomStart}
	all := disko.MountFlags(0)
	for _, m := range ms {
		sym.Assert(m != 0 && all&m == 0, "mount flags have bits of their own")
		all |= m
	}
	sym.Assert(disko.MountFlagsAllowAll == disko.MountFlagsAllowRead|disko.MountFlagsAllowWrite|disko.MountFlagsAllowInsert|disko.MountFlagsAllowDelete|disko.MountFlagsAllowAdminister, "all permissions are all permissions")
	sym.Assert(disko.MountFlagsAllowReadWrite == disko.MountFlagsAllowRead|disko.MountFlagsAllowWrite, "read-write is read and write")
	sym.Assert(disko.MountFlagsMask == all&^disko.MountFlagsCustomStart, "the mask has exactly the standard flags")
}

// H_Mount: all mount flag words.
func H_Mount() {
	m := disko.MountFlags(sym.Int())
	sym.Assert(m.CanRead() == (m&disko.MountFlagsAllowRead != 0), "reading is allowed by its own bit")
	sym.Assert(m.CanWrite() == (m&disko.MountFlagsAllowWrite != 0), "writing is allowed by its own bit")
	sym.Assert(m.CanDelete() == (m&disko.MountFlagsAllowDelete != 0), "deleting is allowed by its own bit")
}

// H_Kinds: all 32-bit file modes.
func H_Kinds() {
	m := os.FileMode(sym.Uint32())
	st := disko.FileStat{ModeFlags: m, Size: sym.Int64(), Nlinks: sym.Uint64()}
	dir := m&os.ModeDir != 0
	file := m&os.ModeType == 0
	sym.Assert(st.IsDir() == dir, "directories are what the os package says")
	sym.Assert(st.IsFile() == file, "regular files are what the os package says")
	if m&os.ModeType == os.ModeSymlink {
		sym.Assert(st.IsSymlink(), "symbolic links are recognised")
	}
	if m&os.ModeSymlink == 0 {
		sym.Assert(!st.IsSymlink(), "only symbolic links are symbolic links")
	}
	n := 0
	for _, b := range []bool{st.IsDir(), st.IsFile(), st.IsSymlink()} {
		if b {
			n++
		}
	}
	sym.Assert(n <= 1, "a mode is of at most one kind")
}
