// Package c15: files opened through the driver hold exactly what was written.
package c15

import (
	"io"
	"os"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

type vol struct {
	fs  *hlib.MemFS
	drv *driver.BaseDriver
	d   *hlib.Node // directory /d
	f   *hlib.Node // file /d/f
	g   *hlib.Node // file /g
}

// volume has a file of arbitrary contents at /d/f, another at /g, and symbolic
// links to a file (lf), a directory (ld) and nothing (lx).
func volume(b, max int) *vol {
	v := &vol{fs: hlib.NewMemFS(b)}
	v.d = v.fs.Dir(v.fs.Root, "d")
	v.f = v.fs.File(v.d, "f", sym.Bytes(sym.Choice(max+1)))
	v.g = v.fs.File(v.fs.Root, "g", sym.Bytes(b+1))
	v.fs.Symlink(v.fs.Root, "lf", "d/f")
	v.fs.Symlink(v.fs.Root, "ld", "d")
	v.fs.Symlink(v.fs.Root, "lx", "d/nothing")
	v.drv = driver.New(v.fs, disko.MountFlagsAllowAll)
	return v
}

// holds checks what everybody sees of the file at a path.
func (v *vol) holds(p string, n *hlib.Node, data []byte) {
	sym.Assert(n.Size == len(data), "the file has exactly the size written")
	sym.Assert(sym.BytesEq(n.Bytes(), data), "the file holds exactly what was written")
	st, err := v.drv.Stat(p)
	sym.Assert(err == nil && st.Size == int64(len(data)), "the exact size is visible in stat")
	got, err := v.drv.ReadFile(p)
	sym.Assert(err == nil, "reading the whole file succeeds")
	sym.Assert(sym.BytesEq(got, data), "reading the whole file gives what was written")
}

// H_WholeFile: whole files of any contents and size are written over files of
// any size or into new ones and read back.
func H_WholeFile() {
	b := sym.Bound("bytes per block", 3, 4)
	v := volume(b, 2*b+1)
	snap := v.fs.Save()
	p := []string{"/d/f", "lf", "d/new", "/ld/new2"}[sym.Choice(4)]
	perm := os.FileMode(0o600 | sym.Choice(2))
	for i := 0; i < 1+sym.Choice(2); i++ {
		data := sym.Bytes(sym.Choice(2*b + 2))
		orig := append([]byte{}, data...)
		err := v.drv.WriteFile(p, data, perm)
		sym.Assert(err == nil, "writing a whole file succeeds")
		sym.Assert(sym.BytesEq(data, orig), "the caller's data is left alone")
		w, res := v.fs.Resolve(hlib.Clean("/", p), true)
		sym.Assert(res == hlib.Found, "the written file exists")
		if p == "/d/f" || p == "lf" {
			sym.Assert(w.Node == v.f, "an existing file is reused")
			snap.Same("writing a file", nil, "", v.f)
			sym.Assert(w.Node.Mode == snap.SavedOf(v.f).Mode, "the mode of an existing file stays")
		} else {
			sym.Assert(w.Node.Mode == perm, "a new file has the permissions given")
			snap.Same("writing a new file", v.d, w.Name)
		}
		v.holds(p, w.Node, orig)
		perm = 0o777
		if i == 0 && p != "/d/f" && p != "lf" {
			perm = w.Node.Mode
		}
	}
}

// H_Handle: all open flags on existing and missing files, then an operation,
// then the file is closed.
func H_Handle() {
	b := 2
	v := volume(b, sym.Bound("bytes of an existing file", 3, 5))
	special := []os.FileMode{os.ModeDevice, os.ModeDevice | os.ModeCharDevice, os.ModeNamedPipe, os.ModeSocket, os.ModeIrregular}
	v.fs.Add(v.fs.Root, "s", special[sym.Choice(len(special))]|0o600, []byte("ab"))
	v.fs.Symlink(v.fs.Root, "ls", "s")
	snap := v.fs.Save()
	flags := []disko.IOFlags{disko.O_RDONLY, disko.O_WRONLY, disko.O_RDWR}[sym.Choice(3)]
	for _, bit := range []disko.IOFlags{disko.O_APPEND, disko.O_CREATE, disko.O_TRUNC, disko.O_EXCL, disko.O_SYNC} {
		if sym.Choice(2) == 1 {
			flags |= bit
		}
	}
	if flags.Exclusive() && !flags.Create() || flags.Truncate() && !flags.Write() {
		return // left open by POSIX
	}
	p := []string{"d/f", "lf", "d/n", "ld/n"}[sym.Choice(4)]
	missing := p == "d/n" || p == "ld/n"
	file, err := v.drv.OpenFile(p, flags, 0o641)
	w, res := v.fs.Resolve(hlib.Clean("/", p), true)
	if missing && !flags.Create() {
		sym.Assert(hlib.Is(err, disko.ErrNotFound), "a missing file is not found")
		sym.Assert(res == hlib.NotFound, "a missing file is only created on request")
		snap.Same("refusing to open a missing file", nil, "")
		return
	}
	if !missing && flags.Exclusive() {
		sym.Assert(hlib.Is(err, disko.ErrExists), "exclusive creation fails on an existing name")
		snap.Same("refusing exclusive creation", nil, "")
		return
	}
	sym.Assert(err == nil && res == hlib.Found, "opening succeeds")
	if missing {
		sym.Assert(w.Node.Mode == 0o641 && w.Node.Size == 0, "a new file is empty with the permissions given")
	}
	m := &hlib.ByteFile{S: &file, B: b, Flags: flags, Limit: 1 << 14}
	m.StoreOf = func() []byte { return w.Node.Data }
	if !missing && !flags.Truncate() {
		m.Data = append([]byte{}, v.f.Bytes()...)
	}
	sym.Assert(file.Name() == w.Name || p == "lf", "the file has its name")
	ops := sym.Bound("operations", 1, 2)
	for i := 0; i < ops; i++ {
		if i > 0 {
			m.Seek(int64(sym.Choice(3)), io.SeekStart)
		}
		m.Op(3, 4)
	}
	if sym.Choice(2) == 1 {
		sym.Assert(file.Sync() == nil, "syncing succeeds")
	}
	st, err := file.Stat()
	sym.Assert(err == nil && st.Size() == int64(len(m.Data)), "the handle knows the exact size")
	sym.Assert(file.Close() == nil, "closing succeeds")
	v.holds(p, w.Node, m.Data)
	if missing {
		snap.Same("using a new file", v.d, "n")
	} else {
		snap.Same("using a file", nil, "", v.f)
	}
}

// H_Targets: everything that is not an existing or creatable file.
func H_Targets() {
	v := volume(2, 1)
	special := []os.FileMode{os.ModeDevice, os.ModeDevice | os.ModeCharDevice, os.ModeNamedPipe, os.ModeSocket, os.ModeIrregular}
	v.fs.Add(v.fs.Root, "s", special[sym.Choice(len(special))]|0o600, []byte("ab"))
	v.fs.Symlink(v.fs.Root, "ls", "s")
	snap := v.fs.Save()
	flags := []disko.IOFlags{disko.O_RDONLY, disko.O_WRONLY, disko.O_RDWR, disko.O_RDWR | disko.O_CREATE,
		disko.O_WRONLY | disko.O_CREATE | disko.O_TRUNC, disko.O_RDWR | disko.O_CREATE | disko.O_APPEND,
		disko.O_RDWR | disko.O_CREATE | disko.O_EXCL, disko.O_WRONLY | disko.O_TRUNC}[sym.Choice(8)]
	op := sym.Choice(6)
	creates := op == 3 || op == 4 || op == 5 && flags.Create()
	excl := op == 3 || op == 5 && flags.Exclusive()
	try := func(p string) error {
		var err error
		switch op {
		case 0:
			_, err = v.drv.Open(p)
		case 1:
			_, err = v.drv.ReadFile(p)
		case 2:
			err = v.drv.Truncate(p)
		case 3:
			_, err = v.drv.Create(p)
		case 4:
			err = v.drv.WriteFile(p, []byte("xyz"), 0o600)
		case 5:
			_, err = v.drv.OpenFile(p, flags, 0o600)
		}
		return err
	}
	switch sym.Choice(5) {
	case 4: // neither a file nor a directory
		p := []string{"s", "ls"}[sym.Choice(2)]
		if op != 1 && op != 2 {
			sym.Assert(try(p) != nil, "only files are opened")
			sym.Cover("special")
		}
	case 0: // directories
		err := try([]string{"d", "/", "ld", "."}[sym.Choice(4)])
		if excl {
			sym.Assert(hlib.Is(err, disko.ErrExists), "exclusive creation fails on an existing directory")
		} else {
			sym.Assert(hlib.Is(err, disko.ErrIsADirectory), "a directory opened as a file is a directory")
		}
	case 1: // parent missing
		sym.Assert(hlib.Is(try([]string{"q/f", "/q/r/f", "d/q/f", "lx/f"}[sym.Choice(4)]), disko.ErrNotFound), "a missing parent is not found")
	case 2: // parent is a file
		sym.Assert(try([]string{"g/f", "d/f/x", "lf/x"}[sym.Choice(3)]) != nil, "a file is no parent")
	case 3: // the file itself is missing
		p := []string{"n", "d/n", "ld/n"}[sym.Choice(3)]
		err := try(p)
		if !creates {
			sym.Assert(hlib.Is(err, disko.ErrNotFound), "a missing file is not found")
		} else {
			sym.Assert(err == nil, "a missing file is created")
			w, res := v.fs.Resolve(hlib.Clean("/", p), true)
			sym.Assert(res == hlib.Found && w.Node.Mode.IsRegular(), "a missing file is created")
			return
		}
	}
	snap.Same("a refused operation", nil, "")
}

// H_Truncate: truncation by path empties exactly the file.
func H_Truncate() {
	v := volume(2, 5)
	snap := v.fs.Save()
	p := []string{"d/f", "lf", "ld/f"}[sym.Choice(3)]
	sym.Assert(v.drv.Truncate(p) == nil, "truncating a file succeeds")
	snap.Same("truncating", nil, "", v.f)
	v.holds(p, v.f, nil)
	more := sym.Bytes(sym.Choice(4))
	file, err := v.drv.OpenFile(p, disko.O_WRONLY|disko.O_APPEND, 0)
	sym.Assert(err == nil, "opening succeeds")
	n, err := file.Write(more)
	sym.Assert(n == len(more) && err == nil && file.Close() == nil, "appending succeeds")
	v.holds(p, v.f, more)
}

// H_Append: every write through appending handles lands at the end.
func H_Append() {
	v := volume(2, 3)
	want := append([]byte{}, v.f.Bytes()...)
	for i := 0; i < 2; i++ {
		file, err := v.drv.OpenFile("/d/f", disko.O_RDWR|disko.O_APPEND|disko.O_CREATE, 0)
		sym.Assert(err == nil, "opening succeeds")
		for j := 0; j < 2; j++ {
			file.Seek(int64(sym.Choice(2)), io.SeekStart)
			b := sym.Bytes(sym.Choice(3))
			n, err := file.Write(b)
			sym.Assert(n == len(b) && err == nil, "appending succeeds")
			want = append(want, b...)
		}
		sym.Assert(file.Close() == nil, "closing succeeds")
		v.holds("d/f", v.f, want)
	}
}

// H_Faults: a failure of any call into the file system is reported.
func H_Faults() {
	v := volume(2, 5)
	v.fs.Armed = true
	p := []string{"d/f", "lf", "d/n", "ld/f"}[sym.Choice(4)]
	var errs []error
	add := func(err error) { errs = append(errs, err) }
	data := sym.Bytes(sym.Choice(4))
	switch sym.Choice(6) {
	case 0:
		got, err := v.drv.ReadFile(p)
		add(err)
		if err == nil && p != "d/n" {
			sym.Assert(sym.BytesEq(got, v.f.Bytes()), "reading the whole file gives what it holds")
		}
	case 1:
		add(v.drv.WriteFile(p, data, 0o600))
	case 2:
		add(v.drv.Truncate(p))
	case 3:
		_, err := v.drv.Stat(p)
		add(err)
	case 4, 5:
		flags := []disko.IOFlags{disko.O_RDWR, disko.O_RDWR | disko.O_CREATE, disko.O_RDWR | disko.O_TRUNC,
			disko.O_RDWR | disko.O_CREATE | disko.O_EXCL, disko.O_RDWR | disko.O_SYNC, disko.O_RDWR | disko.O_APPEND}[sym.Choice(6)]
		file, err := v.drv.OpenFile(p, flags, 0o600)
		add(err)
		if err == nil {
			switch sym.Choice(4) {
			case 0:
				_, err = file.Write(data)
			case 1:
				_, err = file.Read(make([]byte, 3))
				if err == io.EOF {
					err = nil
				}
			case 2:
				err = file.Truncate(int64(sym.Choice(6)))
			case 3:
				_, err = file.WriteAt(data, int64(sym.Choice(5)))
				if flags.Append() {
					err = nil
				}
			}
			add(err)
			add(file.Close())
		}
	}
	if v.fs.Fault {
		ok := false
		for _, err := range errs {
			ok = ok || err != nil
		}
		sym.Assert(ok, "a failure inside the file system is reported")
		sym.Cover("fault")
	}
}

// H_BigBlocks: realistic block sizes, sizes around block boundaries.
func H_BigBlocks() {
	b := []int{128, 512}[sym.Choice(2)]
	v := volume(b, 0)
	sizes := []int{0, 1, b - 1, b, b + 1, 2*b - 1, 2 * b, 2*b + 1}
	for i := 0; i < 2; i++ {
		data := sym.Bytes(sizes[sym.Choice(len(sizes))])
		sym.Assert(v.drv.WriteFile("/d/f", data, 0) == nil, "writing a whole file succeeds")
		v.holds("/d/f", v.f, data)
	}
}

// H_Large: files of some 64 KiB written over each other and through a handle.
func H_Large() {
	v := volume(512, 0)
	v.fs.Max = 1 << 20
	sizes := []int{3, 32768, 65535, 65537, 70000}
	data := hlib.Scattered(sizes[sym.Choice(len(sizes))])
	sym.Assert(v.drv.WriteFile("/d/f", data, 0) == nil, "writing a whole file succeeds")
	v.holds("/d/f", v.f, data)
	more := hlib.Scattered(sizes[sym.Choice(len(sizes))])
	if sym.Choice(2) == 1 {
		data = more
		sym.Assert(v.drv.WriteFile("/d/f", data, 0) == nil, "writing a whole file succeeds")
	} else {
		file, err := v.drv.OpenFile("/d/f", disko.O_RDWR|disko.O_APPEND, 0)
		sym.Assert(err == nil, "opening an existing file succeeds")
		n, err := file.Write(more)
		sym.Assert(err == nil && n == len(more), "writing through a handle succeeds")
		sym.Assert(file.Close() == nil, "closing the file succeeds")
		data = append(append([]byte{}, data...), more...)
	}
	v.holds("/d/f", v.f, data)
	sym.Cover("large")
}

// H_LargeFaults: a failure at any point of writing or reading a large file, or a
// file system with too little room for it.
func H_LargeFaults() {
	v := volume(4096, 0)
	v.fs.Max = []uint64{1 << 20, 4096, 33000, 65536}[sym.Choice(4)]
	old := hlib.Scattered([]int{3, 40000}[sym.Choice(2)])
	if uint64(len(old)) <= v.fs.Max {
		sym.Assert(v.drv.WriteFile("/d/f", old, 0) == nil, "writing a whole file succeeds")
	} else {
		old = nil
	}
	data := hlib.Scattered(70000)
	v.fs.Armed = v.fs.Max == 1<<20
	if sym.Choice(2) == 0 {
		err := v.drv.WriteFile("/d/f", data, 0)
		sym.Assert(err != nil || (!v.fs.Fault && v.fs.Max == 1<<20), "a failure inside the file system is reported")
		if err == nil {
			v.fs.Armed = false
			v.holds("/d/f", v.f, data)
		}
	} else {
		got, err := v.drv.ReadFile("/d/f")
		sym.Assert((err != nil) == v.fs.Fault, "a failure inside the file system is reported")
		if err == nil {
			sym.Assert(sym.BytesEq(got, old), "reading the whole file gives what it holds")
		}
	}
	if v.fs.Fault {
		sym.Cover("fault in a large file")
	}
}

// H_Create: Create makes a new empty file for reading and writing, and refuses
// existing names.
func H_Create() {
	v := volume(2, 2)
	snap := v.fs.Save()
	switch sym.Choice(2) {
	case 0:
		v.fs.Symlink(v.fs.Root, "loop", "loop")
		snap = v.fs.Save()
		p := []string{"d/f", "g", "lf", "d", "ld", "lx", "loop"}[sym.Choice(7)]
		_, err := v.drv.Create(p)
		sym.Assert(hlib.Is(err, disko.ErrExists), "creating under an existing name fails, whatever is there")
		snap.Same("refusing to create", nil, "")
	case 1:
		file, err := v.drv.Create("d/n")
		sym.Assert(err == nil, "creating a file succeeds")
		n := v.d.Kid("n")
		sym.Assert(n != nil && n.Mode.IsRegular() && n.Size == 0, "an empty file is created")
		b := sym.Bytes(3)
		k, err := file.Write(b)
		sym.Assert(k == 3 && err == nil, "a new file can be written")
		got := make([]byte, 3)
		k, err = file.ReadAt(got, 0)
		sym.Assert(k == 3 && err == nil && sym.BytesEq(got, b), "a new file can be read")
		sym.Assert(file.Close() == nil, "closing succeeds")
		snap.Same("creating a file", v.d, "n")
		v.holds("d/n", n, b)
	}
}

// H_Wild: reads, writes and truncations of an open file at any 64-bit offset
// with any flag word that lets the file be opened.
func H_Wild() {
	v := volume(2, 3)
	snap := v.fs.Save()
	flags := disko.IOFlags(sym.Int())
	sym.Assume(!flags.Truncate() && !flags.Exclusive() && !flags.NoFollow())
	sym.Assume(flags&disko.O_ACCMODE != disko.O_ACCMODE)
	file, err := v.drv.OpenFile("d/f", flags, 0)
	sym.Assert(err == nil, "opening an existing file succeeds")
	m := &hlib.ByteFile{S: &file, B: 2, Flags: flags, Limit: 5}
	m.StoreOf = func() []byte { return v.f.Data }
	m.Data = append([]byte{}, v.f.Bytes()...)
	off := sym.Int64()
	sym.Assume(off <= 10 || off > 1<<20)
	switch sym.Choice(3) {
	case 0:
		m.ReadAt(1+sym.Choice(2), off)
	case 1:
		if off > 10-2 {
			sym.Assume(off > 1<<20)
		}
		m.WriteAt(1+sym.Choice(2), off)
	case 2:
		m.Truncate(off)
	}
	sym.Assert(file.Close() == nil, "closing succeeds")
	v.holds("d/f", v.f, m.Data)
	snap.Same("using a file", nil, "", v.f)
}
