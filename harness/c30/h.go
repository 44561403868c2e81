// Package c30: directory handles page through entries exactly once.
package c30

import (
	"io"
	"os"
	"strconv"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

var names = []string{"one", "b", "c.txt", "..d", "e"}

// directory makes a directory with k entries of arbitrary kinds and attributes.
func directory(k int) (*hlib.MemFS, *driver.BaseDriver, *hlib.Node) {
	fs := hlib.NewMemFS(4)
	fs.Dots = sym.Choice(2) == 1
	d := fs.Dir(fs.Root, "dir")
	for i := 0; i < k; i++ {
		perm := os.FileMode(sym.Uint32()) & 0o777
		var n *hlib.Node
		switch (i + k) % 3 {
		case 0:
			n = fs.Add(d, names[i], perm, sym.Bytes(i+1))
		case 1:
			n = fs.Add(d, names[i], os.ModeDir|perm, nil)
		case 2:
			n = fs.Add(d, names[i], os.ModeSymlink|perm, []byte("b"))
		}
		n.Modified = time.Unix(int64(sym.Uint32()), 0)
		n.Uid = int(sym.Uint16())
	}
	return fs, driver.New(fs, disko.MountFlagsAllowAll), d
}

func open(fs *hlib.MemFS, drv *driver.BaseDriver, d *hlib.Node) *driver.File {
	f, err := driver.NewFileFromObjectHandle(drv, fs.Handle(d, fs.Root, "dir", "/dir"), disko.O_RDONLY)
	sym.Assert(err == nil, "a directory handle can be made")
	return &f
}

// checkInfo compares a file information with what the file system records.
func checkInfo(fs *hlib.MemFS, info os.FileInfo, name string, n *hlib.Node) {
	st := fs.Stat(n)
	sym.Assert(info.Name() == name, "the name reported is that recorded")
	sym.Assert(info.Size() == st.Size, "the size reported is that recorded")
	sym.Assert(info.Mode() == st.ModeFlags, "the mode reported is that recorded")
	sym.Assert(info.ModTime() == st.LastModified, "the modification time reported is that recorded")
	sym.Assert(info.IsDir() == st.IsDir(), "the kind reported is that recorded")
	sys, ok := info.Sys().(disko.FileStat)
	sym.Assert(ok && sys == st, "the underlying status reported is that recorded")
}

// page reads one page with any of the three methods and checks it. It returns
// how many entries were delivered.
func page(fs *hlib.MemFS, f *driver.File, d *hlib.Node, done, n int) int {
	rest := len(d.Names) - done
	got := 0
	var err error
	kind := sym.Choice(3)
	switch kind {
	case 0:
		ents, e := f.ReadDir(n)
		got, err = len(ents), e
		sym.Assert(got <= rest, "no entry is delivered twice")
		for i, e := range ents {
			name := d.Names[done+i]
			node := d.Kids[done+i]
			sym.Assert(e.Name() == name, "entries come in the file system's order")
			sym.Assert(e.IsDir() == node.IsDir(), "an entry's kind is that recorded")
			sym.Assert(e.Type()&os.ModeType == node.Mode&os.ModeType, "an entry's type is that recorded")
			info, ierr := e.Info()
			sym.Assert(ierr == nil, "an entry has its information")
			checkInfo(fs, info, name, node)
			de, ok := e.(disko.DirectoryEntry)
			sym.Assert(!ok || de.Stat() == fs.Stat(node), "an entry's status is that recorded")
		}
	case 1:
		infos, e := f.Readdir(n)
		got, err = len(infos), e
		sym.Assert(got <= rest, "no entry is delivered twice")
		for i, info := range infos {
			checkInfo(fs, info, d.Names[done+i], d.Kids[done+i])
		}
	case 2:
		ns, e := f.Readdirnames(n)
		got, err = len(ns), e
		sym.Assert(got <= rest, "no entry is delivered twice")
		for i, s := range ns {
			sym.Assert(s == d.Names[done+i], "names come in the file system's order")
		}
	}
	if rest == 0 {
		sym.Assert(got == 0 && err == io.EOF, "after the last entry the end is reported")
		return 0
	}
	sym.Assert(err == nil, "a page of entries is no error")
	sym.Assert(got > 0, "a page has entries until the end")
	sym.Assert(n <= 0 || got <= n, "a page is no longer than asked")
	sym.Assert(n > 0 || got == rest, "a non-positive page size gives all the rest")
	return got
}

// H_Paging: directories of any small size read in pages of any 64-bit sizes.
func H_Paging() {
	fs, drv, d := directory(sym.Choice(sym.Bound("entries", 3, 4) + 1))
	f := open(fs, drv, d)
	done := 0
	for i := 0; i <= len(d.Names); i++ {
		rest := len(d.Names) - done
		done += page(fs, f, d, done, sym.Int())
		if rest == 0 {
			sym.Cover("end")
			return
		}
	}
	sym.Assert(done == len(d.Names), "every entry is delivered")
}

// H_All: everything at once, then the end; larger directories.
func H_All() {
	fs, drv, d := directory(sym.Choice(len(names) + 1))
	f := open(fs, drv, d)
	n := []int{-1, 0, 5, 1 << 40}[sym.Choice(4)]
	sym.Assert(page(fs, f, d, 0, n) == len(d.Names), "everything at once is everything")
	if len(d.Names) > 0 {
		page(fs, f, d, len(d.Names), []int{-1, 0, 1}[sym.Choice(3)])
	}
}

// H_TwoHandles: handles page independently.
func H_TwoHandles() {
	fs, drv, d := directory(2)
	f := open(fs, drv, d)
	g := open(fs, drv, d)
	a := page(fs, f, d, 0, 1)
	b := page(fs, g, d, 0, sym.Choice(3))
	a += page(fs, f, d, a, 1)
	sym.Assert(a == 2, "every entry is delivered")
	page(fs, f, d, a, 0)
	page(fs, g, d, b, 0)
}

// H_NotADirectory: anything but a directory is refused.
func H_NotADirectory() {
	fs, drv, d := directory(2)
	file := fs.File(d, "file", sym.Bytes(3))
	f, err := driver.NewFileFromObjectHandle(drv, fs.Handle(file, d, "file", "/dir/file"), disko.O_RDONLY)
	sym.Assert(err == nil, "a file handle can be made")
	if sym.Choice(2) == 1 {
		f, err = drv.Open("dir/file")
		sym.Assert(err == nil, "opening succeeds")
	}
	n := sym.Int()
	switch sym.Choice(3) {
	case 0:
		_, err = f.ReadDir(n)
	case 1:
		_, err = f.Readdir(n)
	case 2:
		_, err = f.Readdirnames(n)
	}
	sym.Assert(hlib.Is(err, disko.ErrNotADirectory), "anything but a directory is refused as not a directory")
}

// H_Faults: a failing file system is reported, and the entries can be read
// afterwards.
func H_Faults() {
	fs, drv, d := directory(1 + sym.Choice(3))
	f := open(fs, drv, d)
	fs.Armed = true
	n := sym.Choice(4) - 1
	var err error
	got := 0
	switch sym.Choice(3) {
	case 0:
		var x []os.DirEntry
		x, err = f.ReadDir(n)
		got = len(x)
	case 1:
		var x []os.FileInfo
		x, err = f.Readdir(n)
		got = len(x)
	case 2:
		var x []string
		x, err = f.Readdirnames(n)
		got = len(x)
	}
	if fs.Fault {
		sym.Assert(err != nil && err != io.EOF, "a failing file system is reported")
		sym.Cover("fault")
		if got == 0 {
			fs.Armed = false
			page(fs, f, d, 0, sym.Choice(3)-1)
		}
	} else {
		sym.Assert(err == nil, "a page of entries is no error")
	}
}

// H_HandleInfo: what a handle says about its object.
func H_HandleInfo() {
	fs, drv, d := directory(3)
	i := sym.Choice(3)
	n, name := d.Kids[i], d.Names[i]
	if n.IsLink() {
		n, name = d.Kid("b"), "b"
	}
	var f driver.File
	var err error
	if n.IsDir() || sym.Choice(2) == 1 {
		f, err = driver.NewFileFromObjectHandle(drv, fs.Handle(n, d, name, "/dir/"+name), disko.O_RDONLY)
	} else {
		f, err = drv.Open("dir/" + name)
	}
	sym.Assert(err == nil, "opening succeeds")
	sym.Assert(f.Name() == name, "a handle has the name of its object")
	info, err := f.Stat()
	sym.Assert(err == nil, "a handle has information")
	checkInfo(fs, info, name, n)
	if de, ok := info.(disko.DirectoryEntry); ok {
		sym.Assert(de.Type()&os.ModeType == n.Mode&os.ModeType && de.Stat() == fs.Stat(n), "a handle's type and status are those recorded")
		sym.Cover("handle as entry")
	}
	st, err := drv.Stat("dir/" + name)
	sym.Assert(err == nil && st == fs.Stat(n), "the status of a path is that recorded")
}

// H_SameFile: files are the same exactly if they are one object.
func H_SameFile() {
	fs, drv, d := directory(2)
	f := fs.File(d, "x", sym.Bytes(1))
	fs.File(d, "y", sym.Bytes(1))
	sym.Assert(drv.Link("dir/x", "z") == nil, "linking succeeds")
	get := func(p string) os.FileInfo {
		h, err := drv.Open(p)
		sym.Assert(err == nil, "opening succeeds")
		info, err := h.Stat()
		sym.Assert(err == nil, "a handle has information")
		return info
	}
	ps := []string{"dir/x", "dir/y", "z"}
	p, q := ps[sym.Choice(3)], ps[sym.Choice(3)]
	same := p == q || (p != "dir/y" && q != "dir/y")
	sym.Assert(drv.SameFile(get(p), get(q)) == same, "files are the same exactly if they are one object")
	sym.Assert(f.Nlink == 2, "linking makes a second name")
}

// H_Names: an entry with any name is listed, but for . and .. themselves.
func H_Names() {
	fs := hlib.NewMemFS(4)
	fs.Dots = sym.Choice(2) == 1
	d := fs.Dir(fs.Root, "dir")
	name := sym.String(1 + sym.Choice(sym.Bound("bytes of a name", 4, 5)))
	for i := 0; i < len(name); i++ {
		sym.Assume(sym.And(name[i] != '/', name[i] != 0))
	}
	sym.Assume(!sym.Or(name == ".", name == "..", name == "b"))
	if sym.Choice(2) == 1 {
		fs.Add(d, "b", 0o600, nil)
	}
	fs.Add(d, name, []os.FileMode{0o600, os.ModeDir | 0o700}[sym.Choice(2)], nil)
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	f := open(fs, drv, d)
	for done := 0; done <= len(d.Names); {
		n := page(fs, f, d, done, 1)
		if n == 0 {
			break
		}
		done += n
	}
	list, err := drv.ReadDir("/dir")
	sym.Assert(err == nil && len(list) == len(d.Names), "listing gives every entry")
	sym.Cover("any name")
}

// H_Large: hundreds of entries in pages around powers of two.
func H_Large() {
	fs := hlib.NewMemFS(4)
	fs.Dots = sym.Choice(2) == 1
	d := fs.Dir(fs.Root, "dir")
	total := []int{100, 257}[sym.Choice(2)]
	for i := 0; i < total; i++ {
		fs.Add(d, "f"+strconv.Itoa(i), 0, nil)
	}
	f := open(fs, driver.New(fs, disko.MountFlagsAllowAll), d)
	n := []int{0, 64, 99, 100, 128, 256, 1000}[sym.Choice(7)]
	kind := sym.Choice(3)
	done := 0
	for {
		var names []string
		var err error
		switch kind {
		case 0:
			var l []os.DirEntry
			l, err = f.ReadDir(n)
			for _, e := range l {
				names = append(names, e.Name())
			}
		case 1:
			var l []os.FileInfo
			l, err = f.Readdir(n)
			for _, e := range l {
				names = append(names, e.Name())
			}
		case 2:
			names, err = f.Readdirnames(n)
		}
		if done == total {
			sym.Assert(len(names) == 0 && err == io.EOF, "after the last entry the end is reported")
			sym.Cover("many")
			return
		}
		sym.Assert(err == nil && len(names) > 0 && len(names) <= total-done, "a page has entries until the end")
		sym.Assert(n <= 0 || len(names) <= n, "a page is no longer than asked")
		for _, s := range names {
			sym.Assert(s == d.Names[done], "names come in the file system's order")
			done++
		}
	}
}
