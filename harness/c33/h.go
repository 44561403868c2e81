// Package c33: the driver keeps its promises to file system implementations.
package c33

import (
	"os"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

// The in-memory file system (hlib.MemFS) insists on the promises made with each
// call: names, parents, ranges, empty directories, handles still open.

type vol struct {
	fs  *hlib.MemFS
	drv *driver.BaseDriver
}

func volume(fault bool) *vol {
	v := &vol{fs: hlib.NewMemFS(2)}
	d := v.fs.Dir(v.fs.Root, "d")
	v.fs.File(d, "f", sym.Bytes(3))
	v.fs.Dir(v.fs.Root, "e")
	v.fs.Dots = sym.Choice(2) == 1
	v.fs.LazyLink(v.fs.Root, "l", func() string {
		return []string{"d/f", "d", "l", "none", "e", "/", "d/f/x", "..", ""}[sym.Choice(9)]
	})
	v.fs.Strict = true
	v.fs.Armed = fault
	v.fs.Stuck = fault && sym.Choice(2) == 1
	v.drv = driver.New(v.fs, disko.MountFlagsAllowAll)
	return v
}

var paths = []string{"d/f", "d", "e", "l", "l/f", "none", "d/none", "d/f/x", "/", "l/../e", "none/x"}

func path() string { return paths[sym.Choice(len(paths))] }

func (v *vol) closed() {
	sym.Assert(v.fs.Open == 0, "every handle taken is closed by the end of the operation")
}

func (v *vol) modes(mode os.FileMode) {
	for _, m := range v.fs.Modes {
		sym.Assert(m&^(os.ModePerm|os.ModeSetuid|os.ModeSetgid|os.ModeSticky) == 0, "only permission bits are passed to Chmod")
		sym.Assert(m&os.ModePerm == mode&os.ModePerm, "all permission bits are passed to Chmod")
	}
}

// H_Ops: every operation on a path of any kind, one call of the file system
// failing or none.
func H_Ops() {
	v := volume(sym.Choice(2) == 1)
	p := path()
	switch sym.Choice(14) {
	case 0:
		v.drv.Stat(p)
	case 1:
		v.drv.Lstat(p)
	case 2:
		v.drv.Readlink(p)
	case 3:
		v.drv.ReadFile(p)
	case 4:
		v.drv.ReadDir(p)
	case 5:
		v.drv.Chdir(p)
	case 6:
		v.drv.Mkdir(p, os.FileMode(sym.Uint32()))
	case 7:
		v.drv.MkdirAll(p, os.FileMode(sym.Uint32()))
	case 8:
		v.drv.Remove(p)
	case 9:
		if sym.Choice(2) == 1 { // directories in directories
			s := v.fs.Dir(v.fs.Root.Kid("d"), "s")
			v.fs.File(s, "g", nil)
			v.fs.Dir(s, "t")
		}
		v.drv.RemoveAll(p)
	case 10:
		v.drv.Truncate(p)
	case 11:
		if sym.Choice(2) == 0 {
			v.drv.Chown(p, 1, 2)
		} else {
			v.drv.Lchown(p, 1, 2)
		}
	case 12:
		mode := os.FileMode(sym.Uint32())
		v.drv.Chmod(p, mode)
		v.modes(mode)
	case 13:
		v.drv.WriteFile(p, sym.Bytes(sym.Choice(2)*3), os.FileMode(sym.Uint32()))
		for _, m := range v.fs.Mods {
			sym.Cover(m.Op)
		}
		if v.fs.Fault {
			return // a file that cannot be written out may stay open
		}
	}
	v.closed()
	if v.fs.Fault {
		sym.Cover("fault")
	}
}

// H_Large: operations on directories of many entries, on deep paths, and through
// many links, one call of the file system around a power of two failing or none.
func H_Large() {
	fs := hlib.NewMemFS(4)
	fs.Strict = true
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	p := ""
	kind := sym.Choice(3)
	switch kind {
	case 0:
		d := fs.Dir(fs.Root, "d")
		n := (8 << sym.Choice(sym.Bound("entries, a power of two from 8: powers", 4, 6))) - 1 + sym.Choice(3)
		for i := 0; i < n; i++ {
			name := string([]byte{'e', byte('0' + i/100%10), byte('0' + i/10%10), byte('0' + i%10)})
			if i%5 == 3 {
				fs.File(fs.Dir(d, name), "f", nil)
			} else {
				fs.File(d, name, nil)
			}
		}
		p = []string{"/d", "/d/e003", "/d/x"}[sym.Choice(3)]
	case 1:
		n := (8 << sym.Choice(sym.Bound("levels, a power of two from 8: powers", 3, 4))) - 1 + sym.Choice(3)
		made := []int{1, n - 1, n}[sym.Choice(3)]
		d := fs.Root
		for i := 0; i < n; i++ {
			name := string([]byte{'n', byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
			if i < made {
				d = fs.Dir(d, name)
			}
			p += "/" + name
		}
		p = p[:5*[]int{1, n - 1, n}[sym.Choice(3)]]
	case 2:
		n := []int{8, 16, 32, 39, 40, 41, 42, 64}[sym.Choice(8)]
		for i := 0; i < n; i++ {
			to := "m" + string([]byte{byte('0' + (i+1)/10), byte('0' + (i+1)%10)})
			if i == n-1 {
				to = []string{"d", "m00", "none"}[sym.Choice(3)]
			}
			fs.Symlink(fs.Root, "m"+string([]byte{byte('0' + i/10), byte('0' + i%10)}), to)
		}
		fs.Dir(fs.Dir(fs.Root, "d"), "s")
		p = []string{"/m00", "/m00/s", "/m00/x"}[sym.Choice(3)]
	}
	if sym.Choice(2) == 1 {
		fs.Armed = true
		fs.At = (1 << sym.Choice(sym.Bound("failing call, a power of two: powers", 8, 11))) + sym.Choice(2)
	}
	switch sym.Choice(10) {
	case 0:
		drv.Stat(p)
	case 1:
		drv.ReadDir(p)
	case 2:
		drv.Chdir(p)
	case 3:
		drv.Mkdir(p, 0o777)
	case 4:
		drv.MkdirAll(p, 0o777)
	case 5:
		drv.Remove(p)
	case 6:
		drv.RemoveAll(p)
	case 7:
		drv.Link(p, "/new")
	case 8:
		drv.Chmod(p, 0o600)
	case 9:
		if file, err := drv.OpenFile(p, disko.O_RDONLY|disko.O_CREATE, 0o666); err == nil {
			file.Readdirnames(5)
			file.Readdir(-1)
			if file.Close() != nil {
				return
			}
		}
	}
	sym.Assert(fs.Open == 0, "every handle taken is closed by the end of the operation")
	if fs.Fault {
		sym.Cover("large fault")
	}
	sym.Cover([]string{"many entries", "deep", "many links"}[kind])
}

// H_Link: hard links from any path to any path.
func H_Link() {
	v := volume(sym.Choice(2) == 1)
	v.drv.Link(path(), path())
	v.closed()
	if v.fs.Count("link") > 0 {
		sym.Cover("linked")
	}
}

// H_Open: files opened with any flags and mode on a path of any kind, used, and
// closed.
func H_Open() {
	v := volume(sym.Choice(2) == 1)
	before := v.fs.Save()
	flags := disko.IOFlags(sym.Choice(4))
	for _, f := range []disko.IOFlags{disko.O_CREATE, disko.O_EXCL, disko.O_TRUNC, disko.O_APPEND} {
		if sym.Choice(2) == 1 {
			flags |= f
		}
	}
	perm := os.FileMode(sym.Uint32())
	file, err := v.drv.OpenFile(path(), flags, perm)
	if v.fs.Count("create") > 0 && !v.fs.Fault {
		sym.Cover("created")
		now := v.fs.Save()
		for i, n := range now.Nodes {
			if before.SavedOf(n) == nil {
				sym.Assert(now.Saved[i].Mode.IsRegular(), "an opened file is created as a file whatever the mode given")
				sym.Assert(now.Saved[i].Mode&os.ModePerm == perm&os.ModePerm, "a file is created with the permissions given")
			}
		}
	}
	if err != nil {
		v.closed()
		return
	}
	sym.Assert(v.fs.Open == 1, "an open file keeps one handle")
	switch sym.Choice(8) {
	case 0:
		file.Read(make([]byte, 3))
	case 1:
		file.Write(sym.Bytes(3))
	case 2:
		file.WriteAt(sym.Bytes(1), int64(sym.Choice(6)))
	case 3:
		file.Truncate(int64(sym.Choice(6)))
	case 4:
		file.Stat()
		file.Name()
	case 5:
		file.ReadDir(0)
		file.Chdir()
	case 6:
		file.Chown(1, 2)
	case 7:
		mode := os.FileMode(sym.Uint32())
		file.Chmod(mode)
		v.modes(mode)
	}
	if file.Close() == nil {
		v.closed()
		sym.Cover("closed")
	}
}

// H_Times: timestamps the file system does not support are never passed on.
func H_Times() {
	v := volume(false)
	f := &v.fs.Feat
	f.HasCreatedTime, f.HasAccessedTime, f.HasModifiedTime = sym.Bool(), sym.Bool(), sym.Bool()
	f.HasChangedTime, f.HasDeletedTime = sym.Bool(), sym.Bool()
	a, m := time.Unix(5, 0), time.Unix(7, 0)
	if sym.Choice(2) == 1 {
		a = disko.UndefinedTimestamp
	}
	if sym.Choice(2) == 1 {
		m = disko.UndefinedTimestamp
	}
	err := v.drv.Chtimes(path(), a, m)
	v.closed()
	for _, t := range v.fs.Times {
		for i, has := range []bool{f.HasCreatedTime, f.HasAccessedTime, f.HasModifiedTime, f.HasChangedTime, f.HasDeletedTime} {
			if !has || i == 4 {
				sym.Assert(t[i].IsZero(), "timestamps the file system does not support are undefined")
			}
		}
		sym.Assert(t[0].IsZero() && t[3].IsZero(), "timestamps that were not given are undefined")
		if f.HasAccessedTime {
			sym.Assert(t[1] == a, "the access time is passed on if supported")
		}
		if f.HasModifiedTime {
			sym.Assert(t[2] == m, "the modification time is passed on if supported")
		}
		sym.Cover("times")
	}
	sym.Assert((err == nil) == (len(v.fs.Times) == 1), "one call changes the times")
}

// H_Pages: a directory handle used for listing.
func H_Pages() {
	v := volume(sym.Choice(2) == 1)
	armed := v.fs.Armed
	v.fs.Armed = false
	p := []string{"d", "e", "."}[sym.Choice(3)]
	w, _ := v.fs.Resolve(hlib.Clean("/", p), true)
	obj := v.fs.Handle(w.Node, v.fs.Root, w.Name, hlib.Clean("/", p))
	v.fs.Armed = armed
	file, err := driver.NewFileFromObjectHandle(v.drv, obj, disko.O_RDONLY)
	if err != nil {
		return
	}
	for i := 0; i < 3; i++ {
		n := sym.Choice(3)
		switch sym.Choice(3) {
		case 0:
			file.ReadDir(n)
		case 1:
			file.Readdir(n)
		case 2:
			file.Readdirnames(n)
		}
		sym.Assert(v.fs.Open == 1, "listing keeps no handles")
	}
	if file.Close() == nil {
		v.closed()
	}
}

// H_Features: the driver reports the features of the file system, whatever they are.
func H_Features() {
	fs := hlib.NewMemFS(4)
	f := &fs.Feat
	f.HasAccessedTime, f.HasModifiedTime, f.HasSymbolicLinks = sym.Bool(), sym.Bool(), sym.Bool()
	got := driver.New(fs, disko.MountFlags(sym.Choice(8))).GetFSFeatures()
	sym.Assert(got == fs.Feat, "the features are the file system's")
}
