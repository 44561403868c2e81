// Package c14: path normalisation is POSIX lexical cleaning against the working
// directory.
package c14

import (
	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

func volume() (*hlib.MemFS, *driver.BaseDriver) {
	fs := hlib.NewMemFS(4)
	d := fs.Dir(fs.Root, "d")
	e := fs.Dir(d, "e")
	fs.Dir(e, "g")
	fs.File(d, "f", sym.Bytes(3))
	fs.Symlink(fs.Root, "l", "d/e")
	return fs, driver.New(fs, disko.MountFlagsAllowAll)
}

func checkForm(n string) {
	sym.Assert(len(n) > 0 && n[0] == '/', "normalised paths are absolute")
	if n == "/" {
		return
	}
	comp := 0
	dots := true
	for i := 1; i < len(n); i++ {
		if n[i] == '/' {
			sym.Assert(comp > 0 && !(dots && comp <= 2), "normalised paths have no empty, . or .. component")
			comp, dots = 0, true
		} else {
			comp++
			dots = dots && n[i] == '.'
		}
	}
	sym.Assert(comp > 0 && !(dots && comp <= 2), "normalised paths have no trailing slash, . or ..")
}

// H_Normalize: every path string up to the bound (any bytes), from several
// working directories.
func H_Normalize() {
	_, drv := volume()
	cwd := []string{"/", "/d", "/d/e"}[sym.Choice(3)]
	sym.Assert(drv.Chdir(cwd) == nil, "changing to an existing directory succeeds")
	path := sym.String(sym.Choice(sym.Bound("path bytes", 6, 8) + 1))
	n := drv.NormalizePath(path)
	checkForm(n)
	sym.Assert(n == hlib.Clean(cwd, path), "paths are cleaned lexically against the working directory")
	sym.Assert(drv.NormalizePath(n) == n, "normalising is idempotent")
}

// H_Components: longer paths made of interesting components.
func H_Components() {
	_, drv := volume()
	cwd := []string{"/", "/d", "/d/e"}[sym.Choice(3)]
	sym.Assert(drv.Chdir(cwd) == nil, "changing to an existing directory succeeds")
	path := ""
	k := sym.Choice(sym.Bound("components", 4, 6) + 1)
	if sym.Choice(2) == 1 {
		path = "/"
	}
	for i := 0; i < k; i++ {
		path += []string{"", ".", "..", "a", "...", ".b"}[sym.Choice(6)]
		if i < k-1 || sym.Choice(2) == 1 {
			path += "/"
		}
	}
	n := drv.NormalizePath(path)
	checkForm(n)
	sym.Assert(n == hlib.Clean(cwd, path), "paths are cleaned lexically against the working directory")
	sym.Assert(drv.NormalizePath(n) == n, "normalising is idempotent")
}

// H_Chdir: sequences of directory changes with arbitrary destinations.
func H_Chdir() {
	fs, drv := volume()
	fs.Symlink(fs.Root, "x", "nowhere")
	fs.Symlink(fs.Root, "y", "d/f")
	wd, err := drv.Getwd()
	sym.Assert(err == nil && wd == "/", "the first working directory is the root")
	cwd := "/"
	steps := sym.Bound("directory changes", 2, 3)
	for i := 0; i < steps; i++ {
		fs.Armed = sym.Choice(2) == 1
		path := []string{"", ".", "..", "/", "d", "e", "g", "d/e", "/d", "d/f", "f", "/q", "q", "d/q/e", "../e",
			"l", "/l/g", "x", "y", "d/f/g", "/d//e/../e/."}[sym.Choice(21)]
		p, res := fs.Resolve(hlib.Clean(cwd, path), true)
		err := drv.Chdir(path)
		now, _ := drv.Getwd()
		if fs.Fault || res != hlib.Found || !p.Node.IsDir() {
			sym.Assert(err != nil, "changing to anything but an existing directory fails")
			sym.Assert(now == cwd, "a failed change leaves the working directory alone")
		} else {
			sym.Assert(err == nil, "changing to an existing directory succeeds")
			q, res := fs.Resolve(now, true)
			sym.Assert(res == hlib.Found && q.Node == p.Node, "the working directory reported is the directory changed to")
			checkForm(now)
			cwd = now
		}
		fs.Fault, fs.Armed = false, false
		for _, rel := range []string{"", "e", "f"} {
			want, wres := fs.Resolve(hlib.Clean(cwd, rel), true)
			st, err := drv.Stat(rel)
			sym.Assert(hlib.Kind(err, wres), "relative paths resolve in the working directory")
			if wres == hlib.Found {
				sym.Assert(st.InodeNumber == uint64(want.Node.ID), "relative paths lead to the objects in the working directory")
			}
		}
	}
}

// H_FileChdir: changing directory through an open directory handle.
func H_FileChdir() {
	fs, drv := volume()
	d := fs.Root.Kid("d")
	if sym.Choice(2) == 1 {
		f, err := driver.NewFileFromObjectHandle(drv, fs.Handle(d, fs.Root, "d", "/d"), disko.O_RDONLY)
		sym.Assert(err == nil, "a directory handle can be made")
		sym.Assert(f.Chdir() == nil, "changing to an open directory succeeds")
		wd, _ := drv.Getwd()
		sym.Assert(wd == "/d" && drv.NormalizePath("z") == "/d/z", "the working directory is the open directory")
	} else {
		sym.Assert(drv.Chdir("d") == nil, "changing to an existing directory succeeds")
		f, err := drv.Open("f")
		sym.Assert(err == nil, "opening succeeds")
		sym.Assert(f.Chdir() != nil, "changing to an open file fails")
		wd, _ := drv.Getwd()
		sym.Assert(wd == "/d", "a failed change leaves the working directory alone")
	}
}

// H_Long: paths of many components, a few of them any, from several working directories.
func H_Long() {
	_, drv := volume()
	cwd := []string{"/", "/d/e"}[sym.Choice(2)]
	sym.Assert(drv.Chdir(cwd) == nil, "changing to an existing directory succeeds")
	n := (8 << sym.Choice(sym.Bound("components, a power of two from 8: powers", 6, 8))) - 1 + sym.Choice(3)
	path := []string{"", "/"}[sym.Choice(2)]
	down := sym.Choice(2) == 1
	for i := 0; i < n; i++ {
		c := "name"
		if down && i >= n/3 {
			c = ".."
		}
		if i == n/2 || i == n-1 {
			c = []string{"", ".", "..", "a"}[sym.Choice(4)]
		}
		path += c + "/"
	}
	path += []string{"", "x", "..", string([]byte{sym.Byte()})}[sym.Choice(4)]
	got := drv.NormalizePath(path)
	checkForm(got)
	sym.Assert(got == hlib.Clean(cwd, path), "paths are cleaned lexically against the working directory")
	sym.Assert(drv.NormalizePath(got) == got, "normalising is idempotent")
	sym.Cover("long")
}
