// Package c18: symbolic links resolve like POSIX and resolution always
// terminates.
package c18

import (
	"errors"
	"strings"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

// target chooses an arbitrary link target of up to max components.
func target(names []string, max int) func() string {
	return func() string {
		t := ""
		if sym.Choice(2) == 1 {
			t = "/"
		}
		k := sym.Choice(max + 1)
		for i := 0; i < k; i++ {
			if i > 0 {
				t += "/"
			}
			t += names[sym.Choice(len(names))]
		}
		return t
	}
}

func path(names []string, max int) string {
	p := ""
	k := 1 + sym.Choice(max)
	for i := 0; i < k; i++ {
		p += "/" + names[sym.Choice(len(names))]
	}
	return p
}

// observe compares what one operation sees at a path with POSIX resolution.
func observe(fs *hlib.MemFS, drv *driver.BaseDriver, p string) {
	clean := hlib.Clean("/", p)
	switch sym.Choice(6) {
	case 0:
		st, err := drv.Stat(p)
		w, res := fs.Resolve(clean, true)
		sym.Assert(hlib.Kind(err, res), "stat: the outcome is that of POSIX resolution")
		if res == hlib.Found {
			sym.Assert(st.InodeNumber == uint64(w.Node.ID), "stat: the object is the one POSIX resolution finds")
			sym.Cover("found")
		}
		if res == hlib.Cycle {
			sym.Cover("cycle")
		}
	case 1:
		st, err := drv.Lstat(p)
		w, res := fs.Resolve(clean, false)
		sym.Assert(hlib.Kind(err, res), "lstat: the outcome is that of POSIX resolution")
		if res == hlib.Found {
			sym.Assert(st.InodeNumber == uint64(w.Node.ID), "lstat: a final link itself is described")
		}
	case 2:
		s, err := drv.Readlink(p)
		w, res := fs.Resolve(clean, false)
		if res != hlib.Found {
			sym.Assert(hlib.Kind(err, res), "readlink: the outcome is that of POSIX resolution")
		} else if w.Node.IsLink() {
			sym.Assert(err == nil && s == fs.Target(w.Node), "readlink: gives the target of the final link")
		} else {
			sym.Assert(err != nil, "readlink: anything but a link is refused")
		}
	case 3:
		err := drv.Lchown(p, 7, 8)
		w, res := fs.Resolve(clean, false)
		sym.Assert(hlib.Kind(err, res), "lchown: the outcome is that of POSIX resolution")
		n := 0
		for _, m := range fs.Mods {
			n++
			sym.Assert(m.Op == "chown" && m.Node == w.Node, "lchown: changes exactly a final link itself")
		}
		sym.Assert((n == 1) == (res == hlib.Found), "lchown: changes exactly a final link itself")
	case 4:
		err := drv.Chdir(p)
		w, res := fs.Resolve(clean, true)
		if res == hlib.Found && !w.Node.IsDir() {
			res = hlib.NotDir
		}
		sym.Assert(hlib.Kind(err, res), "chdir: the outcome is that of POSIX resolution")
		if err == nil {
			st, err := drv.Stat(".")
			sym.Assert(err == nil && st.InodeNumber == uint64(w.Node.ID), "chdir: goes to the directory POSIX resolution finds")
		}
	case 5:
		data, err := drv.ReadFile(p)
		w, res := fs.Resolve(clean, true)
		if res == hlib.Found && w.Node.IsDir() {
			sym.Assert(err != nil, "reading a directory as a file fails")
		} else {
			sym.Assert(hlib.Kind(err, res), "readfile: the outcome is that of POSIX resolution")
			if err == nil {
				sym.Assert(sym.BytesEq(data, w.Node.Bytes()), "readfile: the contents are those of the object POSIX resolution finds")
			}
		}
	}
	sym.Assert(len(fs.Mods) == fs.Count("chown"), "looking up paths modifies nothing")
}

// H_Graph: two links, one at the root (a) and one in a directory (d/b), with
// arbitrary targets, and all paths.
func H_Graph() {
	fs := hlib.NewMemFS(16)
	max := sym.Bound("components of a link target", 2, 3)
	names := []string{"a", "b", "d", "f", ".."}
	d := fs.Dir(fs.Root, "d")
	fs.File(d, "f", sym.Bytes(2))
	fs.LazyLink(fs.Root, "a", target(names, max))
	fs.LazyLink(d, "b", target(names, max))
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	observe(fs, drv, path([]string{"a", "b", "d", "f"}, sym.Bound("components of a path", 2, 3)))
}

// only checks that exactly one object was changed, by one kind of call.
func only(fs *hlib.MemFS, op string, n *hlib.Node, what string) {
	ok := len(fs.Mods) > 0
	for _, m := range fs.Mods {
		ok = ok && m.Op == op && m.Node == n
	}
	sym.Assert(ok, what)
}

// change compares what one operation changes at a path with POSIX resolution.
func change(fs *hlib.MemFS, drv *driver.BaseDriver, p string) {
	clean := hlib.Clean("/", p)
	kind := sym.Choice(8)
	follow := kind < 4
	w, res := fs.Resolve(clean, follow)
	var dir *hlib.Node
	name := ""
	if kind >= 6 {
		d := hlib.Components(clean)
		if len(d) == 0 {
			return
		}
		name = d[len(d)-1]
		u, r := fs.Resolve(hlib.Clean("/", clean+"/.."), true)
		if r == hlib.Found && !u.Node.IsDir() {
			r = hlib.NotDir
		}
		if r == hlib.Found {
			dir = u.Node
		} else {
			res = r
		}
	}
	var err error
	op := ""
	switch kind {
	case 0:
		op, err = "chmod", drv.Chmod(p, 0o600)
	case 1:
		op, err = "chown", drv.Chown(p, 7, 8)
	case 2:
		op, err = "chtimes", drv.Chtimes(p, time.Unix(5, 0), time.Unix(6, 0))
	case 3:
		op, err = "resize", drv.Truncate(p)
		if res == hlib.Found && w.Node.IsDir() {
			sym.Assert(hlib.Is(err, disko.ErrIsADirectory) && len(fs.Mods) == 0, "truncating a directory is refused")
			return
		}
	case 4:
		if res == hlib.Found && (w.Node == fs.Root || len(w.Node.Names) > 0) {
			return
		}
		op, err = "unlink", drv.Remove(p)
	case 5:
		if res == hlib.Found && (w.Node == fs.Root || len(w.Node.Names) > 0 || !w.Node.IsDir()) {
			return
		}
		op, err = "unlink", drv.RemoveAll(p)
	case 6:
		err = drv.Mkdir(p, 0o700)
	case 7:
		_, err = drv.Create(p)
	}
	if kind >= 6 {
		if dir != nil && res == hlib.Found {
			sym.Assert(hlib.Is(err, disko.ErrExists) && len(fs.Mods) == 0, "nothing is created over a link, wherever it leads")
			sym.Cover("exists")
			return
		}
		if dir != nil && res == hlib.NotFound {
			sym.Assert(err == nil && fs.Count("create") == 1 && dir.Kid(name) != nil, "creation happens in the directory POSIX resolution finds")
			sym.Cover("created")
			return
		}
		sym.Assert(hlib.Kind(err, res) && len(fs.Mods) == 0, "creation: the outcome is that of POSIX resolution")
		return
	}
	sym.Assert(hlib.Kind(err, res), op+": the outcome is that of POSIX resolution")
	if res == hlib.Found {
		only(fs, op, w.Node, op+": changes the object POSIX resolution finds")
		sym.Cover(op)
	} else {
		sym.Assert(len(fs.Mods) == 0, op+": changes nothing else")
	}
}

// H_Change: operations that change things, through links with arbitrary
// targets.
func H_Change() {
	fs := hlib.NewMemFS(16)
	max := sym.Bound("components of a link target", 2, 3)
	names := []string{"a", "b", "d", "f", ".."}
	d := fs.Dir(fs.Root, "d")
	fs.File(d, "f", sym.Bytes(2))
	fs.Dir(d, "e")
	fs.LazyLink(fs.Root, "a", target(names, max))
	fs.LazyLink(d, "b", target(names, max))
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	change(fs, drv, path([]string{"a", "b", "d", "f", "e"}, 2))
}

// H_ThreeLinks: three links in one directory with short targets: chains,
// cycles and links through links.
func H_ThreeLinks() {
	fs := hlib.NewMemFS(16)
	names := []string{"a", "b", "c", "d", "x"}
	max := sym.Bound("components of the second and third link's targets", 1, 2)
	d := fs.Dir(fs.Root, "d")
	fs.Dir(d, "x")
	fs.LazyLink(fs.Root, "a", target(names, 2))
	fs.LazyLink(fs.Root, "b", target(names, max))
	fs.LazyLink(fs.Root, "c", target(names, max))
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	p := []string{"a", "a/x", "d/a", "a/b", "b/../a"}[sym.Choice(5)]
	clean := hlib.Clean("/", p)
	st, err := drv.Stat(p)
	w, res := fs.Resolve(clean, true)
	sym.Assert(hlib.Kind(err, res), "stat: the outcome is that of POSIX resolution")
	if res == hlib.Found {
		sym.Assert(st.InodeNumber == uint64(w.Node.ID), "stat: the object is the one POSIX resolution finds")
	}
	if res == hlib.Cycle {
		sym.Cover("cycle")
	}
}

// H_SymbolicTarget: the target of a link is an arbitrary byte string.
func H_SymbolicTarget() {
	fs := hlib.NewMemFS(2) // targets take several blocks
	d := fs.Dir(fs.Root, "d")
	e := fs.Dir(d, "e")
	fs.File(d, "f", nil)
	t := sym.String(sym.Choice(sym.Bound("bytes of a link target", 4, 6) + 1))
	fs.Symlink(e, "l", t)
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	observe(fs, drv, []string{"d/e/l", "d/e/l/f", "d/e/l/d/f"}[sym.Choice(3)])
}

// H_Chain: chains of links of any reasonable length resolve.
func H_Chain() {
	fs := hlib.NewMemFS(16)
	fs.Dir(fs.Root, "d")
	names := []string{"l0", "l1", "l2", "l3", "l4", "l5", "l6", "l7"}
	k := sym.Choice(len(names)) + 1
	end := []string{"d", "nothing", "l0"}[sym.Choice(3)]
	for i := 0; i < k; i++ {
		t := end
		if i < k-1 {
			t = names[i+1]
		}
		if sym.Choice(2) == 1 {
			t = "/" + t
		}
		fs.Symlink(fs.Root, names[i], t)
	}
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	p := []string{"/l0", "/l0/."}[sym.Choice(2)]
	_, err := drv.Stat(p)
	_, res := fs.Resolve("/l0", true)
	sym.Assert(hlib.Kind(err, res), "chains of links resolve to their end")
}

// H_LongChain: chains of up to 24 links, and paths that lead through as many.
func H_LongChain() {
	fs := hlib.NewMemFS(16)
	d := fs.Dir(fs.Root, "d")
	f := fs.File(d, "f", sym.Bytes(2))
	k := []int{9, 15, 16, 17, 20, 24}[sym.Choice(6)]
	abs := ""
	if sym.Choice(2) == 1 { // long targets
		abs = strings.Repeat("./", []int{64, 128, 600}[sym.Choice(3)])
	}
	if sym.Choice(2) == 1 {
		abs = "/d/" + abs
	}
	p := "/d/f"
	if sym.Choice(2) == 1 {
		t := "f"
		for i := 0; i < k; i++ {
			name := "l" + string(rune('a'+i))
			fs.Symlink(d, name, abs+t)
			t = name
		}
		p = "/d/" + t
	} else {
		fs.Symlink(d, "l", abs+".")
		p = "/d"
		for i := 0; i < k; i++ {
			p += "/l"
		}
		p += "/f"
	}
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	got, err := drv.ReadFile(p)
	sym.Assert(err == nil && sym.BytesEq(got, f.Bytes()), "a path through many links resolves")
	_, err = drv.Stat(p + "/x")
	sym.Assert(errors.Is(err, disko.ErrNotADirectory), "a file used as a directory is reported as such")
	sym.Cover("many links")
}

// H_Faults: a failure of the file system during resolution is returned, and
// resolution does not pretend the object is missing.
func H_Faults() {
	fs := hlib.NewMemFS(2)
	d := fs.Dir(fs.Root, "d")
	fs.File(d, "f", sym.Bytes(2))
	fs.Symlink(fs.Root, "a", "d")
	fs.Symlink(d, "b", "../a/f")
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	fs.Armed = true
	p := []string{"a", "d/b", "a/b", "a/f"}[sym.Choice(4)]
	var err error
	switch sym.Choice(4) {
	case 0:
		_, err = drv.Stat(p)
	case 1:
		_, err = drv.Lstat(p)
	case 2:
		_, err = drv.Readlink(p)
		if p == "a/f" {
			sym.Assert(err != nil, "readlink: anything but a link is refused")
			return
		}
	case 3:
		err = drv.Lchown(p, 1, 2)
	}
	sym.Assert((err != nil) == fs.Fault, "a failure during resolution is returned")
	if err != nil {
		sym.Assert(!hlib.Is(err, disko.ErrNotFound), "a failure during resolution is not a missing object")
	}
}
