// Package c17: directory operations keep the tree well-formed.
package c17

import (
	"os"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

// grow fills a directory with arbitrary files and directories.
func grow(fs *hlib.MemFS, dir *hlib.Node, names []string, depth int) {
	for _, n := range names {
		switch sym.Choice(3) {
		case 1:
			fs.File(dir, n, sym.Bytes(1))
		case 2:
			d := fs.Dir(dir, n)
			if depth > 0 {
				grow(fs, d, names, depth-1)
			}
		}
	}
}

func dirname(p string) (string, string) {
	c := hlib.Components(p)
	if len(c) == 0 {
		return "/", "/"
	}
	d := ""
	for _, x := range c[:len(c)-1] {
		d += "/" + x
	}
	if d == "" {
		d = "/"
	}
	return d, c[len(c)-1]
}

// parentOf resolves the directory a new name goes to (nil if there is none or
// the name is taken).
func parentOf(fs *hlib.MemFS, p string) (*hlib.Node, string) {
	if p == "/" {
		return nil, ""
	}
	d, name := dirname(p)
	w, res := fs.Resolve(d, true)
	if res != hlib.Found || !w.Node.IsDir() || w.Node.Kid(name) != nil {
		return nil, ""
	}
	return w.Node, name
}

// refusals are the errors a new name can be refused with.
func refusals(fs *hlib.MemFS, p string) []error {
	if p == "/" {
		return []error{disko.ErrExists}
	}
	d, name := dirname(p)
	w, res := fs.Resolve(d, true)
	switch {
	case res != hlib.Found:
		return kinds(res)
	case !w.Node.IsDir():
		return []error{disko.ErrNotADirectory}
	case w.Node.Kid(name) != nil:
		return []error{disko.ErrExists}
	}
	return nil
}

// kinds are the errors for the outcome of path resolution.
func kinds(res int) []error {
	switch res {
	case hlib.NotFound:
		return []error{disko.ErrNotFound}
	case hlib.NotDir:
		return []error{disko.ErrNotADirectory}
	case hlib.Cycle:
		return []error{disko.ErrLinkCycleDetected}
	}
	return nil
}

// refused checks that an operation was refused for one of the reasons.
func refused(fs *hlib.MemFS, err error, why []error, what string) {
	sym.Assert(err != nil, what)
	if fs.Fault {
		return
	}
	ok := false
	for _, w := range why {
		ok = ok || hlib.Is(err, w)
	}
	sym.Assert(ok, what+", with the error that says why")
}

func subtree(n *hlib.Node) []*hlib.Node {
	out := []*hlib.Node{n}
	for _, k := range n.Kids {
		out = append(out, subtree(k)...)
	}
	return out
}

func newDir(snap *hlib.Snap, n *hlib.Node, perm os.FileMode) {
	sym.Assert(n != nil && snap.SavedOf(n) == nil, "a directory is created under the name")
	sym.Assert(n.Mode&os.ModeType == os.ModeDir, "the new object is a directory and nothing else")
	sym.Assert(n.Mode&os.ModePerm == perm&os.ModePerm, "the new directory has the permissions given")
	sym.Assert(n.Mode&^(os.ModeDir|perm) == 0, "the new directory has no mode flags that weren't given")
}

// op runs one operation and checks its outcome. With faults, only what must
// hold whatever fails is checked.
func op(fs *hlib.MemFS, drv *driver.BaseDriver, kind int, p, p2 string) {
	clean := hlib.Clean("/", p)
	snap := fs.Save()
	fs.Mods = nil
	fs.Fault = false
	perm := os.FileMode(sym.Uint32())
	var err error
	switch kind {
	case 0:
		parent, name := parentOf(fs, clean)
		why := refusals(fs, clean)
		err = drv.Mkdir(p, perm)
		if parent == nil || fs.Fault {
			refused(fs, err, why, "mkdir: an existing name or a missing parent is refused")
			snap.Same("a refused mkdir", nil, "")
			break
		}
		sym.Assert(err == nil, "mkdir: succeeds")
		n := parent.Kid(name)
		newDir(snap, n, perm)
		sym.Assert(len(n.Names) == 0, "mkdir: the new directory is empty")
		snap.Same("mkdir", parent, name)
		sym.Assert(fs.Count("create") == 1, "mkdir: exactly one directory is created")
		sym.Cover("mkdir")
	case 1:
		mkdirAll(fs, drv, clean, p, perm, snap)
		return
	case 2:
		w, res := fs.Resolve(clean, false)
		why := kinds(res)
		if res == hlib.Found && w.Node == fs.Root {
			why = append(why, disko.ErrPermissionDenied)
		} else if res == hlib.Found && len(w.Node.Names) > 0 {
			why = append(why, disko.ErrDirectoryNotEmpty)
		}
		err = drv.Remove(p)
		if res != hlib.Found || w.Node == fs.Root || len(w.Node.Names) > 0 || fs.Fault {
			refused(fs, err, why, "remove: anything but an existing file or empty directory is refused")
			snap.Same("a refused remove", nil, "")
			break
		}
		sym.Assert(err == nil, "remove: succeeds")
		sym.Assert(w.Parent.Kid(w.Name) == nil, "remove: the name is gone")
		snap.Same("remove", w.Parent, w.Name)
		sym.Assert(fs.Count("unlink") == 1, "remove: exactly one object is removed")
		sym.Cover("remove")
	case 3:
		w, res := fs.Resolve(clean, false)
		var below []*hlib.Node
		if res == hlib.Found {
			below = subtree(w.Node)
		}
		err = drv.RemoveAll(p)
		switch {
		case res != hlib.Found || w.Node == fs.Root:
			if res == hlib.Found {
				refused(fs, err, []error{disko.ErrPermissionDenied}, "removeall: the root directory is never removed")
			}
			snap.Same("a refused removeall", nil, "")
		case !w.Node.IsDir():
			if err != nil {
				snap.Same("a refused removeall", nil, "")
			} else {
				snap.Same("removeall of a file", w.Parent, w.Name)
			}
		case fs.Fault:
			snap.Same("a failing removeall", w.Parent, w.Name, below...)
			for _, n := range below {
				for i, k := range n.Kids {
					sym.Assert(n.Names[i] != "" && snap.SavedOf(k) != nil, "removeall: creates nothing")
				}
			}
		default:
			sym.Assert(err == nil, "removeall: succeeds")
			sym.Assert(w.Parent.Kid(w.Name) == nil, "removeall: the directory is gone")
			for _, n := range below {
				names := 0
				for _, m := range below {
					if m == n {
						names++
					}
				}
				sym.Assert(n.Nlink == snap.SavedOf(n).Nlink-names && len(n.Names) == 0, "removeall: everything below the directory is gone")
			}
			snap.Same("removeall", w.Parent, w.Name, below...)
			sym.Cover("removeall")
		}
	case 4:
		w, res := fs.Resolve(clean, true)
		parent, name := parentOf(fs, hlib.Clean("/", p2))
		why := append(kinds(res), refusals(fs, hlib.Clean("/", p2))...)
		if res == hlib.Found && w.Node.IsDir() {
			why = append(why, disko.ErrIsADirectory)
		}
		err = drv.Link(p, p2)
		if res != hlib.Found || w.Node.IsDir() || parent == nil || fs.Fault {
			refused(fs, err, why, "link: directories, missing files and existing targets are refused")
			snap.Same("a refused link", nil, "")
			break
		}
		sym.Assert(err == nil, "link: succeeds")
		sym.Assert(parent.Kid(name) == w.Node, "link: the new name is the same file")
		sym.Assert(w.Node.Nlink == snap.SavedOf(w.Node).Nlink+1, "link: exactly one name is made")
		snap.Same("link", parent, name)
		sym.Cover("link")
	case 5:
		w, res := fs.Resolve(clean, true)
		ents, rerr := drv.ReadDir(p)
		err = rerr
		snap.Same("readdir", nil, "")
		if res != hlib.Found || !w.Node.IsDir() || fs.Fault {
			why := kinds(res)
			if res == hlib.Found {
				why = append(why, disko.ErrNotADirectory)
			}
			refused(fs, err, why, "readdir: anything but an existing directory is refused")
			break
		}
		sym.Assert(err == nil, "readdir: succeeds")
		sym.Assert(len(ents) == len(w.Node.Names), "readdir: every entry is listed exactly once")
		for _, name := range w.Node.Names {
			found := 0
			for _, e := range ents {
				if e.Name() == name {
					found++
					st := fs.Stat(w.Node.Kid(name))
					sym.Assert(e.Stat() == st, "readdir: an entry has its own attributes")
					sym.Assert(e.IsDir() == st.ModeFlags.IsDir() && e.Type()&os.ModeType == st.ModeFlags&os.ModeType, "readdir: an entry has its own type")
					info, ierr := e.Info()
					sym.Assert(ierr == nil && info.Name() == name && info.Size() == st.Size && info.Mode() == st.ModeFlags, "readdir: an entry's information is its own")
				}
			}
			sym.Assert(found == 1, "readdir: every entry is listed exactly once")
		}
		sym.Cover("readdir")
	}
	if fs.Fault {
		sym.Assert(err != nil, "a failure of the file system is returned")
	}
	if kind != 5 && kind != 3 && err != nil && !fs.Fault {
		sym.Assert(len(fs.Mods) == 0, "a refused operation modifies nothing")
	}
}

func mkdirAll(fs *hlib.MemFS, drv *driver.BaseDriver, clean, p string, perm os.FileMode, snap *hlib.Snap) {
	comps := hlib.Components(clean)
	prefix := ""
	bad := false
	var why []error
	first := len(comps)
	var base *hlib.Node = fs.Root
	for i, c := range comps {
		prefix += "/" + c
		w, res := fs.Resolve(prefix, true)
		if res == hlib.NotFound && base.Kid(c) == nil {
			first = i
			break
		}
		if res != hlib.Found || !w.Node.IsDir() {
			bad = true
			// what is in the way: a link that leads nowhere, or not a directory
			why = append(kinds(res), disko.ErrNotADirectory, disko.ErrExists)
			break
		}
		base = w.Node
	}
	err := drv.MkdirAll(p, perm)
	if fs.Fault {
		sym.Assert(err != nil, "a failure of the file system is returned")
	}
	if bad {
		refused(fs, err, why, "mkdirall: a file in the way is refused")
		snap.Same("a refused mkdirall", nil, "")
		return
	}
	name := ""
	if first < len(comps) {
		name = comps[first]
		snap.Same("mkdirall", base, name)
	} else {
		snap.Same("mkdirall of an existing directory", nil, "")
	}
	if fs.Fault {
		return
	}
	sym.Assert(err == nil, "mkdirall: succeeds")
	sym.Assert(fs.Count("create") == len(comps)-first && len(fs.Mods) == len(comps)-first, "mkdirall: exactly the missing directories are created")
	n := base
	for _, c := range comps[first:] {
		n = n.Kid(c)
		newDir(snap, n, perm)
		sym.Cover("mkdirall")
	}
	if first < len(comps) {
		sym.Assert(len(n.Names) == 0, "mkdirall: the new directory is empty")
	}
}

var paths = []string{"/", "a", "b", "c", "a/a", "a/b", "b/a", "a/c", "c/a", "a/a/c", "c/c/c", "./a/../b", ".."}

func pick(max int) string { return paths[sym.Choice(max)] }

// H_AnyTree: any small tree, any operation on any path in it.
func H_AnyTree() {
	fs := hlib.NewMemFS(4)
	fs.Dots = sym.Choice(2) == 1
	if !fs.Dots && sym.Choice(2) == 1 {
		fs.One = []string{".", ".."}[sym.Choice(2)]
	}
	grow(fs, fs.Root, []string{"a", "b"}, 1)
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	kind := sym.Choice(6)
	p2 := ""
	if kind == 4 {
		p2 = pick(len(paths))
	}
	op(fs, drv, kind, pick(len(paths)), p2)
}

// H_DeepTree: recursive operations on deeper trees.
func H_DeepTree() {
	fs := hlib.NewMemFS(4)
	fs.Dots = sym.Choice(2) == 1
	top := fs.Dir(fs.Root, "a")
	fs.File(fs.Root, "b", sym.Bytes(1))
	grow(fs, top, []string{"a", "b"}, sym.Bound("levels below /a", 1, 2))
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	op(fs, drv, []int{1, 2, 3, 5}[sym.Choice(4)], []string{"a", "a/a", "a/a/b", "a/b/a/b"}[sym.Choice(4)], "")
}

// H_Sequence: sequences of operations.
func H_Sequence() {
	fs := hlib.NewMemFS(4)
	fs.Dots = true
	d := fs.Dir(fs.Root, "a")
	fs.File(d, "a", sym.Bytes(1))
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	for i := 0; i < sym.Bound("operations", 3, 4); i++ {
		kind := sym.Choice(6)
		p := []string{"a", "b", "a/a", "a/b", "b/a"}[sym.Choice(5)]
		p2 := ""
		if kind == 4 {
			p2 = []string{"b", "a/b", "b/b"}[sym.Choice(3)]
		}
		op(fs, drv, kind, p, p2)
	}
}

// H_Cwd: the same with relative paths in another working directory.
func H_Cwd() {
	fs := hlib.NewMemFS(4)
	a := fs.Dir(fs.Root, "a")
	fs.File(a, "f", sym.Bytes(1))
	fs.File(fs.Dir(a, "s"), "g", sym.Bytes(1))
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	sym.Assert(drv.Chdir("a") == nil, "changing directory succeeds")
	snap := fs.Save()
	switch sym.Choice(7) {
	case 0:
		sym.Assert(drv.Mkdir("n", 0o700) == nil && a.Kid("n") != nil, "relative mkdir works in the working directory")
		snap.Same("mkdir", a, "n")
	case 1:
		sym.Assert(drv.MkdirAll("n/m", 0o700) == nil && a.Kid("n").Kid("m") != nil, "relative mkdirall works in the working directory")
		snap.Same("mkdirall", a, "n")
	case 2:
		sym.Assert(drv.Remove("f") == nil && a.Kid("f") == nil, "relative remove works in the working directory")
		snap.Same("remove", a, "f")
	case 3:
		s := subtree(a.Kid("s"))
		sym.Assert(drv.RemoveAll("s") == nil && a.Kid("s") == nil, "relative removeall works in the working directory")
		snap.Same("removeall", a, "s", s...)
	case 4:
		sym.Assert(drv.RemoveAll("..") != nil, "removeall: the root directory is never removed")
		snap.Same("a refused removeall", nil, "")
	case 5:
		sym.Assert(drv.Link("f", "s/h") == nil && a.Kid("s").Kid("h") == a.Kid("f"), "relative links work in the working directory")
		snap.Same("link", a.Kid("s"), "h")
	case 6:
		ents, err := drv.ReadDir("s")
		sym.Assert(err == nil && len(ents) == 1 && ents[0].Name() == "g", "relative readdir works in the working directory")
	}
}

// H_Links: trees with symbolic links. Removing never touches what a link
// points to.
func H_Links() {
	fs := hlib.NewMemFS(4)
	a := fs.Dir(fs.Root, "a")
	fs.File(a, "f", sym.Bytes(2))
	e := fs.Dir(fs.Root, "e")
	fs.Symlink(e, "ld", "/a")
	fs.Symlink(e, "lf", "../a/f")
	fs.Symlink(e, "lx", "gone")
	fs.Symlink(fs.Root, "l", "a")
	fs.Symlink(fs.Root, "x", "gone")
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	fs.Armed = sym.Choice(2) == 1
	switch sym.Choice(6) {
	case 0:
		op(fs, drv, 0, []string{"x", "l", "l/n", "x/n", "e/lf"}[sym.Choice(5)], "")
	case 1:
		op(fs, drv, 1, []string{"l", "l/n/m", "x", "x/n", "e/lf/n", "e/ld/n"}[sym.Choice(6)], "")
	case 2:
		op(fs, drv, 2, []string{"l", "x", "e/lf", "l/f", "e/ld"}[sym.Choice(5)], "")
	case 3:
		op(fs, drv, 3, []string{"e", "a", "l/f"}[sym.Choice(3)], "")
	case 4:
		op(fs, drv, 4, []string{"l/f", "a/f", "l"}[sym.Choice(3)], []string{"x", "l/n", "e/lx", "l", "n"}[sym.Choice(5)])
	case 5:
		op(fs, drv, 5, []string{"l", "e", "x", "e/ld", "e/lf"}[sym.Choice(5)], "")
	}
}

// H_HardLinks: files with several names lose only the name removed.
func H_HardLinks() {
	fs := hlib.NewMemFS(4)
	a := fs.Dir(fs.Root, "a")
	fs.File(a, "f", sym.Bytes(2))
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	op(fs, drv, 4, "a/f", "g")
	if sym.Choice(2) == 1 {
		op(fs, drv, 2, []string{"a/f", "g"}[sym.Choice(2)], "")
	} else {
		f := a.Kid("f")
		sym.Assert(drv.RemoveAll("a") == nil, "removeall: succeeds")
		sym.Assert(fs.Root.Kid("a") == nil && fs.Root.Kid("g") == f && f.Nlink == 1, "removeall: another name of a file stays")
	}
}

// H_Faults: any call into the file system fails; the failure is returned and
// nothing beyond the operation's target changes.
func H_Faults() {
	fs := hlib.NewMemFS(4)
	fs.Dots = true
	a := fs.Dir(fs.Root, "a")
	fs.File(a, "f", sym.Bytes(1))
	fs.File(fs.Dir(a, "s"), "g", sym.Bytes(1))
	fs.Dir(a, "t")
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	fs.Armed, fs.Stuck = true, sym.Choice(2) == 1
	kind := sym.Choice(6)
	ps := []string{"a", "a/f", "a/s", "a/t", "a/n", "n", "n/m/o", "a/n/m"}
	p2 := ""
	if kind == 4 {
		p2 = []string{"n", "a/n", "a/t/n", "a/f"}[sym.Choice(4)]
	}
	p := ps[sym.Choice(len(ps))]
	op(fs, drv, kind, p, p2)
	if fs.Fault {
		sym.Cover("fault")
		fs.Armed, fs.Stuck = false, false
		op(fs, drv, kind, p, p2) // the driver is still usable
	}
}

// anyName is any name of up to max bytes an entry can have.
func anyName(max int) string {
	s := sym.String(1 + sym.Choice(max))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != '/')
	}
	sym.Assume(s != "." && s != "..")
	return s
}

// H_EntryNames: entries with arbitrary names (any bytes) below a directory that is
// listed, removed, or removed with everything in it.
func H_EntryNames() {
	fs := hlib.NewMemFS(4)
	fs.Dots = sym.Choice(2) == 1
	d := fs.Dir(fs.Root, "d")
	a := anyName(3)
	b := []string{"...", "..d", ".", "b"}[sym.Choice(4)]
	add := func(dir *hlib.Node, n string) {
		if n == "." {
			return
		}
		if sym.Choice(2) == 1 {
			fs.File(fs.Dir(dir, n), []string{"f", ".f"}[sym.Choice(2)], sym.Bytes(1))
		} else {
			fs.File(dir, n, sym.Bytes(1))
		}
	}
	sym.Assume(a != b)
	add(d, a)
	add(d, b)
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	op(fs, drv, []int{2, 3, 5}[sym.Choice(3)], []string{"d", "d/" + a}[sym.Choice(2)], "")
}

// H_Names: arbitrary names in the tree and in the path (any bytes).
func H_Names() {
	fs := hlib.NewMemFS(4)
	max := sym.Bound("bytes of a name", 2, 3)
	name := func() string { return anyName(max) }
	a := name()
	d := fs.Dir(fs.Root, a)
	fs.File(d, "f", sym.Bytes(1))
	b := name()
	sym.Assume(a != b)
	fs.File(fs.Root, b, sym.Bytes(1))
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	kind := sym.Choice(6)
	p := "/" + name()
	if sym.Choice(2) == 1 {
		p = p + "/" + name()
	}
	p2 := ""
	if kind == 4 {
		p = []string{"/" + a + "/f", "/" + b, "/" + a}[sym.Choice(3)]
		p2 = "/" + name()
	}
	op(fs, drv, kind, p, p2)
}

// H_Large: directories of many entries, files and directories in turn; recursive
// operations on deep paths.
func H_Large() {
	fs := hlib.NewMemFS(4)
	fs.Dots = sym.Choice(2) == 1
	drv := driver.New(fs, disko.MountFlagsAllowAll)
	fs.File(fs.Root, "b", sym.Bytes(1))
	if sym.Choice(2) == 0 {
		d := fs.Dir(fs.Root, "d")
		n := (8 << sym.Choice(sym.Bound("entries, a power of two from 8: powers", 5, 7))) - 1 + sym.Choice(3)
		kind := sym.Choice(3)
		for i := 0; i < n; i++ {
			name := string([]byte{'e', byte('0' + i/1000), byte('0' + i/100%10), byte('0' + i/10%10), byte('0' + i%10)})
			if kind == 0 || kind == 2 && i%3 == 1 {
				fs.File(fs.Dir(d, name), "f", nil)
			} else {
				fs.File(d, name, nil)
			}
		}
		op(fs, drv, []int{1, 2, 3, 5}[sym.Choice(4)], []string{"d", "d/e0000", "d/e0007", "d/x"}[sym.Choice(4)], "")
		sym.Cover("many")
		return
	}
	depth := (8 << sym.Choice(sym.Bound("levels, a power of two from 8: powers", 3, 4))) - 1 + sym.Choice(3)
	p, d := "", fs.Root
	made := []int{0, 1, depth / 2, depth - 1, depth}[sym.Choice(5)]
	for i := 0; i < depth; i++ {
		name := string([]byte{'n', byte('0' + i/10), byte('0' + i%10)})
		if i < made {
			d = fs.Dir(d, name)
			if i%5 == 0 {
				fs.File(d, "f", nil)
			}
		}
		p += "/" + name
	}
	op(fs, drv, []int{1, 2, 3, 5}[sym.Choice(4)], p[:4*[]int{1, 2, depth - 1, depth}[sym.Choice(4)]], "")
	sym.Cover("deep")
}
