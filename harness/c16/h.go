// Package c16: mount permissions are enforced on every operation.
package c16

import (
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

const (
	wr  = disko.MountFlagsAllowWrite
	ins = disko.MountFlagsAllowInsert
	del = disko.MountFlagsAllowDelete
	adm = disko.MountFlagsAllowAdminister
)

type vol struct {
	fs    *hlib.MemFS
	drv   *driver.BaseDriver
	snap  *hlib.Snap
	flags disko.MountFlags
	isNew map[*hlib.Node]bool
}

// volume is mounted with an arbitrary flag word.
func volume() *vol {
	v := &vol{fs: hlib.NewMemFS(2)}
	d := v.fs.Dir(v.fs.Root, "d")
	v.fs.File(d, "f", sym.Bytes(3))
	v.fs.File(v.fs.Root, "g", sym.Bytes(2))
	v.fs.Dir(v.fs.Root, "e")
	v.fs.Symlink(v.fs.Root, "lf", "d/f")
	v.fs.Symlink(v.fs.Root, "ld", "d")
	v.flags = disko.MountFlags(sym.Int())
	v.drv = driver.New(v.fs, v.flags)
	v.snap = v.fs.Save()
	return v
}

func refused(err error) bool {
	return hlib.Is(err, disko.ErrReadOnlyFileSystem) || hlib.Is(err, disko.ErrNotPermitted)
}

// rules checks what holds whatever was done.
func (v *vol) rules() {
	for _, m := range v.fs.Mods {
		switch m.Op {
		case "create", "link":
			sym.Assert(v.flags&ins != 0, "without insert permission nothing is created")
		case "unlink":
			sym.Assert(v.flags&del != 0, "without delete permission nothing is removed")
		case "chmod", "chown":
			sym.Assert(v.flags&adm != 0, "without administer permission no mode or owner changes")
		default:
			sym.Assert(v.flags&wr != 0 || v.snap.SavedOf(m.Node) == nil, "without write permission no existing object's content, size or times change")
		}
	}
}

// outcome checks an operation that needs the given permissions and is
// otherwise possible.
func (v *vol) outcome(needs disko.MountFlags, err error) bool {
	v.rules()
	if v.flags&needs == needs {
		sym.Assert(err == nil, "an operation that is allowed proceeds")
		sym.Cover("allowed")
		return true
	}
	sym.Assert(refused(err), "an operation that is not allowed is refused as not permitted")
	sym.Assert(len(v.fs.Mods) == 0, "a refused operation reaches no modifying call")
	v.snap.Same("a refused operation", nil, "")
	sym.Cover("refused")
	return false
}

// H_Ops: every operation with every flag word.
func H_Ops() {
	v := volume()
	file := []string{"d/f", "lf", "ld/f"}[sym.Choice(3)]
	any := []string{"d/f", "d", "lf"}[sym.Choice(3)]
	missing := []string{"d/n", "n", "ld/n"}[sym.Choice(3)]
	node := v.fs.Root.Kid("d").Kid("f")
	switch sym.Choice(14) {
	case 0:
		if v.outcome(wr, v.drv.Truncate(file)) {
			sym.Assert(node.Size == 0, "an allowed truncation happens")
		}
	case 1:
		err := v.drv.WriteFile(file, []byte("abcd"), 0o600)
		if v.outcome(wr, err) {
			sym.Assert(string(node.Bytes()) == "abcd", "an allowed write happens")
		}
	case 2:
		t := time.Unix(int64(1+sym.Choice(2)), 0)
		if v.outcome(wr, v.drv.Chtimes(any, t, t)) {
			w, _ := v.fs.Resolve("/"+any, true)
			sym.Assert(w.Node.Modified == t && w.Node.Accessed == t, "an allowed time change happens")
		}
	case 3:
		err := v.drv.WriteFile(missing, []byte("abcd"), 0o600)
		if v.outcome(ins, err) {
			w, _ := v.fs.Resolve("/"+missing, true)
			sym.Assert(w.Node != nil && string(w.Node.Bytes()) == "abcd", "an allowed creation happens")
		}
	case 4:
		_, err := v.drv.Create(missing)
		v.outcome(ins, err)
	case 5:
		if v.outcome(ins, v.drv.Mkdir(missing, 0o700)) {
			w, _ := v.fs.Resolve("/"+missing, true)
			sym.Assert(w.Node != nil && w.Node.IsDir(), "an allowed creation happens")
		}
	case 6:
		if v.outcome(ins, v.drv.MkdirAll(missing+"/x", 0o700)) {
			w, _ := v.fs.Resolve("/"+missing+"/x", true)
			sym.Assert(w.Node != nil && w.Node.IsDir(), "an allowed creation happens")
		}
	case 7:
		if v.outcome(ins, v.drv.Link(file, missing)) {
			w, _ := v.fs.Resolve("/"+missing, true)
			sym.Assert(w.Node == node, "an allowed link happens")
		}
	case 8:
		p := []string{"d/f", "e", "g"}[sym.Choice(3)]
		if v.outcome(del, v.drv.Remove(p)) {
			w, _ := v.fs.Resolve("/"+p, true)
			sym.Assert(w.Node == nil, "an allowed removal happens")
		}
	case 9:
		p := []string{"d", "e"}[sym.Choice(2)]
		if v.outcome(del, v.drv.RemoveAll(p)) {
			w, _ := v.fs.Resolve("/"+p, true)
			sym.Assert(w.Node == nil, "an allowed removal happens")
		}
	case 10:
		if v.outcome(adm, v.drv.Chmod(any, 0o123)) {
			w, _ := v.fs.Resolve("/"+any, true)
			sym.Assert(w.Node.Mode&0o777 == 0o123, "an allowed mode change happens")
		}
	case 11:
		if v.outcome(adm, v.drv.Chown(any, 3, 4)) {
			w, _ := v.fs.Resolve("/"+any, true)
			sym.Assert(w.Node.Uid == 3 && w.Node.Gid == 4, "an allowed owner change happens")
		}
	case 12:
		if v.outcome(adm, v.drv.Lchown(any, 3, 4)) {
			w, _ := v.fs.Resolve("/"+any, false)
			sym.Assert(w.Node.Uid == 3 && w.Node.Gid == 4, "an allowed owner change happens")
		}
	case 13: // nothing to create
		sym.Assert(v.drv.MkdirAll("d", 0o700) == nil, "nothing needs to be created")
		v.rules()
		sym.Assert(len(v.fs.Mods) == 0, "nothing needs to be created")
	}
}

// H_Open: all mount flags, all open flags, existing and missing files, then an
// operation on the handle.
func H_Open() {
	v := volume()
	flags := []disko.IOFlags{disko.O_RDONLY, disko.O_WRONLY, disko.O_RDWR}[sym.Choice(3)]
	for _, bit := range []disko.IOFlags{disko.O_APPEND, disko.O_CREATE, disko.O_TRUNC, disko.O_EXCL, disko.O_SYNC} {
		if sym.Choice(2) == 1 {
			flags |= bit
		}
	}
	p := []string{"d/f", "lf", "d/n", "ld/n"}[sym.Choice(4)]
	missing := p == "d/n" || p == "ld/n"
	file, err := v.drv.OpenFile(p, flags, 0o641)
	v.rules()
	ro := !flags.Write() && !flags.Truncate()
	switch {
	case missing && !flags.Create(), !missing && flags.Create() && flags.Exclusive():
		sym.Assert(err != nil, "impossible operations fail")
		v.snap.Same("a refused open", nil, "")
		return
	case flags.Truncate() && !flags.Write(): // left open by POSIX
	case missing:
		v.outcome(ins, err)
	case ro:
		v.outcome(0, err)
	default:
		v.outcome(wr, err)
	}
	if err != nil {
		return
	}
	var node *hlib.Node
	w, _ := v.fs.Resolve(hlib.Clean("/", p), true)
	node = w.Node
	before := append([]byte{}, node.Bytes()...)
	may := flags.Write()
	data := sym.Bytes(2)
	v.fs.Mods = nil
	admOp := false
	switch sym.Choice(7) {
	case 0:
		_, err = file.Write(data)
	case 1:
		_, err = file.WriteAt(data, 1)
		may = may && !flags.Append()
	case 2:
		err = file.Truncate(1)
	case 3:
		_, err = file.WriteString("ab")
	case 4:
		err = file.Chmod(0o123)
		admOp = true
	case 5:
		err = file.Chown(1, 2)
		admOp = true
	case 6:
		_, err = file.Read(make([]byte, 1))
		err = nil
		may = true
		sym.Assert(file.Sync() == nil, "syncing succeeds")
	}
	v.rules()
	if admOp {
		sym.Assert((err == nil) == (v.flags&adm != 0), "changing mode or owner through a handle needs administer permission")
		if err != nil {
			sym.Assert(refused(err), "an operation that is not allowed is refused as not permitted")
			sym.Assert(len(v.fs.Mods) == 0, "a refused operation reaches no modifying call")
		}
	} else {
		sym.Assert((err == nil) == may, "an operation that is allowed by the open mode proceeds")
		if !may {
			sym.Assert(refused(err), "an operation that is not allowed is refused as not permitted")
		}
	}
	sym.Assert(file.Close() == nil, "closing succeeds")
	v.rules()
	if ro {
		sym.Assert(sym.BytesEq(node.Bytes(), before), "a file opened for reading does not change")
	}
	if !missing && v.flags&wr == 0 {
		sym.Assert(sym.BytesEq(node.Bytes(), before), "without write permission no existing file changes")
	}
}

// H_Reading: operations that modify nothing work with any flags that allow
// reading and reach no modifying call.
func H_Reading() {
	v := volume()
	sym.Assume(v.flags.CanRead())
	var err error
	switch sym.Choice(7) {
	case 0:
		_, err = v.drv.ReadFile("lf")
	case 1:
		_, err = v.drv.Stat("d")
	case 2:
		_, err = v.drv.Lstat("lf")
	case 3:
		_, err = v.drv.Readlink("lf")
	case 4:
		_, err = v.drv.ReadDir("d")
	case 5:
		err = v.drv.Chdir("d")
	case 6:
		f, oerr := v.drv.Open("d/f")
		sym.Assert(oerr == nil, "an operation that is allowed proceeds")
		_, err = f.Read(make([]byte, 2))
		sym.Assert(f.Close() == nil, "closing succeeds")
	}
	sym.Assert(err == nil, "an operation that is allowed proceeds")
	sym.Assert(len(v.fs.Mods) == 0, "reading reaches no modifying call")
	v.snap.Same("reading", nil, "")
}

// H_Sequence: two operations in a row, among them writing to a file created
// just before without write permission.
func H_Sequence() {
	v := volume()
	for i := 0; i < sym.Bound("operations", 3, 4); i++ {
		switch sym.Choice(8) {
		case 0:
			v.drv.WriteFile("d/n", []byte("xy"), 0o600)
		case 1:
			v.drv.Truncate("d/f")
		case 2:
			v.drv.Remove("d/f")
		case 3:
			v.drv.Mkdir("q", 0o700)
		case 4:
			v.drv.Link("d/f", "h")
		case 5:
			v.drv.WriteFile("h", []byte("zz"), 0o600)
		case 6:
			v.drv.RemoveAll("d")
		case 7:
			v.drv.Chmod("d/n", 0o100)
		}
		v.rules()
	}
	if v.flags&(wr|ins|del|adm) == 0 {
		sym.Assert(len(v.fs.Mods) == 0, "a volume mounted without any permission stays as it is")
		v.snap.Same("a volume mounted without any permission", nil, "")
	}
}
