// Package c35: what a file system does not support is refused as not supported.
package c35

import (
	"os"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

type vol struct {
	fs  *hlib.MemFS
	drv *driver.BaseDriver
}

func (v *vol) closed() {
	sym.Assert(v.fs.Open == 0, "every handle taken is closed by the end of the operation")
}

// H_Optional: operations the file system or its handles have no interface for are
// refused as not supported and change nothing; all others work as ever.
func H_Optional() {
	v := &vol{fs: hlib.NewMemFS(2)}
	d := v.fs.Dir(v.fs.Root, "d")
	v.fs.File(d, "f", sym.Bytes(3))
	v.fs.Dir(v.fs.Root, "e")
	v.fs.Symlink(v.fs.Root, "l", "d/f")
	v.fs.Dots = sym.Choice(2) == 1
	v.fs.Strict = true
	v.fs.Bare = sym.Choice(3)
	f := &v.fs.Feat
	links := sym.Bool()
	f.HasSymbolicLinks, f.HasHardLinks, f.HasDirectories = links, sym.Bool(), sym.Bool()
	f.HasAccessedTime, f.HasModifiedTime, f.HasUnixPermissions = sym.Bool(), sym.Bool(), sym.Bool()
	f.HasUserID, f.HasGroupID = sym.Bool(), sym.Bool()
	v.drv = driver.New(hlib.NoLinks{FS: v.fs}, disko.MountFlagsAllowAll)
	before := v.fs.Save()
	p := []string{"d/f", "d", "l", "none", "/"}[sym.Choice(5)]
	op := sym.Choice(13)
	at, res := v.fs.Resolve(hlib.Clean("/", p), op != 2 && op != 6)
	var err error
	lacks := v.fs.Bare > 0
	switch op {
	case 0:
		err = v.drv.Chmod(p, os.FileMode(sym.Uint32()))
	case 1:
		err = v.drv.Chown(p, sym.Int(), sym.Int())
	case 2:
		err = v.drv.Lchown(p, sym.Int(), sym.Int())
	case 3:
		err = v.drv.Chtimes(p, time.Unix(5, 0), time.Unix(7, 0))
	case 4, 5:
		file, e := v.drv.OpenFile(p, disko.O_RDONLY, 0)
		if e != nil {
			return
		}
		if op == 4 {
			err = file.Chmod(os.FileMode(sym.Uint32()))
		} else {
			err = file.Chown(sym.Int(), sym.Int())
		}
		file.Close()
	case 6:
		_, err = v.drv.Readlink(p)
		sym.Assert((err == nil) == sym.And(links, p == "l"), "a link is read if there are links")
		lacks = !links
		if links {
			v.closed()
			return
		}
	case 7:
		err = v.drv.Link(p, "e/x")
		lacks = true
	case 8:
		l, e := v.drv.ReadDir(p)
		dir := res == hlib.Found && at.Node.IsDir()
		sym.Assert((e == nil) == (dir && v.fs.Bare < 2), "a directory is listed if it can be")
		if e == nil {
			sym.Assert(len(l) == len(at.Node.Names), "a listing has every entry")
		}
		v.closed()
		return
	case 9:
		e := v.drv.Remove(p)
		file := res == hlib.Found && (p == "l" || !at.Node.IsDir())
		sym.Assert((e == nil) == file, "files can be removed")
		v.closed()
		return
	case 10:
		e := v.drv.Mkdir("e/n", 0o700)
		n := v.fs.Root.Kid("e").Kid("n")
		sym.Assert(e == nil && n != nil && n.IsDir(), "directories can be made")
		v.closed()
		return
	case 11:
		e := v.drv.WriteFile("e/n", []byte("xyz"), 0o600)
		n := v.fs.Root.Kid("e").Kid("n")
		sym.Assert(e == nil && n != nil && string(n.Bytes()) == "xyz", "files can be written")
		v.closed()
		return
	case 12:
		b, e := v.drv.ReadFile(p)
		sym.Assert((e == nil) == (res == hlib.Found && !at.Node.IsDir()), "files can be read")
		if e == nil {
			sym.Assert(sym.BytesEq(b, at.Node.Bytes()), "what is read is the contents")
		}
		v.closed()
		return
	}
	v.closed()
	if lacks {
		before.Same("an unsupported operation", nil, "")
		sym.Assert(len(v.fs.Mods) == 0, "an unsupported operation calls nothing that modifies")
		sym.Assert(err != nil, "an unsupported operation is refused")
		if res == hlib.Found || op >= 6 {
			sym.Assert(hlib.Is(err, disko.ErrNotImplemented) || hlib.Is(err, disko.ErrNotSupported), "an unsupported operation is refused as not supported")
			sym.Cover("unsupported")
		}
	} else {
		sym.Assert((err == nil) == (res == hlib.Found), "a supported operation works")
		sym.Cover("supported")
	}
}

// H_Nop: a handle made of driver.NopObjectHandle answers every call with any
// arguments.
func H_Nop() {
	var obj disko.ObjectHandle = driver.NopObjectHandle{}
	n := sym.Choice(3)
	var err error
	switch sym.Choice(11) {
	case 0:
		err = obj.Resize(sym.Uint64())
	case 1:
		err = obj.ReadBlocks(common.LogicalBlock(sym.Uint()), make([]byte, n))
	case 2:
		err = obj.WriteBlocks(common.LogicalBlock(sym.Uint()), sym.Bytes(n))
	case 3:
		err = obj.ZeroOutBlocks(common.LogicalBlock(sym.Uint()), sym.Uint())
	case 4:
		err = obj.Unlink()
	case 5:
		h, ok := obj.(disko.SupportsChmodHandle)
		sym.Assert(ok, "the handle has a mode")
		err = h.Chmod(os.FileMode(sym.Uint32()))
	case 6:
		h, ok := obj.(disko.SupportsChownHandle)
		sym.Assert(ok, "the handle has an owner")
		err = h.Chown(sym.Int(), sym.Int())
	case 7:
		h, ok := obj.(disko.SupportsChtimesHandle)
		sym.Assert(ok, "the handle has times")
		t := time.Unix(7, 0)
		err = h.Chtimes(t, t, t, t, t)
	case 8:
		h, ok := obj.(disko.SupportsListDirHandle)
		sym.Assert(ok, "the handle has entries")
		var l []string
		l, err = h.ListDir()
		sym.Assert(l == nil, "nothing is listed")
	case 9:
		err = obj.Close()
	case 10:
		sym.Assert(obj.Stat() == disko.FileStat{} && obj.Name() == "", "everything about the object is zero")
		sym.Assert(!obj.SameAs(obj), "the object is not known to be any other")
		if h, ok := obj.(interface{ AbsolutePath() string }); ok {
			sym.Assert(h.AbsolutePath() == "", "everything about the object is zero")
			sym.Cover("path")
		}
		return
	}
	sym.Assert(hlib.Is(err, disko.ErrNotImplemented), "every operation is not implemented")
	sym.Cover("refused")
}
