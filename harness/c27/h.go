// Package c27: removing and changing FAT files.
package c27

import (
	"errors"
	"os"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
	"github.com/dargueta/disko/zz_verif/hfat"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

// place puts an entry into the root directory, or into a directory /D in cluster n+1.
// Before it comes another file, or a deleted one of the same name.
func place(v *hfat.Volume, r fat.RawDirent, anySpelling bool) (path string, parent fat.ClusterID) {
	other := hfat.Entry("A", "", 0, 3, 5)
	if sym.Choice(2) == 1 {
		other = hfat.Entry("\xe5", "TXT", 0x20, 3, 5)
		other.CreatedTimeMillis = 'F'
	}
	v.AddRoot(other)
	if sym.Choice(2) == 0 {
		v.AddRoot(r)
		return spelled(anySpelling, "/F.TXT", "F.TXT", "//F.TXT", "./F.TXT", "/F.TXT/", "/X/../F.TXT", "/F.TXT/."), 0
	}
	dir := fat.ClusterID(v.N + 1)
	v.AddRoot(hfat.Entry("D", "", fat.AttrDirectory, dir, 0))
	v.Image = make([]byte, int(v.Boot.BytesPerSector)*(int(v.Boot.FirstDataSector)+v.N*int(v.Boot.SectorsPerCluster)))
	v.Put(v.N+1, 0, other)
	v.Put(v.N+1, 1, r)
	v.Table[v.N-1] = 0xFFFF
	return spelled(anySpelling, "/D/F.TXT", "D/F.TXT", "/D//F.TXT/", "/D/X/../F.TXT", "/D/F.TXT/./", "/F.TXT/../D/F.TXT"), dir
}

// spelled is one of the spellings of a path, or the first.
func spelled(any bool, paths ...string) string {
	if any {
		return paths[sym.Choice(len(paths))]
	}
	return paths[0]
}

// checkOps checks that the changes made so far are the deletion of the entry, then
// the clusters of the chain from its end to its beginning, with nothing after a
// failure.
func checkOps(v *hfat.Volume, path string, parent fat.ClusterID, chain []fat.ClusterID, first fat.ClusterID) {
	for i, o := range v.Ops {
		sym.Assert(i == len(v.Ops)-1 || !o.Failed, "nothing is changed after a failure")
		if i == 0 {
			sym.Assert(o.Kind == "delete", "the entry is deleted before anything is freed")
			sym.Assert(o.Entry.Name() == "F.TXT" && o.Entry.FirstCluster == first, "the entry of the file is deleted")
			sym.Assert(o.Parent.IsDir() && o.Parent.FirstCluster == parent, "the entry is deleted from its directory")
			continue
		}
		sym.Assert(o.Kind == "free", "the clusters are freed")
		sym.Assert(i <= len(chain), "no more clusters are freed than the file has")
		sym.Assert(o.Cluster == chain[len(chain)-i], "the file's clusters are freed from the end of the chain to its beginning")
	}
}

// H_Remove: files with any chain, in the root directory or below, under any spelling of
// their path; a failure at any step.
func H_Remove() {
	n := sym.Bound("clusters of the volume", 4, 5)
	v := hfat.New(n, 32, 2, 1)
	v.AnyTable()
	v.Valid = sym.Bool()
	first := fat.ClusterID(sym.Uint16())
	path, parent := place(v, hfat.Entry("F", "TXT", 0x20, first, sym.Uint32()), true)
	if sym.Choice(2) == 1 {
		v.FailAt = sym.Choice(2*n + 8)
	}
	err := v.Driver().Remove(path)
	chain, ok := v.Chain(first, n+1)
	if first == 0 {
		chain, ok = nil, true
	}
	if v.Failed {
		sym.Assert(err != nil && errors.Is(err, hlib.Failure), "a failure is returned")
		checkOps(v, path, parent, chain, first)
		sym.Cover("failed")
		return
	}
	if !ok {
		sym.Assert(err != nil, "a bad chain is an error")
		sym.Assert(len(v.Ops) <= 1, "nothing is freed of a bad chain")
		checkOps(v, path, parent, nil, first)
		sym.Cover("bad chain")
		return
	}
	sym.Assert(err == nil, "files can be removed")
	sym.Assert(len(v.Ops) == 1+len(chain), "the entry is deleted and every cluster freed")
	checkOps(v, path, parent, chain, first)
	sym.Cover("removed")
}

// H_Long: files of up to thousands of clusters, one after the other or backwards.
func H_Long() {
	n := (16 << sym.Choice(sym.Bound("clusters, a power of two from 16: powers", 8, 10))) - 1 + sym.Choice(3)
	v := hfat.New(n+3, 32, 2, 1)
	first, chain := long(v, n)
	path, parent := place(v, hfat.Entry("F", "TXT", 0x20, first, sym.Uint32()), false)
	at := []int{n, 0, 1, n / 2, n - 1}[sym.Choice(5)]
	f := &failing{Volume: v, left: at}
	d := &fat.FATDriver{}
	sym.SetField(d, "fs@0", fat.FATDriverCommon(f))
	sym.SetField(d, "diskFile@1", any(v))
	err := d.Remove(path)
	checkOps(v, path, parent, chain, first)
	if at < n {
		sym.Assert(err != nil && errors.Is(err, hlib.ErrInjected), "a failure is returned")
		sym.Assert(len(v.Ops) == 1+at, "nothing is freed after a failure")
		sym.Cover("long fails")
		return
	}
	sym.Assert(err == nil, "files can be removed")
	sym.Assert(len(v.Ops) == 1+len(chain), "the entry is deleted and every cluster freed")
	sym.Cover("long")
}

// long gives the volume a chain of n clusters, leaving 3 and the last two alone.
func long(v *hfat.Volume, n int) (first fat.ClusterID, chain []fat.ClusterID) {
	back := sym.Choice(2) == 1
	for c := 2; len(chain) < n; c++ {
		if c != 3 {
			chain = append(chain, fat.ClusterID(c))
		}
	}
	if back {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			chain[i], chain[j] = chain[j], chain[i]
		}
	}
	for i, c := range chain {
		v.Table[c-2] = 0xFFFF
		if i+1 < n {
			v.Table[c-2] = chain[i+1]
		}
	}
	return chain[0], chain
}

// failing refuses to free any cluster after the first few.
type failing struct {
	*hfat.Volume
	left int
}

func (f *failing) FreeCluster(c fat.ClusterID) error {
	if f.left == 0 {
		return hlib.ErrInjected
	}
	f.left--
	return f.Volume.FreeCluster(c)
}

// H_Refused: directories and missing files are refused with nothing changed, also by
// Chmod and Chtimes where they are missing.
func H_Refused() {
	v := hfat.New(3, 32, 2, 1)
	v.AnyTable()
	v.AddRoot(hfat.Entry("A", "", 0, 3, 5))
	attr := sym.Byte() | fat.AttrDirectory
	v.AddRoot(hfat.Entry("D", "", attr, v.AnyLink(), 0))
	d := v.Driver()
	switch sym.Choice(6) {
	case 0:
		err := d.Remove("/D")
		sym.Assert(err != nil && errors.Is(err, disko.ErrIsADirectory), "directories are not removed")
	case 1:
		sym.Assert(d.Remove("/") != nil, "the root directory is not removed")
	case 2:
		err := d.Remove("/X")
		sym.Assert(err != nil && errors.Is(err, disko.ErrNotFound), "missing files are not removed")
	case 3:
		err := d.Remove("/A/X")
		sym.Assert(err != nil && errors.Is(err, disko.ErrNotADirectory), "files below files are not removed")
	case 4:
		err := d.Chmod("/X", os.FileMode(sym.Uint32()))
		sym.Assert(err != nil && errors.Is(err, disko.ErrNotFound), "missing files are not changed")
	case 5:
		t := time.Unix(int64(sym.Uint32()), 0)
		err := d.Chtimes("/X", t, t)
		sym.Assert(err != nil && errors.Is(err, disko.ErrNotFound), "missing files are not changed")
	}
	sym.Assert(len(v.Ops) == 0, "nothing is changed")
}

func same(a, b disko.FileStat) bool {
	return a.InodeNumber == b.InodeNumber && a.Size == b.Size && a.Nlinks == b.Nlinks && a.NumBlocks == b.NumBlocks && a.BlockSize == b.BlockSize && a.CreatedAt.Equal(b.CreatedAt)
}

// one runs change on a file of any attributes and checks that exactly its entry is
// updated, once, or that the failure is returned.
func one(change func(d *fat.FATDriver, path string) error) (before, after fat.Dirent, updated bool) {
	v := hfat.New(3, 32, 2, 1)
	v.Table[0], v.Table[1] = 3, 0xFFFF
	attr := sym.Byte()
	sym.Assume(attr&fat.AttrDirectory == 0)
	r := hfat.Entry("F", "TXT", attr, v.AnyLink(), sym.Uint32())
	r.NTReserved = sym.Byte()
	before, err := fat.NewDirentFromRaw(v.Boot, &r)
	sym.Assert(err == nil, "a used entry decodes")
	path, _ := place(v, r, true)
	fail := sym.Choice(6) - 1
	v.FailAt = fail
	err = change(v.Driver(), path)
	sym.Assert(len(v.Ops) <= 1, "one entry is updated, once")
	if v.Failed {
		sym.Assert(err != nil && errors.Is(err, hlib.Failure), "a failure is returned")
		sym.Cover("failed")
		return before, after, false
	}
	if err != nil {
		sym.Assert(len(v.Ops) == 0, "what is refused is not changed")
		sym.Cover("refused")
		return before, after, false
	}
	sym.Assert(len(v.Ops) == 1 && v.Ops[0].Kind == "update", "the entry is updated")
	after = v.Ops[0].Entry
	sym.Assert(after.Name() == before.Name() && after.FirstCluster == before.FirstCluster && after.Size() == before.Size() && after.NTReserved == before.NTReserved, "the entry updated is the file's, otherwise unchanged")
	sym.Assert(same(after.Stat(), before.Stat()), "nothing else changes")
	_, derr := after.GetDeletedAt()
	sym.Assert(derr != nil, "the entry stays in use")
	sym.Cover("updated")
	return before, after, true
}

// H_Chmod: every mode on every attribute byte.
func H_Chmod() {
	mode := os.FileMode(sym.Uint32())
	before, after, ok := one(func(d *fat.FATDriver, path string) error { return d.Chmod(path, mode) })
	if !ok {
		return
	}
	sym.Assert((after.AttributeFlags&fat.AttrReadOnly != 0) == (mode&0o222 == 0), "the file is read-only exactly if nobody may write")
	sym.Assert(after.AttributeFlags&^fat.AttrReadOnly == before.AttributeFlags&^fat.AttrReadOnly, "other attributes stay")
	sym.Assert((after.Mode()&0o222 == 0) == (mode&0o222 == 0), "the mode says whether the file can be written")
	sym.Assert(after.Mode()&^0o222 == before.Mode()&^0o222 && after.Stat().ModeFlags == after.Mode(), "the rest of the mode stays")
	sym.Assert(after.Stat().LastModified.Equal(before.Stat().LastModified) && after.Stat().LastAccessed.Equal(before.Stat().LastAccessed), "the times stay")
}

// H_ChmodRefusal: changing permissions never fails by itself.
func H_ChmodRefusal() {
	v := hfat.New(2, 32, 2, 1)
	v.AddRoot(hfat.Entry("F", "TXT", sym.Byte()&^fat.AttrDirectory, 2, 1))
	sym.Assert(v.Driver().Chmod("F.TXT", os.FileMode(sym.Uint32())) == nil, "permissions can be changed")
}

// H_Chtimes: every pair of times in years 1653 to 2242.
func H_Chtimes() {
	atime, mtime := moment(), moment()
	before, after, ok := one(func(d *fat.FATDriver, path string) error {
		err := d.Chtimes(path, atime, mtime)
		if err != nil && !errors.Is(err, hlib.Failure) {
			sym.Assert(sym.Or(hfat.Early(atime), hfat.Early(mtime)), "only times before 1980 are refused")
		}
		return err
	})
	if !ok {
		return
	}
	sym.Assert(!sym.Or(hfat.Early(atime), hfat.Early(mtime)), "times before 1980 are refused")
	sym.Assert(after.GetLastAccessedAt().Equal(atime), "the access time is set")
	sym.Assert(after.GetLastModifiedAt().Equal(mtime), "the modification time is set")
	sym.Assert(after.ModTime().Equal(mtime) && after.Stat().LastModified.Equal(mtime), "the modification time is visible")
	sym.Assert(after.AttributeFlags == before.AttributeFlags && after.Mode() == before.Mode(), "attributes stay")
}

func moment() time.Time {
	sec := sym.Int64()
	sym.Assume(sec > -10000000000)
	sym.Assume(sec < 10000000000)
	t := time.Unix(sec, int64(sym.Range(0, 999999999)))
	switch sym.Choice(4) {
	case 1:
		return t.UTC()
	case 2:
		return t.In(time.FixedZone("east", 14*3600))
	case 3:
		return t.In(time.FixedZone("west", -12*3600))
	}
	return t
}

// H_SameFile: two files are the same exactly if they begin with the same cluster.
func H_SameFile() {
	v := hfat.New(2, 32, 2, 1)
	c1, c2 := fat.ClusterID(sym.Uint32()), fat.ClusterID(sym.Uint32())
	sym.Assume(c1 != 0)
	a := v.AddRoot(hfat.Entry("A", "", sym.Byte(), c1, sym.Uint32()))
	b := v.AddRoot(hfat.Entry("B", "", sym.Byte(), c2, sym.Uint32()))
	sym.Assert(v.Driver().SameFile(a, b) == (c1 == c2), "files with the same first cluster are the same")
}

// H_Unsupported: links and owners are refused with nothing changed.
func H_Unsupported() {
	v := hfat.New(2, 32, 2, 1)
	v.AddRoot(hfat.Entry("A", "", 0, 2, 1))
	d := v.Driver()
	var err error
	switch sym.Choice(5) {
	case 0:
		err = d.Chown("/A", sym.Int(), sym.Int())
	case 1:
		err = d.Lchown("/A", sym.Int(), sym.Int())
	case 2:
		err = d.Link("/A", "/B")
	case 3:
		err = d.Symlink("/A", "/B")
	case 4:
		_, err = d.Readlink("/A")
	}
	sym.Assert(err != nil && errors.Is(err, disko.ErrNotSupported), "what FAT has no concept of is not supported")
	sym.Assert(len(v.Ops) == 0 && v.Steps == 0, "nothing is changed")
}
