// Package c26: FAT files, directories and paths follow the cluster chains.
package c26

import (
	"errors"
	"io"
	"os"
	"strings"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
	"github.com/dargueta/disko/zz_verif/hfat"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

// readFile checks ReadFile of an entry of any size on a volume with any table.
func readFile(v *hfat.Volume, bpc int, first fat.ClusterID, size uint32) {
	v.AddRoot(hfat.Entry("OTHER", "", 0, 3, 5))
	v.AddRoot(hfat.Entry("A", "TXT", 0, first, size))
	got, err := v.Driver().ReadFile("/A.TXT")
	sym.Assert(len(v.Ops) == 0, "reading changes nothing")
	if v.Failed {
		sym.Assert(err != nil && errors.Is(err, hlib.Failure), "failures of the underlying reads are returned")
		sym.Cover("failed")
		return
	}
	need := int((uint64(size) + uint64(bpc) - 1) / uint64(bpc))
	if need > v.N {
		sym.Assert(err != nil, "a file larger than its chain is an error")
		sym.Cover("too large")
		return
	}
	if need == 0 {
		sym.Assert(err == nil && len(got) == 0, "an empty file is empty")
		sym.Cover("empty")
		return
	}
	chain, ok := v.Chain(first, need)
	if !ok || len(chain) < need {
		sym.Assert(err != nil, "a chain that loops, ends early or leaves the valid range is an error")
		sym.Cover("bad chain")
		return
	}
	if _, whole := v.Chain(first, v.N+1); !whole && err != nil {
		// the chain is bad beyond the end of the file
		sym.Cover("bad tail")
		return
	}
	sym.Assert(err == nil, "a file with a good chain can be read")
	sym.Assert(len(got) == int(size), "exactly the recorded size is returned")
	for i := range got {
		c := int(chain[i/bpc]) - 2
		off := int(v.Boot.BytesPerSector)*(int(v.Boot.FirstDataSector)+c*int(v.Boot.SectorsPerCluster)) + i%bpc
		sym.Assert(got[i] == v.Image[off], "the contents are those of the chain's clusters, in order")
	}
	sym.Cover("read")
}

func volume() (*hfat.Volume, int) {
	n := sym.Bound("clusters of the volume", 3, 4)
	bps, spc := 1+sym.Choice(2), 1+sym.Choice(2)
	v := hfat.New(n, bps, spc, 1+sym.Choice(2))
	v.AnyTable()
	v.Valid = sym.Bool()
	v.Image = sym.Bytes(bps * (int(v.Boot.FirstDataSector) + n*spc))
	return v, bps * spc
}

// H_ReadFile: every table, first cluster (32 bits) and size (32 bits).
func H_ReadFile() {
	v, bpc := volume()
	v.EOF = sym.Bool()
	first := fat.ClusterID(sym.Uint32())
	readFile(v, bpc, first, sym.Uint32())
}

// H_ReadFileFault: the same with a failure at any step.
func H_ReadFileFault() {
	n := 3
	v := hfat.New(n, 2, 1, 1)
	v.AnyTable()
	v.Image = sym.Bytes(2 * (1 + n))
	v.FailAt = sym.Choice(2*n + 3)
	readFile(v, 2, v.AnyLink(), uint32(sym.Range(0, 2*n+1)))
}

// H_ShortRead: the image ends early, or reads stop short with or without an error.
func H_ShortRead() {
	n := 2
	v := hfat.New(n, 2, 2, 1)
	v.Table[0], v.Table[1] = 3, 0xFFFF
	v.Image = sym.Bytes(2*(1+2*n) - 1 - sym.Choice(3))
	if sym.Choice(2) == 0 {
		v.Image = sym.Bytes(2 * (1 + 2*n))
		v.Short = sym.Choice(4)
		v.ShortOK = sym.Bool()
	}
	v.AddRoot(hfat.Entry("A", "", 0, 2, uint32(sym.Range(5, 8))))
	_, err := v.Driver().ReadFile("A")
	sym.Assert(err != nil, "a cluster that cannot be read completely is an error")
}

// H_Long: files and directories of up to thousands of clusters, one after the other or
// backwards, whose chain ends, leaves the valid range, or loops.
func H_Long() {
	n := (16 << sym.Choice(sym.Bound("clusters, a power of two from 16: powers", 7, 9))) - 1 + sym.Choice(3)
	dir := sym.Choice(2) == 1
	bps := 2
	if dir {
		bps, n = 32, n/2+1
	}
	v := hfat.New(n, bps, 1, 1)
	v.Image = make([]byte, bps*(1+n))
	back := sym.Choice(2) == 1
	chain := make([]fat.ClusterID, n)
	for i := range chain {
		chain[i] = fat.ClusterID(i + 2)
		if back {
			chain[i] = fat.ClusterID(n + 1 - i)
		}
	}
	for i, c := range chain {
		v.Table[c-2] = 0xFFFF
		if i+1 < n {
			v.Table[c-2] = chain[i+1]
		}
	}
	bad := sym.Choice(5)
	switch bad {
	case 1:
		v.Table[chain[n-1]-2] = chain[0]
	case 2:
		v.Table[chain[n-1]-2] = chain[n/2]
	case 3:
		v.Table[chain[n-1]-2] = chain[n-1]
	case 4:
		v.Table[chain[n-1]-2] = 0
	}
	if dir {
		var names []string
		var sizes []uint32
		for i, c := range chain {
			name := string([]byte{'F', byte('0' + i/1000), byte('0' + i/100%10), byte('0' + i/10%10), byte('0' + i%10)})
			size := uint32(i)
			if i == n-1 {
				size = sym.Uint32()
			}
			names, sizes = append(names, name), append(sizes, size)
			v.Put(int(c), 0, hfat.Entry(name, "", 0, 0, size))
		}
		v.AddRoot(hfat.Entry("DIR", "", fat.AttrDirectory, chain[0], 0))
		infos, err := v.Driver().Readdir("DIR")
		if bad != 0 {
			sym.Assert(err != nil, "a chain that loops or leaves the valid range is an error")
			sym.Cover("bad directory")
			return
		}
		sym.Assert(err == nil, "a directory with a good chain can be listed")
		checkListing(infos, names, sizes)
		st, err := v.Driver().Stat("DIR/" + names[n-1])
		sym.Assert(err == nil && st.Size == int64(sizes[n-1]), "the last entry is found")
		sym.Cover("directory")
		return
	}
	var want []byte
	for i, c := range chain {
		a, b := byte(i), byte(i>>8)
		if i == n-1 || i == n/2 {
			a = sym.Byte()
		}
		v.Image[bps*(int(c)-1)], v.Image[bps*(int(c)-1)+1] = a, b
		want = append(want, a, b)
	}
	size := 2*n - sym.Choice(2) + 2*sym.Choice(2)
	v.AddRoot(hfat.Entry("F", "", 0, chain[0], uint32(size)))
	got, err := v.Driver().ReadFile("F")
	if bad != 0 && err != nil {
		sym.Cover("bad chain")
		return
	}
	if size > 2*n {
		sym.Assert(err != nil, "a file larger than its chain is an error")
		sym.Cover("too large")
		return
	}
	sym.Assert(err == nil && len(got) == size, "exactly the recorded size is returned")
	sym.Assert(sym.BytesEq(got, want[:size]), "the contents are those of the chain's clusters, in order")
	sym.Cover("long")
}

// H_Address: cluster N is the sectors from first + (N-2) * sectors per cluster, on
// volumes of legal geometry up to 2^32 sectors.
func H_Address() {
	bps, spc := 512<<sym.Choice(4), 1<<sym.Choice(8)
	v := hfat.New(1, bps, spc, 0)
	firstData := sym.Uint32()
	c := sym.Uint32()
	sym.Assume(c >= 2)
	sym.Assume(c < 0x0FFFFFF7)
	end := uint64(firstData) + (uint64(c)-1)*uint64(spc)
	sym.Assume(end <= 0xFFFFFFFF)
	v.Boot.FirstDataSector = fat.SectorID(firstData)
	v.Only = true
	w := &wide{Volume: v, last: fat.ClusterID(c)}
	d := &fat.FATDriver{}
	sym.SetField(d, "fs@0", fat.FATDriverCommon(w))
	sym.SetField(d, "diskFile@1", any(v))
	v.AddRoot(hfat.Entry("A", "", 0, fat.ClusterID(c), 1))
	got, err := d.ReadFile("A")
	sym.Assert(err == nil && len(got) == 1, "the file can be read")
	sym.Assert(v.Reads == 1, "one cluster is read once")
	sym.Assert(uint64(v.Offset) == uint64(bps)*(uint64(firstData)+(uint64(c)-2)*uint64(spc)), "a cluster is read from its sectors")
	sym.Assert(v.Length == bps*spc, "a whole cluster is read")
}

// wide is a volume with as many clusters as there can be, where last ends a chain.
type wide struct {
	*hfat.Volume
	last fat.ClusterID
}

func (w *wide) GetClusterAtIndex(i uint) (fat.ClusterID, error) {
	if i == uint(w.last) {
		return 0x0FFFFFFF, nil
	}
	return 0, nil
}
func (w *wide) GetNextClusterInChain(c fat.ClusterID) (fat.ClusterID, error) {
	return w.GetClusterAtIndex(uint(c))
}
func (w *wide) IsValidCluster(c fat.ClusterID) bool { return sym.And(c >= 2, c < 0x0FFFFFF7) }
func (w *wide) IsEndOfChain(c fat.ClusterID) bool   { return c >= 0x0FFFFFF8 }

// checkListing compares a listing with the entries of the directory. It returns
// false if the directory is damaged beyond its last entry.
func checkListing(infos []os.FileInfo, names []string, sizes []uint32) {
	sym.Assert(len(infos) == len(names), "the entries up to the first free one are listed")
	for i := range names {
		sym.Assert(infos[i].Name() == names[i], "entries come in order, with their names")
		sym.Assert(infos[i].Size() == int64(sizes[i]), "entries come with their sizes")
	}
}

// H_Readdir: a directory of any chain, each entry used or free; failures anywhere.
func H_Readdir() {
	n := sym.Bound("clusters of the volume (directories)", 3, 4)
	per := 1 + sym.Choice(2)
	v := hfat.New(n, 32, per, 1)
	v.AnyTable()
	v.Valid = sym.Bool()
	v.Image = make([]byte, 32*(1+n*per))
	free := make([]bool, n*per)
	sizes := make([]uint32, n*per)
	for i := range free {
		free[i] = sym.Bool()
		sizes[i] = sym.Uint32()
		e := hfat.Entry(string(rune('A'+i)), "", 0, 0, sizes[i])
		e.Name[0] = sym.IteByte(free[i], 0, e.Name[0])
		v.Put(2+i/per, i%per, e)
	}
	if sym.Choice(2) == 1 {
		v.FailAt = sym.Choice(2*n + 2)
	}
	first := v.AnyLink()
	v.AddRoot(hfat.Entry("DIR", "", fat.AttrDirectory, first, 0))
	infos, err := v.Driver().Readdir("/DIR")
	sym.Assert(len(v.Ops) == 0, "listing changes nothing")
	if v.Failed {
		sym.Assert(err != nil && errors.Is(err, hlib.Failure), "failures of the underlying reads are returned")
		sym.Cover("failed")
		return
	}
	var names []string
	var want []uint32
	chain, ok := v.Chain(first, n+1)
	done := false
	for _, c := range chain {
		for j := 0; j < per && !done; j++ {
			k := int(c-2)*per + j
			if free[k] {
				done = true
				break
			}
			names = append(names, string(rune('A'+k)))
			want = append(want, sizes[k])
		}
		if done {
			break
		}
	}
	if !ok && (err != nil || !done) {
		sym.Assert(err != nil, "a directory with a bad chain is an error")
		sym.Cover("bad chain")
		return
	}
	sym.Assert(err == nil, "a directory with a good chain can be listed")
	checkListing(infos, names, want)
	sym.Cover("listed")
}

// tree is a volume with a few nested directories.
//
//	/A  /D/A  /D/B  /D/E/C  /F(directory, only deleted entries)
func tree() *hfat.Volume {
	v := hfat.New(4, 32, 4, 1)
	v.Image = make([]byte, 32*(1+4*4))
	for i := range v.Table {
		v.Table[i] = 0xFFFF
	}
	deleted := hfat.Entry("A", "", 0, 9, 99)
	deleted.Name[0], deleted.CreatedTimeMillis = 0xE5, 'A'
	gone := hfat.Entry("D", "", fat.AttrDirectory, 5, 0)
	gone.Name[0], gone.CreatedTimeMillis = 0xE5, 'D'
	v.AddRoot(deleted)
	v.AddRoot(gone)
	v.AddRoot(hfat.Entry("A", "", 0, 11, 1))
	v.AddRoot(hfat.Entry("D", "", fat.AttrDirectory, 2, 0))
	v.AddRoot(hfat.Entry("F", "", fat.AttrDirectory, 4, 0))
	v.Put(2, 0, deleted)
	v.Put(2, 1, hfat.Entry("A", "", 0, 12, 2))
	v.Put(2, 2, hfat.Entry("B", "", 0, 13, 3))
	v.Put(2, 3, hfat.Entry("E", "", fat.AttrDirectory, 3, 0))
	v.Put(3, 0, hfat.Entry("C", "", 0, 14, 4))
	v.Put(4, 0, deleted)
	return v
}

// resolve walks a path over the tree: the inode, or why not.
func resolve(path string) (inode int, dir bool, err error) {
	var at []string
	for _, c := range strings.Split(path, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(at) > 0 {
				at = at[:len(at)-1]
			}
		default:
			at = append(at, c)
		}
	}
	files := map[string]int{"A": 11, "D/A": 12, "D/B": 13, "D/E/C": 14}
	dirs := map[string]int{"": 0, "D": 2, "D/E": 3, "F": 4}
	for i := 0; i <= len(at); i++ {
		p := strings.Join(at[:i], "/")
		if ino, ok := files[p]; ok {
			if i < len(at) {
				return 0, false, disko.ErrNotADirectory
			}
			return ino, false, nil
		}
		ino, ok := dirs[p]
		if !ok {
			return 0, false, disko.ErrNotFound
		}
		if i == len(at) {
			return ino, true, nil
		}
	}
	panic("unreachable")
}

func checkPath(v *hfat.Volume, path string) {
	ino, dir, want := resolve(path)
	st, err := v.Driver().Stat(path)
	lst, lerr := v.Driver().Lstat(path)
	if want != nil {
		sym.Assert(err != nil && errors.Is(err, want), "paths that lead nowhere say so")
		sym.Assert(lerr != nil && errors.Is(lerr, want), "Lstat answers as Stat")
		_, err = v.Driver().ReadFile(path)
		sym.Assert(err != nil && errors.Is(err, want), "reading files that are not there says so")
		_, err = v.Driver().Readdir(path)
		sym.Assert(err != nil && errors.Is(err, want), "listing directories that are not there says so")
		sym.Cover("no")
		return
	}
	sym.Assert(err == nil && lerr == nil, "paths that lead to an entry resolve")
	sym.Assert(st.InodeNumber == uint64(ino), "a path resolves to its own entry")
	sym.Assert(st.ModeFlags.IsDir() == dir, "directories are directories")
	sym.Assert(lst.InodeNumber == st.InodeNumber && lst.Size == st.Size && lst.ModeFlags == st.ModeFlags, "Lstat answers as Stat")
	if !dir {
		_, err = v.Driver().Readdir(path)
		sym.Assert(err != nil && errors.Is(err, disko.ErrNotADirectory), "files cannot be listed")
		sym.Cover("file")
		return
	}
	_, err = v.Driver().ReadFile(path)
	sym.Assert(err != nil && errors.Is(err, disko.ErrIsADirectory), "directories cannot be read")
	infos, err := v.Driver().Readdir(path)
	sym.Assert(err == nil, "directories can be listed")
	var live []string
	for _, fi := range infos {
		d := fi.(fat.Dirent)
		if _, err := d.GetDeletedAt(); err != nil {
			live = append(live, fi.Name())
		}
	}
	sym.Assert(strings.Join(live, " ") == map[int]string{0: "A D F", 2: "A B E", 3: "C", 4: ""}[ino], "the directory the path names is listed")
	sym.Cover("directory")
}

// H_Paths: paths of up to 4 components over a tree, relative or absolute.
func H_Paths() {
	comps := []string{"A", "B", "C", "D", "E", "F", "X", ".", "..", ""}
	path := ""
	if sym.Bool() {
		path = "/"
	}
	n := 1 + sym.Choice(sym.Bound("path components", 3, 4))
	for i := 0; i < n; i++ {
		if i > 0 {
			path += "/"
		}
		path += comps[sym.Choice(len(comps))]
	}
	sym.Assume(path != "")
	checkPath(tree(), path)
}

// H_PathBytes: short paths of any bytes.
func H_PathBytes() {
	n := 1 + sym.Choice(sym.Bound("path bytes", 3, 4))
	path := sym.String(n)
	checkPath(tree(), path)
}

// H_EmptyPath: the empty path names nothing.
func H_EmptyPath() {
	_, err := tree().Driver().Stat("")
	sym.Assert(err != nil, "the empty path is an error")
}

// H_PathFault: a failure at any step of a lookup is returned.
func H_PathFault() {
	v := tree()
	v.FailAt = sym.Choice(8)
	st, err := v.Driver().Stat("/D/E/C")
	if v.Failed {
		sym.Assert(err != nil && errors.Is(err, hlib.Failure), "failures of the underlying reads are returned")
		sym.Cover("failed")
		return
	}
	sym.Assert(err == nil && st.InodeNumber == 14, "the lookup succeeds")
}

// H_LoopTree: lookups through directories of any chain end.
func H_LoopTree() {
	n := 2
	v := hfat.New(n, 32, 1, 1)
	v.AnyTable()
	v.Image = make([]byte, 32*(1+n))
	v.Put(2, 0, hfat.Entry("D", "", fat.AttrDirectory, v.AnyLink(), 0))
	v.Put(3, 0, hfat.Entry("E", "", fat.AttrDirectory, v.AnyLink(), 0))
	v.AddRoot(hfat.Entry("D", "", fat.AttrDirectory, v.AnyLink(), 0))
	_, err := v.Driver().Stat("/D/D/E/D/X")
	sym.Assert(err != nil, "what is not there is not found")
}

var _ = io.EOF

// H_Mounted: a file and a directory of up to two clusters and a little more, on
// volumes of realistic size, laid out as their boot sectors say.
func H_Mounted() {
	layout := [][2]int{{512, 1}, {512, 16}, {512, 64}, {1024, 4}, {2048, 2}, {4096, 8}}[sym.Choice(6)]
	bps, spc := layout[0], layout[1]
	bpc := bps * spc
	l := [][5]int{{1, 2, 9, 112, 13}, {2, 1, 1, 16, 5000}, {1, 2, 1, 512, 5000}, {32, 1, 40, 240, 13}}[sym.Choice(4)]
	first := l[0] + l[1]*l[2] + (l[3]*32+bps-1)/bps
	v := hfat.Mount(12, bps, spc, l[0], l[1], l[2], l[3], first+spc*l[4])
	d := &hfat.Disk{First: first * bps, Size: bpc, Cluster: map[int][]byte{}}
	drv := &fat.FATDriver{}
	sym.SetField(drv, "fs@0", fat.FATDriverCommon(v))
	sym.SetField(drv, "diskFile@1", any(d))

	if sym.Choice(2) == 0 { // a file in clusters 9, 4, 13
		v.Table[9-2], v.Table[4-2], v.Table[13-2] = 4, 13, 0xFFFF
		all := hlib.Fill(3 * bpc)
		for _, at := range []int{0, bpc - 1, bpc, 2*bpc - 1, 2 * bpc, 3*bpc - 1} {
			all[at] = sym.Byte()
		}
		d.Cluster[9], d.Cluster[4], d.Cluster[13] = all[:bpc], all[bpc:2*bpc], all[2*bpc:]
		size := []int{1, bpc - 1, bpc, bpc + 1, 2 * bpc, 2*bpc + 1, 3 * bpc}[sym.Choice(7)]
		v.AddRoot(hfat.Entry("A", "", 0, 9, uint32(size)))
		got, err := drv.ReadFile("A")
		sym.Assert(err == nil && len(got) == size, "exactly the recorded size is returned")
		sym.Assert(sym.BytesEq(got, all[:size]), "the contents are those of the chain's clusters, in order")
		sym.Cover("file")
		return
	}
	per := bpc / 32
	count := []int{0, 1, per - 1, per, per + 1, 2 * per}[sym.Choice(6)]
	v.Table[5-2], v.Table[3-2] = 3, 0xFFFF
	var dir []byte
	var names []string
	var sizes []uint32
	for i := 0; i < count; i++ {
		name := []byte("F00000")
		for j, k := 5, i; k > 0; j, k = j-1, k/10 {
			name[j] = byte('0' + k%10)
		}
		size := uint32(i)
		if i%per == per-1 {
			size = sym.Uint32()
		}
		dir = append(dir, hfat.Bytes(hfat.Entry(string(name), "", 0, 0, size))...)
		names, sizes = append(names, string(name)), append(sizes, size)
	}
	dir = append(dir, make([]byte, 2*bpc-len(dir))...)
	d.Cluster[5], d.Cluster[3] = dir[:bpc], dir[bpc:]
	v.AddRoot(hfat.Entry("DIR", "", fat.AttrDirectory, 5, 0))
	infos, err := drv.Readdir("DIR")
	sym.Assert(err == nil, "a directory with a good chain can be listed")
	checkListing(infos, names, sizes)
	sym.Cover("directory")
}

// H_ByIndex: a cluster of a file by its index, with any table, first cluster (32 bits)
// and index, and a failure at any step: the cluster reached by following that many
// links, or an error.
func H_ByIndex() {
	v, bpc := volume()
	v.FailAt = sym.Choice(v.N+3) - 1
	first := fat.ClusterID(sym.Uint32())
	index := sym.Choice(v.N + 2)
	want, ok := first, true
	looped := false
	seen := []fat.ClusterID{}
	for i := 0; ; i++ {
		if sym.Or(want >= v.EOC, !v.InRange(want)) {
			ok = false
			break
		}
		for _, s := range seen {
			if s == want {
				looped = true
			}
		}
		seen = append(seen, want)
		if i == index {
			break
		}
		want = v.Table[want-2]
	}
	by := fat.VerifIndexed(v.Driver())
	var err error
	if sym.Choice(2) == 0 {
		if by.Cluster == nil {
			return
		}
		var got fat.ClusterID
		got, err = by.Cluster(first, uint(index))
		if err == nil {
			sym.Assert(ok && got == want, "the cluster is the one that many links from the first")
			sym.Cover("cluster by index")
		}
	} else {
		if by.Read == nil {
			return
		}
		r := hfat.Entry("A", "", 0, first, 1)
		d, derr := fat.NewDirentFromRaw(v.Boot, &r)
		sym.Assert(derr == nil, "a used entry decodes")
		var got []byte
		got, err = by.Read(&d, uint(index))
		if err == nil {
			sym.Assert(ok, "there is such a cluster")
			sym.Assert(len(got) == bpc, "a whole cluster is read")
			off := int(v.Boot.BytesPerSector) * (int(v.Boot.FirstDataSector) + (int(want)-2)*int(v.Boot.SectorsPerCluster))
			for i := range got {
				sym.Assert(got[i] == v.Image[off+i], "the contents are the cluster's")
			}
			sym.Cover("read by index")
		}
	}
	if v.Failed {
		sym.Assert(err != nil && errors.Is(err, hlib.Failure), "failures of the underlying reads are returned")
	} else if err != nil {
		sym.Assert(sym.Or(!ok, looped), "a cluster of a good chain can be reached")
		sym.Cover("no such cluster")
	}
	sym.Assert(len(v.Ops) == 0, "reading changes nothing")
}
