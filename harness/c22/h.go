// Package c22: FAT8 mount and cluster I/O address the right sectors.
package c22

import (
	"errors"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"
	"github.com/dargueta/disko/zz_verif/hos"
	"github.com/dargueta/disko/zz_verif/sym"
)

type doc struct{ blocks, tracks, spt, dirTrack int }

var docs = []doc{{640, 40, 16, 18}, {1898, 73, 26, 35}, {2002, 73, 26, 35}}

func (d doc) clusters() int { return d.tracks * 2 }
func (d doc) spc() int      { return d.spt / 2 }
func (d doc) fatLen() int   { return (d.clusters() + 127) / 128 * 128 }
func (d doc) fatStart() int { return d.dirTrack*d.spt*128 - 3*d.fatLen() }
func (d doc) info() int     { return d.fatStart() - 128 }

// image is a mountable image whose sectors tell which one they are; every FAT
// entry is v.
func (d doc) image(v byte) []byte {
	b := make([]byte, d.blocks*128)
	for s := 0; s < d.blocks; s++ {
		b[s*128] = byte(s)
		b[s*128+1] = byte(s >> 8)
		b[s*128+127] = byte(s) ^ 0x5a
	}
	for i := d.info(); i < d.info()+128; i++ {
		b[i] = 0
	}
	for i := 0; i < 3*d.fatLen(); i++ {
		b[d.fatStart()+i] = v
	}
	return b
}

const rw = disko.MountFlagsAllowReadWrite

func mounted(d doc) (*hos.Disk, *fat8.FAT8Driver) {
	disk, file := hos.NewDisk(d.image(0xff))
	drv := fat8.NewDriverFromFile(file)
	sym.Assert(drv.Mount(rw) == nil, "an image of a valid size with agreeing FATs can be mounted")
	sym.Assert(disk.Writes == 0, "mounting writes nothing")
	return disk, &drv
}

// H_Mount: one FAT entry of each copy is arbitrary.
func H_Mount() {
	d := docs[sym.Choice(3)]
	v := sym.Byte()
	img := d.image(v)
	p := 0
	if d.blocks == 1898 && !sym.Thorough() {
		p = sym.Choice(d.fatLen()/16) * 16
	} else {
		p = sym.Choice(d.fatLen())
	}
	var x [3]byte
	for k := range x {
		x[k] = sym.Byte()
		img[d.fatStart()+k*d.fatLen()+p] = x[k]
	}
	attr := sym.Byte()
	img[d.info()] = attr
	disk, file := hos.NewDisk(img)
	drv := fat8.NewDriverFromFile(file)
	err := drv.Mount(rw)
	if sym.And(x[0] == x[1], x[1] == x[2]) {
		sym.Assert(err == nil, "an image of a valid size with agreeing FATs can be mounted")
		sym.Assert(drv.FSStat().TotalBlocks == uint64(d.blocks), "the statistics have the number of sectors")
		if a, ok := sym.GetField(&drv, "defaultFileAttrFlags@2").(uint8); ok {
			sym.Assert(a == attr, "the default attributes come from the information sector")
		}
		// Flush writes back exactly what was read
		want := append([]byte{}, disk.Data...)
		for i := 0; i < 3*d.fatLen(); i++ {
			disk.Data[d.fatStart()+i] = 0x55
		}
		disk.Data[3], want[3] = 0x99, 0x99
		last := len(want) - 1
		disk.Data[last], want[last] = 0x77, 0x77
		sym.Assert(drv.Flush() == nil, "flushing succeeds")
		sym.Assert(len(disk.Data) == len(want), "flushing keeps the size of the image")
		sym.Assert(sym.BytesEq(disk.Data, want), "flushing writes the FAT to all three copies and nothing else")
		sym.Assert(drv.Mount(rw) != nil, "a mounted image is not mounted again")
		sym.Cover("mounted")
	} else {
		sym.Assert(err != nil && errors.Is(err, disko.ErrFileSystemCorrupted), "disagreeing FATs are corruption")
		sym.Assert(sym.BytesEq(disk.Data, img), "a refused mount leaves the image alone")
		sym.Cover("corrupt")
		for k := range x {
			disk.Data[d.fatStart()+k*d.fatLen()+p] = x[0]
		}
		sym.Assert(drv.Mount(rw) == nil, "the image can be mounted once repaired")
	}
}

// H_Remount: nothing of an earlier mount, successful or not, is left when a driver mounts
// another image.
func H_Remount() {
	d1, d2 := docs[sym.Choice(len(docs))], docs[sym.Choice(len(docs))]
	disk, drv := mounted(d1)
	sym.Assert(drv.Flush() == nil, "flushing succeeds")
	sym.Assert(drv.Unmount() == nil, "unmounting succeeds")
	if sym.Choice(2) == 1 {
		bad := d1.image(0xff)
		bad[d1.fatStart()+d1.fatLen()+3] = 0x11
		disk.Data = bad
		sym.Assert(drv.Mount(rw) != nil, "disagreeing FATs are corruption")
	}
	img := d2.image(sym.Byte())
	p, x := sym.Choice(4)*d2.clusters()/4, sym.Byte()
	for k := 0; k < 3; k++ {
		img[d2.fatStart()+k*d2.fatLen()+p] = x
	}
	attr := sym.Byte()
	img[d2.info()] = attr
	img[0], img[len(img)-1] = sym.Byte(), sym.Byte()
	disk.Data = append([]byte{}, img...)
	sym.Assert(drv.Mount(rw) == nil, "another image can be mounted later")
	sym.Assert(drv.FSStat().TotalBlocks == uint64(d2.blocks), "the statistics have the number of sectors")
	if a, ok := sym.GetField(drv, "defaultFileAttrFlags@2").(uint8); ok {
		sym.Assert(a == attr, "the default attributes come from the information sector")
	}
	fat, err := drv.GetFAT()
	sym.Assert(err == nil && sym.BytesEq(fat, img[d2.fatStart():d2.fatStart()+d2.fatLen()]), "the FAT is the one on the image")
	n := d2.spc() * 128
	for _, c := range []int{1, d2.clusters()} {
		got, err := drv.ReadAbsoluteCluster(fat8.PhysicalCluster(c))
		sym.Assert(err == nil && sym.BytesEq(got, img[(c-1)*n:c*n]), "a cluster is read from its place")
	}
	_, err = drv.ReadAbsoluteCluster(fat8.PhysicalCluster(d2.clusters() + 1))
	sym.Assert(err != nil, "a cluster past the last one is refused")
	sym.Assert(drv.Flush() == nil, "flushing succeeds")
	sym.Assert(len(disk.Data) == len(img), "flushing keeps the size of the image")
	sym.Assert(sym.BytesEq(disk.Data, img), "flushing an image that was not changed changes nothing")
	sym.Cover("mounted again")
}

// H_MountSize: every other image size is refused.
func H_MountSize() {
	d := docs[sym.Choice(3)]
	disk, file := hos.NewDisk(d.image(0xff))
	size := sym.Int64()
	sym.Assume(size >= 0 && size != 640*128 && size != 1898*128 && size != 2002*128)
	disk.FakeSize = &size
	drv := fat8.NewDriverFromFile(file)
	sym.Assert(drv.Mount(rw) != nil, "an image of any other size is refused")
	sym.Assert(disk.Writes == 0, "a refused mount leaves the image alone")
}

// H_MountFault: a storage failure during mount or flush is reported.
func H_MountFault() {
	d := docs[sym.Choice(3)]
	disk, file := hos.NewDisk(d.image(0xff))
	disk.Armed, disk.Stuck = true, sym.Choice(2) == 1
	drv := fat8.NewDriverFromFile(file)
	err := drv.Mount(rw)
	sym.Assert((err != nil) == disk.Fired, "a storage failure during mounting is reported")
	if err != nil {
		sym.Cover("mount fault")
		disk.Stuck = false
		sym.Assert(drv.Mount(rw) == nil, "mounting again after a failure succeeds")
	}
	fired := disk.Fired
	err = drv.Flush()
	if disk.Fired && !fired {
		sym.Cover("flush fault")
		disk.Stuck = false
		sym.Assert(err != nil, "a storage failure during flushing is reported")
		sym.Assert(drv.Flush() == nil, "flushing again after a failure succeeds")
	} else {
		sym.Assert(err == nil, "flushing succeeds")
	}
	sym.Assert(sym.BytesEq(disk.Data, d.image(0xff)), "flushing writes the FAT to all three copies and nothing else")
}

func sameExcept(got, before []byte, from, to int) bool {
	return len(got) == len(before) && sym.And(sym.BytesEq(got[:from], before[:from]), sym.BytesEq(got[to:], before[to:]))
}

// file makes a file with the given clusters and returns the index of one of them.
func file(drv *fat8.FAT8Driver, cs ...fat8.PhysicalCluster) *fat8.DirectoryEntry {
	e := &fat8.DirectoryEntry{}
	sym.SetField(e, "clusters@2", cs)
	return e
}

// H_ReadCluster: every cluster number.
func H_ReadCluster() {
	d := docs[sym.Choice(3)]
	_, drv := onEndless(d)
	c := fat8.PhysicalCluster(sym.Uint())
	got, err := drv.ReadAbsoluteCluster(c)
	if c < 1 || uint(c) > uint(d.clusters()) {
		sym.Assert(err != nil, "clusters outside the volume are refused")
		sym.Assert(!drv.IsValidCluster(c), "clusters outside the volume are invalid")
		return
	}
	sym.Assert(drv.IsValidCluster(c), "clusters of the volume are valid")
	sym.Assert(err == nil, "every cluster of the volume can be read")
	want := make([]byte, d.spc()*128)
	for i := range want {
		want[i] = hos.At(int64(c-1)*int64(d.spc()*128) + int64(i))
	}
	sym.Assert(sym.BytesEq(got, want), "reading a cluster gives exactly its sectors")
	sym.Cover("read")
}

// H_ReadWrite: clusters read back as written and leave the others alone.
func H_ReadWrite() {
	d := docs[sym.Choice(3)]
	disk, drv := mounted(d)
	before := append([]byte{}, disk.Data...)
	pick := []int{1, 2, d.dirTrack, d.clusters() / 2, d.clusters() - 1, d.clusters()}
	n := pick[sym.Choice(len(pick))]
	c := fat8.PhysicalCluster(n)
	from := (n - 1) * d.spc() * 128
	to := from + d.spc()*128
	got, err := drv.ReadAbsoluteCluster(c)
	sym.Assert(err == nil && sym.BytesEq(got, before[from:to]), "reading a cluster gives exactly its sectors")
	data := d.data()
	sym.Assert(drv.WriteAbsoluteCluster(c, data) == nil, "every cluster of the volume can be written")
	sym.Assert(sameExcept(disk.Data, before, from, to), "writing a cluster changes only its sectors")
	got, err = drv.ReadAbsoluteCluster(c)
	sym.Assert(err == nil && sym.BytesEq(got, data), "a cluster reads back as written")
}

// data is a cluster full of bytes, some of them arbitrary.
func (d doc) data() []byte {
	b := make([]byte, d.spc()*128)
	for i := range b {
		b[i] = byte(i) ^ byte(i>>8)
	}
	b[0], b[127], b[128], b[len(b)-1] = sym.Byte(), sym.Byte(), sym.Byte(), sym.Byte()
	return b
}

// H_WriteCluster: every cluster number.
func H_WriteCluster() {
	d := docs[sym.Choice(3)]
	disk, drv := onEndless(d)
	c := fat8.PhysicalCluster(sym.Uint())
	data := d.data()
	err := drv.WriteAbsoluteCluster(c, data)
	if c < 1 || uint(c) > uint(d.clusters()) {
		sym.Assert(err != nil, "clusters outside the volume are refused")
		sym.Assert(len(disk.Writes) == 0 && disk.Trunc == 0, "a refused write leaves the image alone")
		return
	}
	sym.Assert(err == nil, "every cluster of the volume can be written")
	checkWrites(disk, data, int64(c-1)*int64(d.spc()*128), "cluster")
	sym.Cover("write")
}

// checkWrites requires that the log is the data written at the offset.
func checkWrites(disk *hos.Endless, data []byte, at int64, what string) {
	done := make([]bool, len(data))
	for _, w := range disk.Writes {
		rel := w.Off - at
		sym.Assert(rel >= 0 && rel+int64(len(w.Data)) <= int64(len(data)), "writing touches only the sectors of the "+what)
		r := sym.Concretize(int(rel))
		sym.Assert(sym.BytesEq(w.Data, data[r:r+len(w.Data)]), "writing stores the data of the "+what)
		for i := range w.Data {
			done[r+i] = true
		}
	}
	for _, x := range done {
		sym.Assert(x, "writing stores all the data of the "+what)
	}
	sym.Assert(disk.Trunc == 0, "writing does not resize the image")
}

// H_WrongSize: data that is not a cluster is refused.
func H_WrongSize() {
	d := docs[sym.Choice(3)]
	disk, drv := mounted(d)
	before := append([]byte{}, disk.Data...)
	full := d.spc() * 128
	n := []int{0, 1, 127, 128, full - 128, full - 1, full + 1, full + 128, 2 * full, d.spt * 128}[sym.Choice(10)]
	c := fat8.PhysicalCluster(sym.Range(1, d.clusters()))
	var err error
	if sym.Bool() {
		err = drv.WriteAbsoluteCluster(c, make([]byte, n))
	} else {
		err = drv.WriteFileCluster(file(drv, c), 0, make([]byte, n))
	}
	sym.Assert(err != nil, "data that is not exactly a cluster is refused")
	sym.Assert(sameExcept(disk.Data, before, 0, 0), "a refused write leaves the image alone")
}

// H_FileCluster: through a file's cluster list.
func H_FileCluster() {
	d := docs[sym.Choice(3)]
	disk, drv := mounted(d)
	before := append([]byte{}, disk.Data...)
	pick := []uint{1, 2, uint(d.clusters() / 2), uint(d.clusters())}
	a := pick[sym.Choice(len(pick))]
	b := pick[sym.Choice(len(pick))]
	if sym.Bool() {
		b = sym.Uint()
		sym.Assume(b < 1 || b > uint(d.clusters()))
	}
	e := file(drv, fat8.PhysicalCluster(a), fat8.PhysicalCluster(b))
	i := sym.Uint()
	write := sym.Bool()
	data := d.data()
	var got []byte
	var err error
	if write {
		err = drv.WriteFileCluster(e, fat8.LogicalCluster(i), data)
	} else {
		got, err = drv.ReadFileCluster(e, fat8.LogicalCluster(i))
	}
	if i > 1 {
		sym.Assert(err != nil, "cluster indexes past the end of the file are refused")
		sym.Assert(sameExcept(disk.Data, before, 0, 0), "a refused access leaves the image alone")
		return
	}
	c := a
	if i == 1 {
		c = b
	}
	if c < 1 || c > uint(d.clusters()) {
		sym.Assert(err != nil, "clusters outside the volume are refused")
		sym.Assert(sameExcept(disk.Data, before, 0, 0), "a refused access leaves the image alone")
		return
	}
	sym.Assert(err == nil, "every cluster of the file is accessible")
	from := (int(c) - 1) * d.spc() * 128
	to := from + d.spc()*128
	if write {
		sym.Assert(sameExcept(disk.Data, before, from, to), "writing a file's cluster changes only its sectors")
		sym.Assert(sym.BytesEq(disk.Data[from:to], data), "writing a file's cluster stores the data in its sectors")
	} else {
		sym.Assert(sym.BytesEq(got, before[from:to]), "reading a file's cluster gives exactly its sectors")
	}
	sym.Cover("file")
}

// onEndless mounts an image whose contents afterwards depend on the offset only.
func onEndless(d doc) (*hos.Endless, *fat8.FAT8Driver) {
	disk, file := hos.NewEndless(d.image(0xff))
	drv := fat8.NewDriverFromFile(file)
	sym.Assert(drv.Mount(rw) == nil, "an image of a valid size with agreeing FATs can be mounted")
	disk.UseFn = true
	disk.Reads, disk.Writes = nil, nil
	return disk, &drv
}

// H_ReadBlocks: every block number and short counts.
func H_ReadBlocks() {
	d := docs[sym.Choice(3)]
	_, drv := onEndless(d)
	start := sym.Uint()
	n := 1 + sym.Choice(sym.Bound("blocks at once", 3, 5))
	got, err := drv.ReadDiskBlocks(fat8.PhysicalBlock(start), uint(n))
	if start > uint(d.blocks-n) {
		sym.Assert(err != nil, "block ranges past the end are refused")
		return
	}
	sym.Assert(err == nil, "every valid block, including the last, can be read")
	sym.Assert(len(got) == n*128, "reading blocks gives all their bytes")
	want := make([]byte, n*128)
	for i := range want {
		want[i] = hos.At(int64(start)*128 + int64(i))
	}
	sym.Assert(sym.BytesEq(got, want), "reading blocks gives their contents")
	sym.Cover("read")
}

// H_ReadRange: every out-of-range pair of start and count.
func H_ReadRange() {
	d := docs[sym.Choice(3)]
	_, drv := onEndless(d)
	start, count := sym.Uint(), sym.Uint()
	sym.Assume(count > 0 && (start > uint(d.blocks) || count > uint(d.blocks)-start))
	_, err := drv.ReadDiskBlocks(fat8.PhysicalBlock(start), count)
	sym.Assert(err != nil, "block ranges past the end are refused")
}

// H_WriteBlocks: every block number and short counts.
func H_WriteBlocks() {
	d := docs[sym.Choice(3)]
	disk, drv := onEndless(d)
	start := sym.Uint()
	n := 1 + sym.Choice(sym.Bound("blocks at once", 3, 5))
	extra := 0
	if sym.Bool() {
		extra = 1 + sym.Choice(127)
	}
	data := make([]byte, n*128+extra)
	for i := range data {
		data[i] = byte(i * 7)
	}
	err := drv.WriteDiskBlocks(fat8.PhysicalBlock(start), data)
	if extra > 0 || start > uint(d.blocks-n) {
		sym.Assert(err != nil, "wrongly sized data and block ranges past the end are refused")
		sym.Assert(len(disk.Writes) == 0 && disk.Trunc == 0, "a refused write leaves the image alone")
		return
	}
	sym.Assert(err == nil, "every valid block can be written")
	checkWrites(disk, data, int64(start)*128, "range")
	sym.Cover("write")
}

// H_IOFault: a storage failure during cluster I/O is reported.
func H_IOFault() {
	d := docs[sym.Choice(3)]
	disk, drv := mounted(d)
	disk.Armed, disk.Stuck = true, sym.Choice(2) == 1
	n := sym.Bound("clusters with faults", 4, d.clusters())
	c := fat8.PhysicalCluster(1 + sym.Choice(n)*(d.clusters()-1)/(n-1))
	e := file(drv, c)
	var err error
	switch sym.Choice(6) {
	case 0:
		_, err = drv.ReadAbsoluteCluster(c)
	case 1:
		err = drv.WriteAbsoluteCluster(c, d.data())
	case 2:
		_, err = drv.ReadFileCluster(e, 0)
	case 3:
		err = drv.WriteFileCluster(e, 0, d.data())
	case 4:
		_, err = drv.GetFAT()
	default:
		_, err = drv.ReadDiskBlocks(3, 2)
	}
	sym.Assert((err != nil) == disk.Fired, "a storage failure is reported")
}
