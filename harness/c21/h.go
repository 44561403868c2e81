// Package c21: FAT8 geometry and blank format are exact.
package c21

import (
	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"
	"github.com/dargueta/disko/zz_verif/hos"
	"github.com/dargueta/disko/zz_verif/sym"
)

// doc is the documented layout.
type doc struct {
	blocks, tracks, spt, dirTrack int
	allTracks                     int
}

var docs = []doc{{640, 40, 16, 18, 40}, {1898, 73, 26, 35, 73}, {2002, 73, 26, 35, 77}}

func (d doc) clusters() int   { return d.tracks * 2 }
func (d doc) fatSectors() int { return (d.clusters() + 127) / 128 }
func (d doc) dirStart() int   { return (d.dirTrack - 1) * d.spt }
func (d doc) fatStart() int   { return d.dirTrack*d.spt - 3*d.fatSectors() }
func (d doc) info() int       { return d.fatStart() - 1 }

// H_Geometry: every block count.
func H_Geometry() {
	n := sym.Uint()
	g, err := fat8.GetGeometry(n)
	for _, d := range docs {
		if n == uint(d.blocks) {
			sym.Assert(err == nil, "the documented sizes are accepted")
			sym.Assert(g.SectorsPerTrack == uint(d.spt), "sectors per track as documented")
			sym.Assert(g.TotalTracks == uint(d.tracks), "usable tracks as documented")
			sym.Assert(g.TrueTotalTracks == uint(d.allTracks), "tracks of the medium as documented")
			sym.Assert(g.TotalClusters == uint(d.clusters()), "two clusters per track")
			sym.Assert(g.SectorsPerCluster == uint(d.spt/2), "a cluster is half a track")
			sym.Assert(g.BytesPerCluster == uint(d.spt/2*128), "a cluster has 128 bytes per sector")
			sym.Assert(g.SectorsPerFAT == uint(d.fatSectors()), "one FAT byte per cluster rounded up to sectors")
			sym.Assert(g.DirectoryTrackNumber == uint(d.dirTrack), "the directory track as documented")
			sym.Assert(g.DirectoryTrackStart == fat8.PhysicalBlock(d.dirStart()), "the directory track starts at its first sector")
			sym.Assert(g.FATsStart == fat8.PhysicalBlock(d.fatStart()), "three FATs end the directory track")
			sym.Assert(g.InfoSectorStart == fat8.PhysicalBlock(d.info()), "the information sector precedes the FATs")
			sym.Cover("valid")
			return
		}
	}
	sym.Assert(err != nil, "any other size is refused")
}

type options int64

func (o options) TotalSizeBytes() int64 { return int64(o) }

// oldImage is what the file holds before formatting.
func oldImage() []byte {
	switch sym.Choice(3) {
	case 0:
		return nil
	case 1:
		return sym.Bytes(300)
	default:
		b := make([]byte, 2002*128+77)
		v := sym.Byte()
		for i := range b {
			b[i] = v
		}
		return b
	}
}

func allAre(b []byte, v byte) bool {
	ok := true
	for _, x := range b {
		ok = sym.And(ok, x == v)
	}
	return ok
}

func checkBlank(d doc, img []byte) {
	sym.Assert(len(img) == d.blocks*128, "the image has exactly the requested size")
	sym.Assert(sym.AllZero(img[:d.dirStart()*128]), "sectors before the directory track are zero")
	sym.Assert(allAre(img[d.dirStart()*128:d.info()*128], 0xff), "directory sectors are filled with 0xFF")
	sym.Assert(sym.AllZero(img[d.info()*128:d.fatStart()*128]), "the information sector is zero")
	fatLen := d.fatSectors() * 128
	first := (d.dirTrack - 1) * 2
	free := 0
	for k := 0; k < 3; k++ {
		fat := img[d.fatStart()*128+k*fatLen:][:fatLen]
		for i, v := range fat {
			if i == first || i == first+1 {
				sym.Assert(v == 0xfe, "the clusters of the directory track are reserved")
			} else {
				sym.Assert(v == 0xff, "every other cluster is free")
				free++
			}
		}
	}
	sym.Assert(sym.AllZero(img[d.dirTrack*d.spt*128:]), "sectors after the directory track are zero")
}

func checkStat(d doc, st disko.FSStat) {
	sym.Assert(st.BlockSize == 128, "statistics: sectors have 128 bytes")
	sym.Assert(st.TotalBlocks == uint64(d.blocks), "statistics: number of sectors")
	free := uint64((d.clusters() - 2) * (d.spt / 2))
	sym.Assert(st.BlocksFree == free && st.BlocksAvailable == free, "statistics: everything but the directory track is free")
	sym.Assert(st.Files == 0, "statistics: no files")
	sym.Assert(st.FilesFree == uint64((d.info()-d.dirStart())*8), "statistics: every directory entry is free")
}

// H_Format: a blank image of each size over any old contents.
func H_Format() {
	d := docs[sym.Choice(3)]
	disk, file := hos.NewDisk(oldImage())
	drv := fat8.NewDriverFromFile(file)
	err := drv.FormatImage(options(d.blocks * 128))
	sym.Assert(err == nil, "formatting a documented size succeeds")
	checkBlank(d, disk.Data)
	checkStat(d, drv.FSStat())
	sym.Assert(drv.Mount(disko.MountFlagsAllowReadWrite) == nil, "a formatted image can be mounted")
}

// H_FormatStat: the size given as a file system description.
func H_FormatStat() {
	d := docs[sym.Choice(3)]
	disk, file := hos.NewDisk(nil)
	drv := fat8.NewDriverFromFile(file)
	err := drv.FormatImage(disko.FSStat{BlockSize: 128, TotalBlocks: uint64(d.blocks)})
	sym.Assert(err == nil, "formatting a documented size succeeds")
	checkBlank(d, disk.Data)
	checkStat(d, drv.FSStat())
}

// H_BadSize: every other size in bytes is refused.
func H_BadSize() {
	n := sym.Int64()
	sym.Assume(n != 640*128 && n != 1898*128 && n != 2002*128)
	old := sym.Bytes(4)
	disk, file := hos.NewDisk(append([]byte{}, old...))
	drv := fat8.NewDriverFromFile(file)
	err := drv.FormatImage(options(n))
	sym.Assert(err != nil, "any other size is refused")
	sym.Assert(len(disk.Data) == 4 && sym.BytesEq(disk.Data, old), "a refused format leaves the image alone")
}

// H_Fault: any storage failure is reported.
func H_Fault() {
	d := docs[sym.Choice(3)]
	disk, file := hos.NewDisk(nil)
	disk.Armed, disk.Stuck = true, sym.Choice(2) == 1
	drv := fat8.NewDriverFromFile(file)
	err := drv.FormatImage(options(d.blocks * 128))
	if disk.Fired {
		sym.Assert(err != nil, "a storage failure is reported")
		sym.Cover("fault")
		// the next attempt starts over
		disk.Stuck = false
		sym.Assert(drv.FormatImage(options(d.blocks*128)) == nil, "formatting again after a failure succeeds")
	} else {
		sym.Assert(err == nil, "without a failure formatting succeeds")
	}
	checkBlank(d, disk.Data)
	checkStat(d, drv.FSStat())
}

// H_Mounted: a mounted volume is not formatted.
func H_Mounted() {
	d := docs[sym.Choice(3)]
	disk, file := hos.NewDisk(nil)
	drv := fat8.NewDriverFromFile(file)
	sym.Assert(drv.FormatImage(options(d.blocks*128)) == nil, "formatting a documented size succeeds")
	sym.Assert(drv.Mount(disko.MountFlagsAllowReadWrite) == nil, "a formatted image can be mounted")
	w := disk.Writes
	e := docs[sym.Choice(3)]
	sym.Assert(drv.FormatImage(options(e.blocks*128)) != nil, "a mounted volume is not formatted")
	sym.Assert(disk.Writes == w, "refusing to format a mounted volume writes nothing")
	sym.Assert(drv.Unmount() == nil, "unmounting succeeds")
	sym.Assert(drv.FormatImage(options(e.blocks*128)) == nil, "an unmounted volume can be formatted")
	checkBlank(e, disk.Data)
	checkStat(e, drv.FSStat())
}

func (o options) Metadata() any { return nil }
