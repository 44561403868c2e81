// Package c29: volume sizes in bytes are computed exactly.
package c29

import (
	"github.com/dargueta/disko"
	"github.com/dargueta/disko/disks"
	"github.com/dargueta/disko/zz_verif/sym"
)

func field(bits int) uint64 {
	return sym.Uint64() & (1<<uint(bits) - 1)
}

func geometry(b, u, s, t, h uint64) *disks.DiskGeometry {
	return &disks.DiskGeometry{BitsPerAddressUnit: uint(b), AddressUnitsPerSector: uint(u), SectorsPerTrack: uint(s),
		TotalDataTracks: uint(t), Heads: uint(h), HiddenTracks: sym.Uint(), IsRemovable: sym.Uint(), FirstYearAvailable: sym.Uint()}
}

// H_Geometry: field values of the stated widths (product below 2^62).
func H_Geometry() {
	b := uint64(sym.Range(1, 72))
	u, s, t, h := field(16), field(8), field(14), field(6)
	bits := b * u * s * t * h
	got := geometry(b, u, s, t, h).TotalSizeBytes()
	sym.Assert(got == int64((bits+7)>>3), "the size is the product of the fields, rounded up to bytes")
}

// H_OneWide: one field arbitrary up to 56 bits, the others small, so that the
// product comes close to 2^62.
func H_OneWide() {
	v := [5]uint64{}
	wide := sym.Choice(5)
	small := []uint64{1, 2, 3}
	prod := uint64(1)
	for i := range v {
		if i == wide {
			v[i] = field(56)
		} else {
			v[i] = small[sym.Choice(3)]
			if i == wide^1 {
				v[i] = 1
			}
		}
		prod *= v[i]
	}
	got := geometry(v[0], v[1], v[2], v[3], v[4]).TotalSizeBytes()
	sym.Assert(got == int64((prod+7)>>3), "the size is the product of the fields, rounded up to bytes")
}

// H_Word: word-oriented devices of every word length.
func H_Word() {
	b := uint64(1 + sym.Choice(64))
	u := field(20)
	bits := b * u
	got := geometry(b, u, 1, 1, 1).TotalSizeBytes()
	sym.Assert(uint64(got)*8 >= bits && uint64(got)*8 < bits+8, "the size is the least number of bytes that holds all bits")
}

// H_Stat: the size of file system statistics.
func H_Stat() {
	bs, n := field(24), field(38)
	st := disko.FSStat{BlockSize: uint(bs), TotalBlocks: n, BlocksFree: sym.Uint64(), Files: sym.Uint64()}
	sym.Assert(st.TotalSizeBytes() == int64(bs*n), "the size is block size times total blocks")
}
