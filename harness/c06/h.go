// Package c06: the block cache enforces its bounds for every block number and
// size.
package c06

import (
	"errors"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

func geometry() (b, total uint) {
	b = []uint{1, 2, 3, 128, 512, 1024}[sym.Choice(6)]
	total = []uint{0, 1, 2, 5, 9, 64}[sym.Choice(6)]
	return
}

// blocksFor is the exact ceiling of size/b.
func blocksFor(size, b uint) uint {
	q := size / b
	if size%b != 0 {
		q++
	}
	return q
}

func fits(start uint64, needed, total uint) bool {
	return start < uint64(total) && uint64(needed) <= uint64(total)-start
}

func checkErr(err error, ok bool) {
	sym.Assert((err == nil) == ok, "a range is accepted exactly when it lies inside the cache")
	if err != nil {
		sym.Assert(errors.Is(err, disko.ErrArgumentOutOfRange), "a rejected range is an out-of-range error")
	}
}

// H_CheckBounds: every 64-bit start and size.
func H_CheckBounds() {
	b, total := geometry()
	cache := blockcache.New(b, total, nil, nil, nil)
	start, size := sym.Uint64(), sym.Uint()
	checkErr(cache.CheckBounds(c.LogicalBlock(start), size), fits(start, blocksFor(size, b), total))
	sym.Cover("checked")
}

// H_MinBlocks: the exact ceiling for every size.
func H_MinBlocks() {
	b := []uint{1, 2, 3, 5, 100, 128, 512, 1024, 4096}[sym.Choice(9)]
	cache := blockcache.New(b, 2, nil, nil, nil)
	size := sym.Uint()
	n := cache.GetMinBlocksForSize(size)
	sym.Assert(n == blocksFor(size, b), "the minimum number of blocks is the exact ceiling")
}

// H_Ranges: read, write, slice and dirty-marking with every 64-bit start and
// count and buffers up to one block more than the cache, from any state of the
// blocks; a rejected one changes nothing.
func H_Ranges() {
	b := 2
	total := sym.Choice(4)
	k := hlib.NewBlocks(b, total, false)
	k.Arbitrary(0, total)
	store := append([]byte{}, k.Store...)
	start := sym.Uint64()
	blk := c.LogicalBlock(start)
	k.Begin()
	ok := false
	switch sym.Choice(4) {
	case 0:
		n := sym.Choice((total+1)*b + 1)
		ok = fits(start, blocksFor(uint(n), uint(b)), uint(total))
		buf := sym.Bytes(n)
		orig := append([]byte{}, buf...)
		got, err := k.Cache.ReadAt(buf, blk)
		checkErr(err, ok)
		if err != nil {
			sym.Assert(got == 0, "a rejected read reports no bytes")
			sym.Assert(sym.BytesEq(buf, orig), "a rejected read leaves the caller's buffer alone")
		}
	case 1:
		n := sym.Choice((total+1)*b + 1)
		ok = fits(start, blocksFor(uint(n), uint(b)), uint(total))
		buf := sym.Bytes(n)
		orig := append([]byte{}, buf...)
		got, err := k.Cache.WriteAt(buf, blk)
		checkErr(err, ok)
		sym.Assert(sym.BytesEq(buf, orig), "a write leaves the caller's buffer alone")
		if err != nil {
			sym.Assert(got == 0, "a rejected write reports no bytes")
		}
	case 2:
		n := sym.Uint()
		ok = fits(start, n, uint(total))
		s, err := k.Cache.GetSlice(blk, n)
		checkErr(err, ok)
		if err == nil {
			sym.Assert(len(s) == sym.Concretize(int(n))*b, "a slice covers exactly its blocks")
		} else {
			sym.Assert(len(s) == 0, "a rejected slice request gives no slice")
		}
	case 3:
		n := sym.Uint()
		ok = fits(start, n, uint(total))
		checkErr(k.Cache.MarkBlockRangeDirty(blk, n), ok)
	}
	if ok {
		sym.Cover("accepted")
		return
	}
	sym.Cover("rejected")
	sym.Assert(sym.BytesEq(k.Store, store), "a rejected request leaves the storage alone")
	k.Finish()
}

// H_Big: slices and marks with every 64-bit start and count on realistic sizes.
func H_Big() {
	b := []int{128, 512}[sym.Choice(2)]
	total := []int{8, 17}[sym.Choice(2)]
	k := hlib.NewBlocks(b, total, false)
	k.Write(total-1, sym.Bytes(1))
	start, n := sym.Uint64(), sym.Uint()
	ok := fits(start, n, uint(total))
	var err error
	if sym.Choice(2) == 0 {
		_, err = k.Cache.GetSlice(c.LogicalBlock(start), n)
	} else {
		err = k.Cache.MarkBlockRangeDirty(c.LogicalBlock(start), n)
	}
	checkErr(err, ok)
	if !ok {
		sym.Cover("rejected")
		k.Finish()
	}
}
