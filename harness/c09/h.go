// Package c09: resizing a block cache preserves data and marks growth.
package c09

import (
	"errors"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

// resize resizes cache and model.
func resize(k *hlib.Blocks, n int) {
	old := k.Total()
	k.Begin()
	err := k.Cache.Resize(uint(n))
	if k.FailResize {
		sym.Assert(err != nil, "a refused resize is an error")
		sym.Assert(errors.Is(err, hlib.Failure), "a refused resize returns the storage's error")
		sym.Assert(int(k.Cache.TotalBlocks()) == old, "a refused resize leaves the size alone")
		return
	}
	sym.Assert(err == nil, "resizing succeeds")
	sym.Assert(k.Resizes == 1 && k.ResizeArg == n, "the storage is resized to the new number of blocks")
	k.Apply(n)
}

// H_Resize: any state of the blocks, any new size, accepted or refused.
func H_Resize() {
	b := 2
	total := sym.Choice(sym.Bound("blocks", 3, 4) + 1)
	k := hlib.NewBlocks(b, total, true)
	k.Arbitrary(0, total)
	k.FailResize = sym.Choice(2) == 1
	resize(k, sym.Choice(total+3))
	if k.FailResize {
		sym.Cover("refused")
	} else {
		sym.Cover("resized")
	}
	k.Finish()
}

// H_ResizeRange: the new size as a solver variable.
func H_ResizeRange() {
	total := sym.Choice(3)
	k := hlib.NewBlocks(2, total, true)
	k.Arbitrary(0, total)
	resize(k, sym.Range(0, sym.Bound("blocks after the resize", 4, 6)))
	k.Symbolic = true
	k.Op(true)
	k.Finish()
}

// H_ShrinkGrow: two resizes and an operation in between.
func H_ShrinkGrow() {
	k := hlib.NewBlocks(2, 2, true)
	k.Arbitrary(0, 2)
	resize(k, sym.Choice(4))
	if sym.Choice(2) == 0 {
		k.Op(false)
	}
	resize(k, sym.Choice(4))
	if k.Total() > 0 && sym.Choice(2) == 0 {
		k.Write(k.Total()-1, sym.Bytes(1))
	}
	k.Finish()
}

// H_Bitmap: sizes around multiples of eight blocks.
func H_Bitmap() {
	total := 7 + sym.Choice(3)
	k := hlib.NewBlocks(1, total, true)
	k.Arbitrary(5, sym.Bound("arbitrary blocks", 7, 9)-2+0)
	k.State(total-1, sym.Choice(3))
	resize(k, 6+sym.Choice(12))
	if sym.Choice(2) == 0 {
		resize(k, 6+sym.Choice(6))
	}
	k.Finish()
}

// H_NotResizable: a cache created without a resize function refuses.
func H_NotResizable() {
	total := sym.Choice(4)
	k := hlib.NewBlocks(2, total, false)
	k.Arbitrary(0, total)
	err := k.Cache.Resize(uint(sym.Choice(6)))
	sym.Assert(err != nil, "resizing is refused")
	sym.Assert(errors.Is(err, disko.ErrNotSupported), "resizing is refused as not supported")
	k.Finish()
}

// H_Large: sizes around multiples of 64, hundreds of blocks.
func H_Large() {
	from := []int{63, 64, 65, 200}[sym.Choice(4)]
	to := []int{1, 63, 64, 65, 129, 300}[sym.Choice(6)]
	k := hlib.NewBlocks(1, from, true)
	k.State(from-1, sym.Choice(3))
	k.State(0, sym.Choice(3))
	resize(k, to)
	if sym.Choice(2) == 1 {
		k.Flush()
	}
	k.Finish()
}
