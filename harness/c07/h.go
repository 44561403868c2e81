// Package c07: the block cache is coherent with its backing storage.
package c07

import (
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

// H_OneOp: any state of the blocks (each not loaded, clean or dirty), then any
// operation on any range with any byte length, then the whole state is
// observed. As every state of a cache is such a state, this is an inductive
// step for operation sequences of any length.
func H_OneOp() {
	total := sym.Choice(sym.Bound("blocks", 4, 5) + 1)
	k := hlib.NewBlocks(sym.Bound("bytes per block", 2, 3), total, false)
	k.Arbitrary(0, total)
	k.Op(true)
	k.Finish()
	sym.Cover("finished")
}

// H_OneOpRange: the same on few blocks, with the range of the operation as solver
// variables.
func H_OneOpRange() {
	total := 1 + sym.Choice(sym.Bound("blocks (symbolic ranges)", 2, 3))
	k := hlib.NewBlocks(2, total, false)
	k.Arbitrary(0, total)
	k.Symbolic = true
	k.Op(true)
	k.Finish()
}

// H_Sequence: any sequence of operations from a new cache.
func H_Sequence() {
	k := hlib.NewBlocks(2, sym.Bound("blocks", 3, 4), false)
	for i := 0; i < 3; i++ {
		k.Op(false)
	}
	k.Finish()
}

// H_Many: more blocks than fit one byte of the bookkeeping bitmaps.
func H_Many() {
	total := 10
	k := hlib.NewBlocks(2, total, false)
	k.Arbitrary(7, sym.Bound("arbitrary blocks", 9, 10))
	s := 6 + sym.Choice(4)
	n := 1 + sym.Choice(total-s)
	switch sym.Choice(4) {
	case 0:
		k.Read(s, n*2-sym.Choice(2))
	case 1:
		k.Write(s, sym.Bytes(n*2-sym.Choice(2)))
	case 2:
		k.Slice(s, n, true)
	case 3:
		k.Mark(s, n)
	}
	if sym.Choice(2) == 0 {
		k.Flush()
	}
	k.Finish()
}

// H_BigBlocks: realistic block sizes.
func H_BigBlocks() {
	b := []int{128, 512}[sym.Choice(2)]
	k := hlib.NewBlocks(b, 4, false)
	k.Arbitrary(1, 3)
	off := []int{1, b - 1, b, b + 1, 2*b - 1, 2 * b, 3*b - 1, 3 * b}[sym.Choice(8)]
	if sym.Choice(2) == 0 {
		k.Write(1, sym.Bytes(off))
	} else {
		k.Read(1, off)
	}
	k.Finish()
}

// H_Large: hundreds of blocks, two of them around a multiple of 64 in any state,
// touched by ranges that start or end around one.
func H_Large() {
	total := 270
	k := hlib.NewBlocks(1, total, false)
	at := []int{63, 127, 255}[sym.Choice(3)]
	k.Arbitrary(at, at+2)
	s := []int{0, at}[sym.Choice(2)]
	n := []int{1, 64, total - s}[sym.Choice(3)]
	if s+n > total {
		sym.Stop()
	}
	switch sym.Choice(6) {
	case 0:
		k.Read(s, n)
	case 1:
		k.Write(s, sym.Bytes(n))
	case 2:
		k.Slice(s, n, true)
	case 3:
		k.Mark(s, n)
	case 4:
		k.LoadAll()
	case 5:
		k.Data(true)
	}
	k.Finish()
}
