// Package c08: the block cache survives fetch and flush failures.
package c08

import (
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

// fault arms one failure: the i-th fetch or the i-th flush of the next operation.
func fault(k *hlib.Blocks) {
	i := sym.Choice(k.Total())
	k.Partial = sym.Choice(2) == 1
	if sym.Choice(2) == 0 {
		k.FailFetch = i
	} else {
		k.FailFlush = i
	}
}

// H_Fault: any state, any operation, the storage failing at any of its
// transfers; then the fault clears and everything is observed (reads fetch
// what is missing, the flush writes what is still dirty).
func H_Fault() {
	k := hlib.NewBlocks(2, sym.Bound("blocks", 3, 3), false)
	k.Arbitrary(0, k.Total())
	fault(k)
	k.Op(sym.Thorough())
	if !k.Failed {
		sym.Stop()
	}
	sym.Cover("failed")
	k.Finish()
}

// H_FaultRange: the same on few blocks, with the range of the operation and the
// failing transfer as solver variables.
func H_FaultRange() {
	k := hlib.NewBlocks(2, sym.Bound("blocks (symbolic ranges)", 2, 3), false)
	k.Arbitrary(0, k.Total())
	k.Partial = sym.Choice(2) == 1
	if sym.Choice(2) == 0 {
		k.FailFetch = sym.Range(0, k.Total()-1)
	} else {
		k.FailFlush = sym.Range(0, k.Total()-1)
	}
	k.Symbolic = true
	k.Op(true)
	if !k.Failed {
		sym.Stop()
	}
	k.Finish()
}

// H_Retry: after the failure the same kinds of operation work as if it had
// never happened.
func H_Retry() {
	k := hlib.NewBlocks(2, 2, false)
	k.Arbitrary(0, 2)
	fault(k)
	k.Op(false)
	if !k.Failed {
		sym.Stop()
	}
	k.FailFetch, k.FailFlush = -1, -1
	if sym.Choice(3) == 0 {
		fault(k)
	}
	k.Op(false)
	sym.Cover("retried")
	k.Finish()
}

// H_FlushMany: a flush of several dirty blocks failing at any of them, several
// times in a row.
func H_FlushMany() {
	k := hlib.NewBlocks(1, 10, false)
	k.Arbitrary(6, sym.Bound("arbitrary blocks", 9, 10))
	k.Write(0, sym.Bytes(2))
	for i := 0; i < 2; i++ {
		k.FailFlush = sym.Choice(4)
		k.Flush()
	}
	k.FailFlush = -1
	k.Finish()
}

// H_Large: hundreds of blocks loaded, marked and flushed, one transfer failing
// at the first, the last or around a multiple of 64.
func H_Large() {
	total := 300
	k := hlib.NewBlocks(1, total, false)
	at := []int{0, 63, 64, 65, 255, 256, 299}[sym.Choice(7)]
	switch sym.Choice(3) {
	case 0:
		k.FailFetch = at
		k.LoadAll()
	case 1:
		k.FailFetch = at
		k.Read(0, total)
	case 2:
		k.Write(0, sym.Bytes(total))
		k.FailFlush = at
		k.Flush()
	}
	k.FailFetch, k.FailFlush = -1, -1
	if sym.Choice(2) == 0 {
		k.Slice(at, total-at, true)
	}
	k.Finish()
}
