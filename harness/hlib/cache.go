package hlib

import (
	"errors"

	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
	"github.com/dargueta/disko/zz_verif/sym"
)

// Blocks is a block cache over a recording store, with a reference model of
// what the cache must contain.
type Blocks struct {
	Cache *blockcache.BlockCache
	B     int

	Store  []byte // the backing storage
	Cur    []byte // model: what reads must return
	Loaded []bool // model: blocks that must not be fetched any more
	Dirty  []bool // model: blocks the next flush must write

	FailFetch  int // index of the fetch that fails from now on (-1: none)
	FailFlush  int
	Partial    bool // the failing transfer is done in part (garbage on fetch)
	FailResize bool
	InFlush    bool // flushes are expected
	Symbolic   bool // ranges of operations are solver variables, not cases
	Fetches    int  // calls since Begin
	Flushes    int
	Failed     bool
	FlushCount []int
	FetchCount []int
	Resizes    int
	ResizeArg  int
}

// NewBlocks builds a cache of total blocks of b bytes with arbitrary backing
// content.
func NewBlocks(b, total int, resizable bool) *Blocks {
	k := &Blocks{B: b, FailFetch: -1, FailFlush: -1}
	k.Store = sym.Bytes(b * total)
	k.Cur = append([]byte{}, k.Store...)
	k.Loaded = make([]bool, total)
	k.Dirty = make([]bool, total)
	k.FlushCount = make([]int, total)
	k.FetchCount = make([]int, total)
	var rs blockcache.ResizeCallback
	if resizable {
		rs = k.resize
	}
	k.Cache = blockcache.New(uint(b), uint(total), k.fetch, k.flush, rs)
	return k
}

func (k *Blocks) Total() int { return len(k.Loaded) }

func (k *Blocks) fetch(blk c.LogicalBlock, buf []byte) error {
	sym.Assert(uint64(blk) < uint64(k.Total()), "only existing blocks are fetched")
	sym.Assert(len(buf) == k.B, "a fetch is given a buffer of one block")
	i := sym.Concretize(int(blk))
	sym.Assert(!k.Loaded[i], "a loaded block is never fetched again")
	n := k.Fetches
	k.Fetches++
	if n == k.FailFetch {
		k.Failed = true
		if k.Partial {
			for j := range buf {
				buf[j] = 0xA5
			}
		}
		return Inject()
	}
	k.FetchCount[i]++
	copy(buf, k.Store[i*k.B:(i+1)*k.B])
	k.Loaded[i] = true
	return nil
}

func (k *Blocks) flush(blk c.LogicalBlock, buf []byte) error {
	sym.Assert(k.InFlush, "nothing is written to the storage outside a flush")
	sym.Assert(uint64(blk) < uint64(k.Total()), "only existing blocks are flushed")
	sym.Assert(len(buf) == k.B, "a flush writes one whole block")
	i := sym.Concretize(int(blk))
	sym.Assert(k.Dirty[i], "only dirty blocks are flushed, each once")
	n := k.Flushes
	k.Flushes++
	if n == k.FailFlush {
		k.Failed = true
		if k.Partial {
			k.Store[i*k.B] = 0x5A
		}
		return Inject()
	}
	sym.Assert(sym.BytesEq(buf, k.Cur[i*k.B:(i+1)*k.B]), "a flush writes the block's current content")
	k.FlushCount[i]++
	copy(k.Store[i*k.B:], buf)
	k.Dirty[i] = false
	return nil
}

func (k *Blocks) resize(n c.LogicalBlock) error {
	k.Resizes++
	k.ResizeArg = sym.Concretize(int(n))
	if k.FailResize {
		return Inject()
	}
	want := k.ResizeArg * k.B
	for len(k.Store) < want {
		k.Store = append(k.Store, 0xEE) // uninitialised storage
	}
	k.Store = k.Store[:want]
	return nil
}

// Begin starts counting the calls of one operation.
func (k *Blocks) Begin() {
	k.Fetches, k.Flushes, k.Failed, k.Resizes = 0, 0, false, 0
	for i := range k.FlushCount {
		k.FlushCount[i] = 0
		k.FetchCount[i] = 0
	}
}

// Arbitrary puts the blocks [lo,hi) in any combination of not loaded, loaded
// clean and dirty.
func (k *Blocks) Arbitrary(lo, hi int) {
	for i := lo; i < hi; i++ {
		k.State(i, sym.Choice(3))
	}
}

// State puts a block that has not been touched in state 0 (not loaded), 1
// (clean) or 2 (dirty).
func (k *Blocks) State(i, st int) {
	switch st {
	case 1:
		k.Read(i, k.B)
	case 2:
		k.Write(i, sym.Bytes(k.B))
	}
}

// need is the number of blocks for n bytes.
func (k *Blocks) need(n int) int { return (n + k.B - 1) / k.B }

// Check looks at the error of an operation given the injected failures.
func (k *Blocks) check(err error, what string) bool {
	if k.Failed {
		sym.Assert(err != nil, what+": a failure of the storage is returned")
		sym.Assert(errors.Is(err, Failure), what+": the error matches the storage's failure")
		return false
	}
	sym.Assert(err == nil, what+" succeeds")
	return true
}

// Read reads n bytes at block start, a range inside the cache.
func (k *Blocks) Read(start, n int) {
	buf := make([]byte, n)
	k.Begin()
	got, err := k.Cache.ReadAt(buf, c.LogicalBlock(start))
	if !k.check(err, "read") {
		sym.Assert(got >= 0 && got <= n && sym.BytesEq(buf[:got], k.Cur[start*k.B:start*k.B+got]), "a failed read reports no more bytes than it filled")
		return
	}
	sym.Assert(got == n, "a read reports the number of bytes it filled")
	sym.Assert(sym.BytesEq(buf, k.Cur[start*k.B:start*k.B+n]), "a read returns the latest data")
	k.touched(start, k.need(n))
}

func (k *Blocks) touched(start, count int) {
	for i := start; i < start+count; i++ {
		k.Loaded[i] = true
	}
}

func (k *Blocks) dirtied(start, count int) {
	for i := start; i < start+count; i++ {
		k.Loaded[i] = true
		k.Dirty[i] = true
	}
}

// Write writes data at block start, a range inside the cache.
func (k *Blocks) Write(start int, data []byte) {
	k.Begin()
	orig := append([]byte{}, data...)
	got, err := k.Cache.WriteAt(data, c.LogicalBlock(start))
	sym.Assert(sym.BytesEq(data, orig), "a write leaves the caller's buffer alone")
	if !k.check(err, "write") {
		sym.Assert(got == 0, "a failed write, having changed nothing, reports no bytes written")
		return
	}
	sym.Assert(got == len(data), "a write reports the number of bytes written")
	copy(k.Cur[start*k.B:], data)
	k.dirtied(start, k.need(len(data)))
}

// Slice takes a slice of blocks and, if modify is set, changes its first and
// last byte and marks the blocks dirty.
func (k *Blocks) Slice(start, count int, modify bool) {
	k.Begin()
	s, err := k.Cache.GetSlice(c.LogicalBlock(start), uint(count))
	if !k.check(err, "slice") {
		return
	}
	k.useSlice(s, start, count, modify)
}

func (k *Blocks) useSlice(s []byte, start, count int, modify bool) {
	sym.Assert(len(s) == count*k.B, "a slice covers exactly its blocks")
	sym.Assert(sym.BytesEq(s, k.Cur[start*k.B:(start+count)*k.B]), "a slice shows the latest data")
	k.touched(start, count)
	if modify {
		if count > 0 {
			v := sym.Bytes(2)
			s[0] = v[0]
			s[len(s)-1] = v[1]
			k.Cur[start*k.B] = v[0]
			k.Cur[(start+count)*k.B-1] = v[1]
		}
		k.Mark(start, count)
	}
}

// Mark marks blocks dirty.
func (k *Blocks) Mark(start, count int) {
	k.Begin()
	err := k.Cache.MarkBlockRangeDirty(c.LogicalBlock(start), uint(count))
	if !k.check(err, "marking dirty") {
		return
	}
	for i := start; i < start+count; i++ {
		k.Dirty[i] = true
	}
}

// LoadAll loads everything.
func (k *Blocks) LoadAll() {
	k.Begin()
	if !k.check(k.Cache.LoadAll(), "loading everything") {
		return
	}
	k.touched(0, k.Total())
}

// Data takes the slice of everything.
func (k *Blocks) Data(modify bool) {
	k.Begin()
	s, err := k.Cache.Data()
	if !k.check(err, "taking all data") {
		return
	}
	k.useSlice(s, 0, k.Total(), modify && k.Total() > 0)
}

// Flush flushes and checks that exactly the dirty blocks were written.
func (k *Blocks) Flush() {
	was := append([]bool{}, k.Dirty...)
	k.Begin()
	k.InFlush = true
	err := k.Cache.Flush()
	k.InFlush = false
	if !k.check(err, "flush") {
		return
	}
	for i := range was {
		want := 0
		if was[i] {
			want = 1
		}
		sym.Assert(k.FlushCount[i] == want, "a flush writes exactly the dirty blocks, each once")
	}
}

// Finish observes the whole state: every block reads as the model says, a flush
// writes exactly the dirty blocks, storage and cache agree afterwards and a
// second flush writes nothing. The order of reading and flushing is chosen.
func (k *Blocks) Finish() {
	k.FailFetch, k.FailFlush = -1, -1
	sym.Assert(int(k.Cache.TotalBlocks()) == k.Total(), "the cache has the expected number of blocks")
	sym.Assert(k.Cache.Size() == int64(k.Total()*k.B), "the cache has the expected size")
	if sym.Choice(2) == 0 {
		k.ReadAll()
		k.Flush()
	} else {
		k.Flush()
		k.ReadAll()
	}
	sym.Assert(sym.BytesEq(k.Store, k.Cur), "after a flush storage and cache agree")
	for i := range k.Dirty {
		sym.Assert(!k.Dirty[i], "after a flush nothing is dirty")
	}
	k.Flush()
	sym.Assert(k.Flushes == 0, "a second flush writes nothing")
}

func (k *Blocks) ReadAll() {
	for i := 0; i < k.Total(); i++ {
		k.Read(i, k.B)
	}
}

// Op performs one operation chosen among all kinds and ranges. Byte lengths
// are all lengths if fine is set, else a few around block boundaries.
func (k *Blocks) Op(fine bool) {
	t := k.Total()
	switch sym.Choice(9) {
	case 0:
		if t > 0 {
			s, n := k.rng(fine)
			k.Read(s, n)
		}
	case 1:
		if t > 0 {
			s, n := k.rng(fine)
			k.Write(s, sym.Bytes(n))
		}
	case 2:
		if t > 0 {
			s := k.pick(t - 1)
			k.Slice(s, k.pick(t-s), true)
		}
	case 3:
		if t > 0 {
			s := k.pick(t - 1)
			k.Slice(s, k.pick(t-s), false)
		}
	case 4:
		if t > 0 {
			s := k.pick(t - 1)
			k.Mark(s, k.pick(t-s))
		}
	case 5:
		k.LoadAll()
	case 6:
		k.Data(true)
	case 7:
		k.Data(false)
	case 8:
		k.Flush()
	}
}

// pick is any number from 0 to max.
func (k *Blocks) pick(max int) int {
	if !k.Symbolic {
		return sym.Choice(sym.Concretize(max) + 1)
	}
	n := sym.Int()
	sym.Assume(n >= 0)
	sym.Assume(n <= max)
	return n
}

func (k *Blocks) rng(fine bool) (start, n int) {
	t := k.Total()
	start = k.pick(t - 1)
	max := (t - start) * k.B
	if fine {
		return start, k.pick(max)
	}
	lens := []int{1, k.B, k.B + 1, max}
	n = lens[sym.Choice(4)]
	if n > max {
		sym.Stop()
	}
	return start, n
}

// Snapshot copies the model, for comparison by Same.
func (k *Blocks) Snapshot() *Blocks {
	n := *k
	n.Store = append([]byte{}, k.Store...)
	n.Cur = append([]byte{}, k.Cur...)
	n.Dirty = append([]bool{}, k.Dirty...)
	return &n
}

// Apply changes the model to n blocks.
func (k *Blocks) Apply(n int) {
	for k.Total() > n {
		k.Loaded = k.Loaded[:k.Total()-1]
	}
	for k.Total() < n {
		k.Loaded = append(k.Loaded, true)
	}
	if len(k.Dirty) > n {
		k.Dirty = k.Dirty[:n]
		k.Cur = k.Cur[:n*k.B]
	}
	for len(k.Dirty) < n {
		k.Dirty = append(k.Dirty, true)
		for j := 0; j < k.B; j++ {
			k.Cur = append(k.Cur, 0)
		}
	}
	k.FlushCount = make([]int, n)
	k.FetchCount = make([]int, n)
}
