// Package hfat is a small FAT volume the FAT driver is run on: the
// version-specific part (FATDriverCommon) over a table of any contents, and a disk
// image of any contents, with a failure at any step.
package hfat

import (
	"io"
	"os"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/sym"
)

// Op is one change made through the driver.
type Op struct {
	Kind    string // delete, free, update
	Cluster fat.ClusterID
	Entry   fat.Dirent
	Parent  fat.Dirent
	Failed  bool
}

// Volume has N clusters, numbered from 2.
type Volume struct {
	Boot    *fat.FATBootSector
	N       int
	Table   []fat.ClusterID // entry of each cluster, from cluster 2
	EOC     fat.ClusterID   // entries from here on end a chain
	Valid   bool            // IsValidCluster holds for end markers too
	Root    []fat.Dirent
	Image   []byte
	Ops     []Op
	Steps   int // calls so far
	FailAt  int // the call that fails (-1: none)
	Failed  bool
	EOF     bool // a read up to the end of the image also gives io.EOF
	Short   int  // reads deliver at most this many bytes (-1: all)
	ShortOK bool // a short read comes without an error
	Offset  int64
	Length  int
	Reads   int
	Only    bool // record reads, deliver nothing
}

// EndOfChain starts the end markers.
const EndOfChain = fat.ClusterID(0xFFF8)

// New makes a volume of n clusters of spc sectors of bps bytes, after first sectors.
func New(n, bps, spc, first int) *Volume {
	b := &fat.FATBootSector{}
	b.BytesPerSector = uint16(bps)
	b.SectorsPerCluster = uint8(spc)
	b.BytesPerCluster = uint(bps * spc)
	b.DirentsPerCluster = bps * spc / 32
	b.FirstDataSector = fat.SectorID(first)
	b.TotalClusters = uint(n)
	b.FATVersion = 16
	return &Volume{Boot: b, N: n, Table: make([]fat.ClusterID, n), EOC: EndOfChain, FailAt: -1, Short: -1}
}

// Driver is the driver under test on the volume.
func (v *Volume) Driver() *fat.FATDriver {
	d := &fat.FATDriver{}
	sym.SetField(d, "fs@0", fat.FATDriverCommon(v))
	sym.SetField(d, "diskFile@1", any(v))
	return d
}

// AnyTable gives every cluster any entry: free, a cluster, out of range or end.
func (v *Volume) AnyTable() {
	for i := range v.Table {
		v.Table[i] = v.AnyLink()
	}
}

// AnyLink is any table entry.
func (v *Volume) AnyLink() fat.ClusterID {
	e := fat.ClusterID(sym.Uint16())
	sym.Assume(sym.Or(int(e) < v.N+3, e >= 0xFFF6))
	return e
}

func (v *Volume) step() error {
	v.Steps++
	if v.FailAt >= 0 && v.Steps-1 == v.FailAt {
		v.Failed = true
		return hlib.Inject()
	}
	return nil
}

func (v *Volume) GetBootSector() *fat.FATBootSector { return v.Boot }

func (v *Volume) InRange(c fat.ClusterID) bool {
	return sym.And(c >= 2, int(c) < v.N+2)
}

func (v *Volume) GetClusterAtIndex(index uint) (fat.ClusterID, error) {
	if err := v.step(); err != nil {
		return 0, err
	}
	if index >= uint(v.N)+2 {
		return 0, disko.ErrArgumentOutOfRange
	}
	if index < 2 {
		return EndOfChain | fat.ClusterID(7*index), nil // media descriptor, end marker
	}
	return v.Table[index-2], nil
}

func (v *Volume) SetClusterAtIndex(index uint, cluster fat.ClusterID) error {
	if err := v.step(); err != nil {
		return err
	}
	if index < 2 || index >= uint(v.N)+2 {
		return disko.ErrArgumentOutOfRange
	}
	v.Ops = append(v.Ops, Op{Kind: "set", Cluster: fat.ClusterID(index)})
	v.Table[index-2] = cluster
	return nil
}

func (v *Volume) GetNextClusterInChain(cluster fat.ClusterID) (fat.ClusterID, error) {
	return v.GetClusterAtIndex(uint(cluster))
}

func (v *Volume) IsValidCluster(c fat.ClusterID) bool {
	return sym.Or(v.InRange(c), sym.And(v.Valid, c >= v.EOC))
}

func (v *Volume) IsEndOfChain(c fat.ClusterID) bool { return c >= v.EOC }

func (v *Volume) ListRootDirectory() ([]fat.Dirent, error) {
	if err := v.step(); err != nil {
		return nil, err
	}
	return append([]fat.Dirent(nil), v.Root...), nil
}

func (v *Volume) AllocateCluster(count uint) ([]fat.ClusterID, error) {
	v.Ops = append(v.Ops, Op{Kind: "allocate"})
	return nil, disko.ErrNoSpaceOnDevice
}

func (v *Volume) op(o Op) error {
	err := v.step()
	o.Failed = err != nil
	v.Ops = append(v.Ops, o)
	return err
}

func (v *Volume) FreeCluster(c fat.ClusterID) error { return v.op(Op{Kind: "free", Cluster: c}) }

func (v *Volume) UpdateDirent(d *fat.Dirent) error { return v.op(Op{Kind: "update", Entry: *d}) }

func (v *Volume) DeleteDirent(d, parent *fat.Dirent) error {
	return v.op(Op{Kind: "delete", Entry: *d, Parent: *parent})
}

// ReadAt reads the image.
func (v *Volume) ReadAt(p []byte, off int64) (int, error) {
	v.Reads++
	v.Offset, v.Length = off, len(p)
	if v.Only {
		return len(p), nil
	}
	if err := v.step(); err != nil {
		return 0, err
	}
	if off < 0 || off > int64(len(v.Image)) {
		return 0, io.EOF
	}
	n := copy(p, v.Image[off:])
	if v.Short >= 0 && n > v.Short {
		n = v.Short
		if v.ShortOK {
			return n, nil
		}
		return n, io.ErrUnexpectedEOF
	}
	if n < len(p) || v.EOF && off+int64(n) == int64(len(v.Image)) {
		return n, io.EOF
	}
	return n, nil
}

// Chain follows the table from first for at most max clusters: the clusters, and
// whether they end properly (at the end marker, or after max).
func (v *Volume) Chain(first fat.ClusterID, max int) ([]fat.ClusterID, bool) {
	var chain []fat.ClusterID
	c := first
	for len(chain) < max {
		if c >= v.EOC {
			return chain, true
		}
		if !v.InRange(c) {
			return chain, false
		}
		for _, s := range chain {
			if s == c {
				return chain, false
			}
		}
		chain = append(chain, c)
		c = v.Table[c-2]
	}
	return chain, true
}

// Entry makes a raw entry. Name and extension are padded.
func Entry(name, ext string, attr byte, cluster fat.ClusterID, size uint32) fat.RawDirent {
	r := fat.RawDirent{AttributeFlags: attr, FileSize: size,
		FirstClusterHigh: uint16(cluster >> 16), FirstClusterLow: uint16(cluster),
		CreatedDate: 0x5321, LastAccessedDate: 0x5322, LastModifiedDate: 0x5323}
	for i := range r.Name {
		r.Name[i] = ' '
	}
	for i := range r.Extension {
		r.Extension[i] = ' '
	}
	copy(r.Name[:], name)
	copy(r.Extension[:], ext)
	return r
}

// AddRoot adds an entry to the root directory.
func (v *Volume) AddRoot(r fat.RawDirent) fat.Dirent {
	d, err := fat.NewDirentFromRaw(v.Boot, &r)
	sym.Assert(err == nil, "a used entry decodes")
	v.Root = append(v.Root, d)
	return d
}

// Put stores an entry in the image: the i-th of cluster c.
func (v *Volume) Put(c, i int, r fat.RawDirent) {
	off := int(v.Boot.BytesPerSector)*(int(v.Boot.FirstDataSector)+(c-2)*int(v.Boot.SectorsPerCluster)) + 32*i
	copy(v.Image[off:off+32], Bytes(r))
}

func put16(b []byte, x uint16) { b[0], b[1] = byte(x), byte(x>>8) }

// Stat is what a file information says.
func Stat(fi os.FileInfo) disko.FileStat { return fi.Sys().(disko.FileStat) }

// Early is a moment FAT cannot represent.
func Early(t time.Time) bool { return t.Before(time.Date(1980, 1, 1, 0, 0, 0, 0, time.Local)) }

// Mount makes a volume whose layout comes from the parser, from a boot sector of
// the given layout. Its image is all in clusters 2 to n+1, the rest reads as 0xEE.
func Mount(n, bps, spc, reserved, fats, perFAT, rootEntries, sectors int) *Volume {
	h := make([]byte, 64)
	put16(h[11:], uint16(bps))
	h[13] = byte(spc)
	put16(h[14:], uint16(reserved))
	h[16] = byte(fats)
	put16(h[17:], uint16(rootEntries))
	put16(h[22:], uint16(perFAT))
	put16(h[32:], uint16(sectors))
	put16(h[34:], uint16(sectors>>16))
	b, err := fat.NewFATBootSectorFromStream(&hlib.Src{Data: h, FailAt: -1})
	sym.Assert(err == nil, "a legal boot sector is accepted")
	return &Volume{Boot: b, N: n, Table: make([]fat.ClusterID, n), EOC: EndOfChain, FailAt: -1, Short: -1}
}

// Disk is an image by clusters, which start at byte First and have Size bytes.
type Disk struct {
	First, Size int
	Cluster     map[int][]byte // from cluster 2
}

func (d *Disk) ReadAt(p []byte, off int64) (int, error) {
	for i := range p {
		p[i] = 0xEE
	}
	for at := 0; at < len(p); {
		pos := int(off) + at - d.First
		if pos < 0 {
			at++
			continue
		}
		c := d.Cluster[pos/d.Size+2]
		rest := d.Size - pos%d.Size
		if len(c) > 0 {
			copy(p[at:], c[pos%d.Size:])
		}
		at += rest
	}
	return len(p), nil
}

// Bytes is the entry as it is stored.
func Bytes(r fat.RawDirent) []byte {
	b := make([]byte, 32)
	copy(b, r.Name[:])
	copy(b[8:], r.Extension[:])
	b[11], b[12], b[13] = r.AttributeFlags, r.NTReserved, r.CreatedTimeMillis
	put16(b[14:], r.CreatedTime)
	put16(b[16:], r.CreatedDate)
	put16(b[18:], r.LastAccessedDate)
	put16(b[20:], r.FirstClusterHigh)
	put16(b[22:], r.LastModifiedTime)
	put16(b[24:], r.LastModifiedDate)
	put16(b[26:], r.FirstClusterLow)
	put16(b[28:], uint16(r.FileSize))
	put16(b[30:], uint16(r.FileSize>>16))
	return b
}
