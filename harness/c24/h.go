// Package c24: FAT boot sector parsing.
package c24

import (
	"bytes"
	"errors"
	"io"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
	"github.com/dargueta/disko/zz_verif/sym"
)

func u16(b []byte, i int) uint64 { return uint64(uint16(b[i]) | uint16(b[i+1])<<8) }
func u32(b []byte, i int) uint64 {
	return uint64(uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24)
}

// ite does not fork.
func ite(c bool, a, b uint64) uint64 { return uint64(sym.IteInt(c, int(a), int(b))) }

// one reads its data byte by byte when step is 1.
type reader struct {
	data []byte
	step int
	fail error
}

func (r *reader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.fail
	}
	n := len(p)
	if r.step > 0 && n > r.step {
		n = r.step
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	return n, nil
}

// check compares the parse of one header with the specification.
func check(h []byte) {
	bs, err := fat.NewFATBootSectorFromStream(bytes.NewReader(h))
	bps, spc := u16(h, 11), uint64(h[13])
	okBps := sym.Or(sym.Or(bps == 512, bps == 1024), sym.Or(bps == 2048, bps == 4096))
	okSpc := sym.And(spc != 0, spc&(spc-1) == 0)
	if !okBps || !okSpc {
		sym.Assert(err != nil && errors.Is(err, disko.ErrFileSystemCorrupted), "illegal sector and cluster sizes are corruption")
		sym.Assert(bs == nil, "no layout is returned with an error")
		sym.Cover("sizes")
		return
	}
	B, S := bps, spc
	if B*S > 32768 {
		sym.Assert(err != nil && errors.Is(err, disko.ErrFileSystemCorrupted), "clusters over 32 KiB are corruption")
		return
	}
	reserved, nfats, entries := u16(h, 14), uint64(h[16]), u16(h, 17)
	total := ite(u16(h, 19) == 0, u32(h, 32), u16(h, 19))
	perFAT := ite(u16(h, 22) == 0, u32(h, 36), u16(h, 22))
	root := (entries*32 + B - 1) / B
	first := reserved + nfats*perFAT + root
	if first > total {
		sym.Assert(err != nil && errors.Is(err, disko.ErrFileSystemCorrupted), "layouts larger than the volume are corruption")
		sym.Cover("too large")
		return
	}
	data := total - first
	clusters := data / S
	version := 32
	if clusters < 4085 {
		version = 12
	} else if clusters < 65525 {
		version = 16
	}
	if version == 32 && root != 0 {
		sym.Assert(err != nil && errors.Is(err, disko.ErrFileSystemCorrupted), "FAT32 with a fixed root directory is corruption")
		sym.Cover("root on FAT32")
		return
	}
	if nfats == 0 || reserved == 0 || total == 0 {
		// illegal as well by the specification; may be accepted or refused
		if err != nil {
			return
		}
	}
	sym.Assert(err == nil, "a legal header is accepted")
	sym.Assert(bs.JmpBoot[0] == h[0] && bs.JmpBoot[1] == h[1] && bs.JmpBoot[2] == h[2], "the jump instruction is kept")
	for i := range bs.OEMName {
		sym.Assert(bs.OEMName[i] == h[3+i], "the OEM name is kept")
	}
	sym.Assert(uint64(bs.BytesPerSector) == bps && uint64(bs.SectorsPerCluster) == spc, "sector and cluster size as stored")
	sym.Assert(uint64(bs.ReservedSectors) == reserved && uint64(bs.NumFATs) == nfats, "reserved sectors and number of FATs as stored")
	sym.Assert(uint64(bs.RootEntryCount) == entries && bs.Media == h[21], "root entries and media as stored")
	sym.Assert(uint64(bs.SectorsPerTrack) == u16(h, 24) && uint64(bs.NumHeads) == u16(h, 26), "track geometry as stored")
	sym.Assert(uint64(bs.HiddenSectors) == u32(h, 28), "hidden sectors as stored")
	sym.Assert(uint64(bs.SectorsPerFAT) == perFAT, "sectors per FAT from whichever field is set")
	sym.Assert(uint64(bs.TotalFATSectors) == nfats*perFAT, "all FATs together")
	sym.Assert(uint64(bs.RootDirSectors) == root, "root directory sectors rounded up")
	sym.Assert(uint64(bs.BytesPerCluster) == B*S, "bytes per cluster")
	sym.Assert(uint64(bs.FirstDataSector) == first, "data follow the reserved, FAT and root sectors")
	sym.Assert(uint64(bs.TotalDataSectors) == data, "data sectors are what remains")
	sym.Assert(uint64(bs.TotalClusters) == clusters, "clusters are what remains")
	sym.Assert(bs.FATVersion == version, "the FAT version follows from the cluster count")
	sym.Assert(uint64(bs.DirentsPerCluster) == B*S/32, "directory entries per cluster")
	sym.Cover("accepted")
}

// legal is a header with the legal sector and cluster sizes taken one by one, so
// that the solver sees divisions by constants.
func legal(nB, nS int) []byte {
	h := sym.Bytes(40)
	B, S := 512<<sym.Choice(nB), 1<<sym.Choice(nS)
	h[11], h[12], h[13] = byte(B), byte(B>>8), byte(S)
	return h
}

// H_Parse: every 40-byte header with up to four FATs, for each legal pair of sizes.
func H_Parse() {
	h := legal(4, 8)
	h[16] = byte(sym.Choice(5))
	check(h)
}

// H_Sizes: every 40-byte header with illegal sizes.
func H_Sizes() {
	h := sym.Bytes(40)
	bps, spc := u16(h, 11), uint64(h[13])
	okBps := sym.Or(sym.Or(bps == 512, bps == 1024), sym.Or(bps == 2048, bps == 4096))
	okSpc := sym.And(spc != 0, spc&(spc-1) == 0)
	sym.Assume(!sym.And(okBps, okSpc))
	check(h)
}

// H_AnyFATs: every 40-byte header with any number of FATs (thorough: for every
// legal pair of sizes).
func H_AnyFATs() {
	h := legal(sym.Bound("sector sizes", 1, 4), sym.Bound("cluster sizes", 3, 8))
	check(h)
}

// H_Version: every cluster count.
func H_Version() {
	n := sym.Uint()
	v := fat.DetermineFATVersion(n)
	sym.Assert((v == 12) == (n < 4085), "fewer than 4085 clusters are FAT12")
	sym.Assert((v == 16) == (n >= 4085 && n < 65525), "fewer than 65525 clusters are FAT16")
	sym.Assert((v == 32) == (n >= 65525), "more are FAT32")
}

var errStream = errors.New("stream failure")

// H_Short: every stream shorter than a header.
func H_Short() {
	n := sym.Choice(40)
	r := &reader{data: sym.Bytes(n), step: sym.Choice(2), fail: io.EOF}
	if sym.Bool() {
		r.fail = errStream
	}
	bs, err := fat.NewFATBootSectorFromStream(r)
	sym.Assert(err != nil && bs == nil, "a short stream is an error")
}

// H_Pieces: how the stream delivers the header makes no difference.
func H_Pieces() {
	h := make([]byte, 40)
	copy(h, []byte{0xeb, 0x3c, 0x90, 'M', 'S', 'D', 'O', 'S', '5', '.', '0', 0, 2, 1, 1, 0, 2, 0xe0, 0, 0x40, 0x0b, 0xf0, 9, 0, 18, 0, 2, 0})
	h[13] = sym.Byte()
	h[14] = sym.Byte()
	a, errA := fat.NewFATBootSectorFromStream(&reader{data: append([]byte{}, h...), step: 1 + sym.Choice(3), fail: io.EOF})
	b, errB := fat.NewFATBootSectorFromStream(bytes.NewReader(h))
	sym.Assert((errA == nil) == (errB == nil), "a stream delivered in pieces parses alike")
	if errA == nil {
		sym.Assert(a.FirstDataSector == b.FirstDataSector && a.TotalClusters == b.TotalClusters && a.FATVersion == b.FATVersion, "a stream delivered in pieces parses alike")
	}
}
