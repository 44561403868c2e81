// Package c25: FAT directory entries and timestamps.
package c25

import (
	"errors"
	"os"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
	"github.com/dargueta/disko/zz_verif/hfat"
	"github.com/dargueta/disko/zz_verif/sym"
)

func u16(b []byte, i int) uint16 { return uint16(b[i]) | uint16(b[i+1])<<8 }
func u32(b []byte, i int) uint32 { return uint32(u16(b, i)) | uint32(u16(b, i+2))<<16 }

// H_Fields: every 32-byte entry.
func H_Fields() {
	extra := sym.Choice(2)
	b := sym.Bytes(32 + extra)
	r, err := fat.NewRawDirentFromBytes(b)
	sym.Assert(err == nil, "32 bytes are an entry")
	sym.Assert(sym.BytesEq(r.Name[:], b[0:8]), "name at 0")
	sym.Assert(sym.BytesEq(r.Extension[:], b[8:11]), "extension at 8")
	sym.Assert(r.AttributeFlags == b[11] && r.NTReserved == b[12] && r.CreatedTimeMillis == b[13], "attributes at 11, reserved at 12, hundredths at 13")
	sym.Assert(r.CreatedTime == u16(b, 14) && r.CreatedDate == u16(b, 16), "creation time at 14, date at 16")
	sym.Assert(r.LastAccessedDate == u16(b, 18), "access date at 18")
	sym.Assert(r.FirstClusterHigh == u16(b, 20) && r.FirstClusterLow == u16(b, 26), "first cluster at 20 and 26")
	sym.Assert(r.LastModifiedTime == u16(b, 22) && r.LastModifiedDate == u16(b, 24), "modification time at 22, date at 24")
	sym.Assert(r.FileSize == u32(b, 28), "size at 28")
}

// H_Short: fewer bytes are no entry.
func H_Short() {
	_, err := fat.NewRawDirentFromBytes(sym.Bytes(sym.Choice(32)))
	sym.Assert(err != nil, "fewer than 32 bytes are an error")
}

func checkMode(m os.FileMode, attr byte) {
	dir, dev := attr&0x10 != 0, attr&0x40 != 0
	sym.Assert(m.IsDir() == dir, "directories are directories")
	sym.Assert((m&os.ModeDevice != 0) == (dev && !dir), "devices are devices")
	sym.Assert(m.IsRegular() == (!dir && !dev), "everything else is a regular file")
	sym.Assert((m&0o222 == 0) == (attr&1 != 0), "read-only entries cannot be written")
	sym.Assert(m&0o222 == 0 || m&0o222 == 0o222, "who may write, all may")
	sym.Assert(m&0o444 == 0o444, "all may read")
	sym.Assert(m&(os.ModeSymlink|os.ModeNamedPipe|os.ModeSocket|os.ModeSetuid|os.ModeSetgid|os.ModeSticky) == 0, "FAT has no other kinds")
}

// H_Mode: every attribute byte.
func H_Mode() {
	attr := sym.Byte()
	checkMode(fat.AttrFlagsToFileMode(attr), attr)
}

func boot() *fat.FATBootSector {
	return hfat.New(1, 512, 1<<sym.Choice(7), 1).Boot
}

// name is what the eleven bytes spell.
func name(b []byte, tenths byte) string {
	n, e := 8, 3
	for n > 0 && b[n-1] == ' ' {
		n--
	}
	for e > 0 && b[8+e-1] == ' ' {
		e--
	}
	s := append([]byte(nil), b[:n]...)
	if n > 0 {
		switch s[0] {
		case 0x05:
			s[0] = 0xE5
		case 0xE5:
			s[0] = tenths
		}
	}
	if e > 0 {
		s = append(s, '.')
		s = append(s, b[8:8+e]...)
	}
	return string(s)
}

func raw(b []byte) *fat.RawDirent {
	r, err := fat.NewRawDirentFromBytes(b)
	sym.Assert(err == nil, "32 bytes are an entry")
	return &r
}

// H_Entry: every entry: sizes, clusters, attributes, whether it is free or deleted.
// (The calendar dates are in H_Dates; here they are fixed, valid ones.)
func H_Entry() {
	b := sym.Bytes(32)
	for _, i := range []int{16, 18, 24} {
		b[i], b[i+1] = 0x21, 0x53
	}
	bs := boot()
	d, err := fat.NewDirentFromRaw(bs, raw(b))
	if b[0] == 0 {
		sym.Assert(err != nil && errors.Is(err, disko.ErrNotFound), "an initial 0x00 marks a free entry")
		sym.Cover("free")
		return
	}
	sym.Assert(err == nil, "used and deleted entries decode")
	_, derr := d.GetDeletedAt()
	_, cerr := d.GetCreatedAt()
	sym.Assert((derr == nil) == (b[0] == 0xE5), "an initial 0xE5 marks a deleted entry")
	sym.Assert((cerr != nil) == (b[0] == 0xE5), "a deleted entry has no creation time")
	size := int64(u32(b, 28))
	cluster := uint64(u16(b, 20))<<16 | uint64(u16(b, 26))
	sym.Assert(d.Size() == size && d.Stat().Size == size, "the size is that stored")
	sym.Assert(uint64(d.FirstCluster) == cluster && d.Stat().InodeNumber == cluster, "the first cluster is that stored")
	bpc := int64(bs.BytesPerCluster)
	sym.Assert(d.Stat().BlockSize == bpc, "blocks are clusters")
	blocks := d.Stat().NumBlocks
	sym.Assert(blocks >= 0 && blocks <= 1<<32 && blocks*bpc >= size && blocks*bpc < size+bpc, "the size in clusters is rounded up")
	checkMode(d.Mode(), b[11])
	sym.Assert(d.Stat().ModeFlags == d.Mode() && d.IsDir() == (b[11]&0x10 != 0), "the kind is the same everywhere")
	sym.Assert(d.AttributeFlags == int(b[11]) && d.NTReserved == int(b[12]), "attributes are kept")
	_, ok := d.Sys().(disko.FileStat)
	sym.Assert(ok, "the system information is the status")
	sym.Cover("used")
}

// H_DeletedTimes: what stands in for the creation time of a deleted entry, whose
// bytes are used for something else, does not depend on these bytes.
func H_DeletedTimes() {
	b := sym.Bytes(32)
	for _, i := range []int{18, 24} {
		b[i], b[i+1] = 0x21, 0x53
	}
	b[0] = 0xE5
	c := append([]byte(nil), b...)
	b[16], b[17] = 0x21, 0x53
	c[13], c[14], c[15] = sym.Byte(), sym.Byte(), sym.Byte()
	c[16], c[17] = 0x42, 0x55
	d, err := fat.NewDirentFromRaw(boot(), raw(b))
	e, err2 := fat.NewDirentFromRaw(boot(), raw(c))
	sym.Assert(err == nil && err2 == nil, "used and deleted entries decode")
	sym.Assert(d.Stat().CreatedAt.Equal(e.Stat().CreatedAt), "a deleted entry has no creation time in its status")
}

// H_Name: every name and extension.
func H_Name() {
	b := sym.Bytes(32)
	for i := 14; i < 32; i++ {
		b[i] = 0
	}
	for _, i := range []int{16, 18, 24} {
		b[i], b[i+1] = 0x21, 0x53
	}
	sym.Assume(b[0] != 0)
	d, err := fat.NewDirentFromRaw(hfat.New(1, 512, 1, 1).Boot, raw(b))
	sym.Assert(err == nil, "used and deleted entries decode")
	if b[0] == 0xE5 {
		sym.Cover("deleted")
	}
	if b[0] == 5 {
		sym.Cover("0x05")
	}
	sym.Assert(d.Name() == name(b, b[13]), "the name is that stored, trimmed, with its extension")
}

// H_Any: no bytes crash the decoder.
func H_Any() {
	b := sym.Bytes(32)
	sym.Assert(!sym.Panics(func() {
		r, err := fat.NewRawDirentFromBytes(b)
		if err == nil {
			fat.NewDirentFromRaw(hfat.New(1, 512, 1, 1).Boot, &r)
		}
	}), "no entry crashes the decoder")
}

// date is any valid date: year (since 1980), month, day.
func date(split bool) (y, m, d int) {
	if split {
		// one month at a time, so that the solver need not split cases
		y, m = sym.Choice(128), 1+sym.Choice(12)
		return y, m, sym.Range(1, last(y, m))
	}
	y, m, d = sym.Range(0, 127), sym.Range(1, 12), sym.Range(1, 31)
	sym.Assume(d <= last(y, m))
	return
}

// last is the last day of the month.
func last(y, m int) int {
	leap := sym.And(y%4 == 0, y != 120) // 2100 is no leap year
	return sym.IteInt(m == 2, sym.IteInt(leap, 29, 28), sym.IteInt(sym.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))
}

// days counts the days from 1970-01-01 to the date, one month at a time.
func days(y, m, d int) int {
	n := 3652 // to 1980-01-01
	n += 365*y + (y+3)/4 - sym.IteInt(y > 120, 1, 0)
	leap := sym.And(y%4 == 0, y != 120)
	for i, len := range []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30} {
		n += sym.IteInt(m > i+1, len, 0)
	}
	n += sym.IteInt(sym.And(m > 2, leap), 1, 0)
	return n + d - 1
}

func packDate(y, m, d int) uint16 { return uint16(y<<9 | m<<5 | d) }

// local is local time's offset from UTC, in seconds.
func local() int64 {
	_, off := time.Unix(0, 0).Zone()
	return int64(off)
}

// H_Date: every valid date.
func H_Date() {
	y, m, d := date(false)
	t := fat.DateFromInt(packDate(y, m, d))
	sym.Assert(t.Unix() == int64(days(y, m, d))*86400-local(), "a date is that day's first moment")
	sym.Assert(t.Nanosecond() == 0, "a date is that day's first moment")
}

// H_TimeOfDay: every date, time, and hundredths: the moment of the day.
func H_TimeOfDay() {
	date := sym.Uint16()
	h, mi, s2 := sym.Range(0, 23), sym.Range(0, 59), sym.Range(0, 29)
	hu := sym.Range(0, 199)
	day := fat.TimestampFromParts(date, 0, 0)
	t := fat.TimestampFromParts(date, uint16(h<<11|mi<<5|s2), uint8(hu))
	sym.Assert(t.Unix()-day.Unix() == int64(h*3600+mi*60+s2*2)+int64(sym.IteInt(hu >= 100, 1, 0)), "a timestamp is the second of the day it encodes")
	sym.Assert(t.Nanosecond() == sym.IteInt(hu >= 100, hu-100, hu)*10_000_000, "hundredths are hundredths")
}

// H_TimeDate: every valid date, at midnight.
func H_TimeDate() {
	y, m, d := date(true)
	t := fat.TimestampFromParts(packDate(y, m, d), 0, 0)
	sym.Assert(t.Unix() == int64(days(y, m, d))*86400-local(), "a timestamp is of the day it encodes")
}

// H_EntryTimes: an entry's timestamps come from their own fields.
func H_EntryTimes() {
	b := sym.Bytes(32)
	b[0] = 'A'
	d, err := fat.NewDirentFromRaw(hfat.New(1, 512, 1, 1).Boot, raw(b))
	sym.Assert(err == nil, "used entries decode")
	c, err := d.GetCreatedAt()
	sym.Assert(err == nil, "used entries have a creation time")
	sym.Assert(c.Equal(fat.TimestampFromParts(u16(b, 16), u16(b, 14), b[13])), "the creation time is that stored")
	sym.Assert(d.GetLastAccessedAt().Equal(fat.DateFromInt(u16(b, 18))), "the access date is that stored")
	sym.Assert(d.GetLastModifiedAt().Equal(fat.TimestampFromParts(u16(b, 24), u16(b, 22), 0)), "the modification time is that stored")
	st := d.Stat()
	sym.Assert(st.CreatedAt.Equal(c) && st.LastAccessed.Equal(d.GetLastAccessedAt()) && st.LastModified.Equal(d.GetLastModifiedAt()), "the status says the same")
	sym.Assert(d.ModTime().Equal(st.LastModified), "the modification time is visible")
}

func moment() time.Time {
	sec := sym.Int64()
	sym.Assume(sec > -10000000000)
	sym.Assume(sec < 10000000000)
	t := time.Unix(sec, int64(sym.Range(0, 999999999)))
	switch sym.Choice(4) {
	case 1:
		return t.UTC()
	case 2:
		return t.In(time.FixedZone("east", 14*3600))
	case 3:
		return t.In(time.FixedZone("west", -12*3600))
	}
	return t
}

// H_Set: setting a timestamp of a used or deleted entry sets that one, exactly.
func H_Set() {
	v := hfat.New(1, 512, 1, 1)
	r := hfat.Entry("A", "", 0, 2, 1)
	deleted := sym.Choice(2) == 1
	if deleted {
		r.Name[0] = 0xE5
	}
	d := v.AddRoot(r)
	before := d.Stat()
	t := moment()
	which := sym.Choice(4)
	var err error
	switch which {
	case 0:
		err = d.SetCreatedAt(t)
	case 1:
		err = d.SetLastAccessedAt(t)
	case 2:
		err = d.SetLastModifiedAt(t)
	case 3:
		err = d.SetDeletedAt(t)
	}
	after := d.Stat()
	ok := !hfat.Early(t)
	if which == 0 && deleted {
		ok = false
	}
	sym.Assert((err == nil) == ok, "only times FAT can represent can be set")
	pick := func(i int, old time.Time) time.Time {
		if ok && which == i {
			return t
		}
		return old
	}
	sym.Assert(after.CreatedAt.Equal(pick(0, before.CreatedAt)), "the creation time is what it was set to")
	sym.Assert(after.LastAccessed.Equal(pick(1, before.LastAccessed)), "the access time is what it was set to")
	sym.Assert(after.LastModified.Equal(pick(2, before.LastModified)), "the modification time is what it was set to")
	sym.Assert(after.DeletedAt.Equal(pick(3, before.DeletedAt)), "the deletion time is what it was set to")
	sym.Assert(d.GetLastAccessedAt().Equal(after.LastAccessed) && d.GetLastModifiedAt().Equal(after.LastModified), "what was set can be read")
	del, derr := d.GetDeletedAt()
	c, cerr := d.GetCreatedAt()
	isDeleted := deleted || ok && which == 3
	sym.Assert((derr == nil) == isDeleted && (cerr != nil) == isDeleted, "an entry with a deletion time is deleted")
	if isDeleted {
		sym.Assert(del.Equal(after.DeletedAt), "what was set can be read")
		sym.Cover("deleted")
	} else {
		sym.Assert(c.Equal(after.CreatedAt), "what was set can be read")
		sym.Cover("used")
	}
}

// H_Timespec: every moment of the years 1980 to 2107, to the nanosecond, as seconds
// and nanoseconds since 1970.
func H_Timespec() {
	sec := sym.Int64()
	sym.Assume(sec >= 315532800-86400)
	sym.Assume(sec < 4354819200+86400)
	nsec := sym.Range(0, 999999999)
	ts := fat.TimeToTimespec(time.Unix(sec, int64(nsec)))
	sym.Assert(int64(ts.Sec) == sec, "the seconds are those of the moment")
	sym.Assert(int64(ts.Nsec) == int64(nsec), "the nanoseconds are those of the moment")
}
