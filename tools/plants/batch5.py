ns = {}
import os
exec(open(os.path.join("/verif/tools/plants/batch2.py")).read(), ns)
MEMFS, RLE, BS, BC, FAT = (ns[k] for k in ("MEMFS", "RLE", "BS", "BC", "FAT"))
FAT8 = "file_systems/fat8"
V6 = "file_systems/unixv6"

PLANTS = [
dict(id="fat-date-utc", prop="C25",
  needs="A host whose local time zone is not UTC.",
  breaks="Dates of directory entries are taken as UTC, so a last-access date names another moment.",
  edits=[(FAT+"/dirent.go", "createYear, createMonth, createDay, 0, 0, 0, 0, time.Local)",
          "createYear, createMonth, createDay, 0, 0, 0, 0, time.UTC)")],
  pkg=FAT, demo='''package fat

import ("testing"; "time")

func TestZZDemo(t *testing.T) {
	old := time.Local
	time.Local = time.FixedZone("x", 3600)
	defer func() { time.Local = old }()
	if d := DateFromInt(0x50fc); !d.Equal(time.Date(2020, 7, 28, 0, 0, 0, 0, time.Local)) { t.Fatal(d) }
}
'''),
dict(id="fat-epoch-year", prop="C27",
  needs="A moment of 1979 local time that is 1980 in the location it is given in.",
  breaks="Times before the earliest one FAT can hold are accepted when they are given in a zone to the east.",
  edits=[(FAT+"/dirent.go", """	if t.Before(fatEpoch) {
		return disko.ErrArgumentOutOfRange
	}
	d.stat.LastModified = t""", """	if t.Year() < fatEpoch.Year() {
		return disko.ErrArgumentOutOfRange
	}
	d.stat.LastModified = t""")],
  pkg=FAT, demo='''package fat

import ("testing"; "time")

func TestZZDemo(t *testing.T) {
	_, off := fatEpoch.Zone()
	var d Dirent
	when := fatEpoch.Add(-time.Minute).In(time.FixedZone("east", off+3600))
	if err := d.SetLastModifiedAt(when); err == nil { t.Fatal("accepted", when) }
}
'''),
dict(id="v6-time-signed", prop="C28",
  needs="A modification time after January 2038.",
  breaks="Modification times with the top bit set decode to a moment before 1970.",
  edits=[(V6+"/dirents.go", "LastModified: time.Unix(int64(inode.ModifiedTime), 0)",
          "LastModified: time.Unix(int64(int32(inode.ModifiedTime)), 0)")],
  pkg=V6, demo='''package unixv6

import ("testing"; "time")

func TestZZDemo(t *testing.T) {
	s, err := RawInodeToStat(1, RawInode{Flags: FlagIsAllocated, ModifiedTime: 0x80000001})
	if err != nil || !s.LastModified.Equal(time.Unix(0x80000001, 0)) { t.Fatal(s.LastModified, err) }
}
'''),
dict(id="fat8-format-used-image", prop="C21",
  needs="Formatting an image that already holds data.",
  breaks="Formatting leaves the old content in the data tracks.",
  edits=[(FAT8+"/formattingdriver.go", """	err = driver.image.Truncate(0)
	if err != nil {
		return err
	}
""", "")],
  pkg=FAT8, demo='''package fat8

import ("bytes"; "os"; "path/filepath"; "testing")

type zzOpts struct{}

func (zzOpts) Metadata() any { return nil }
func (zzOpts) TotalSizeBytes() int64 { return 640 * 128 }

func TestZZDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "img")
	if err := os.WriteFile(p, bytes.Repeat([]byte{7}, 640*128), 0o600); err != nil { t.Fatal(err) }
	f, err := os.OpenFile(p, os.O_RDWR, 0)
	if err != nil { t.Fatal(err) }
	defer f.Close()
	d := NewDriverFromFile(f)
	if err := d.FormatImage(zzOpts{}); err != nil { t.Fatal(err) }
	b, _ := os.ReadFile(p)
	if b[0] != 0 { t.Fatal(b[0]) }
}
'''),
dict(id="fat8-short-cluster", prop="C22",
  needs="Writing a cluster with less data than a cluster holds.",
  breaks="A cluster write with too little data is accepted and leaves the rest of the cluster as it was.",
  edits=[(FAT8+"/iobase.go", "if len(data) != int(driver.geometry.BytesPerCluster) {",
          "if len(data) > int(driver.geometry.BytesPerCluster) {")],
  pkg=FAT8, demo='''package fat8

import ("os"; "path/filepath"; "testing")

func TestZZDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "img")
	if err := os.WriteFile(p, make([]byte, 640*128), 0o600); err != nil { t.Fatal(err) }
	f, err := os.OpenFile(p, os.O_RDWR, 0)
	if err != nil { t.Fatal(err) }
	defer f.Close()
	d := NewDriverFromFile(f)
	if err := d.Mount(0); err != nil { t.Fatal(err) }
	if err := d.WriteAbsoluteCluster(3, make([]byte, 128)); err == nil { t.Fatal("accepted") }
}
'''),
dict(id="remove-counts-dots", prop="C17",
  needs="A file system that lists directories without the dot entries, and a directory holding one or two files.",
  breaks="A directory with up to two entries is removed as if it were empty.",
  edits=[("driver/driver.go", """		// Remove the "." and ".." since we don't care about them.
		names = removeDotsFromSlice(names)

		// If there are any other entries in here the directory isn't empty and
		// we must fail.
		if len(names) > 0 {""", """		// If there are any entries other than "." and ".." in here the directory
		// isn't empty and we must fail.
		if len(names) > 2 {""")],
  pkg="driver", demo=MEMFS.replace('names := []string{".", ".."}', 'names := []string{}')+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	d := fs.root.add("d", os.ModeDir|0o755, "")
	d.add("f", 0o644, "x")
	if err := New(fs, disko.MountFlagsAllowAll).Remove("/d"); err == nil { t.Fatal("removed") }
}
'''),
dict(id="rmall-leaks-handle", prop="C33",
  needs="A recursive removal in which the file system fails to unlink an entry.",
  breaks="The handle of an entry that could not be unlinked is never closed.",
  edits=[("driver/driver.go", """		err = dirent.Unlink()
		dirent.Close()
		if err != nil {
			return err
		}
""", """		err = dirent.Unlink()
		if err != nil {
			return err
		}
		dirent.Close()
""")],
  pkg="driver", demo=""),
dict(id="entry-mtime", prop="C30",
  needs="A directory entry whose status was changed after its content.",
  breaks="A directory entry reports the time of its last status change as its modification time.",
  edits=[("driver/dirent.go", "return dirent.stat.LastModified", "return dirent.stat.LastChanged")],
  pkg="driver", demo='''package driver

import ("testing"; "time"; "github.com/dargueta/disko")

func TestZZDemo(t *testing.T) {
	d := DirectoryEntry{stat: disko.FileStat{LastModified: time.Unix(5, 0), LastChanged: time.Unix(9, 0)}}
	if !d.ModTime().Equal(time.Unix(5, 0)) { t.Fatal(d.ModTime()) }
}
'''),
dict(id="grouper-16-bit", prop="C04",
  needs="A run of more than 65535 equal bytes.",
  breaks="Runs are cut after 65535 bytes.",
  edits=[(RLE+"/rle_grouper.go", "runLength < math.MaxInt;", "runLength < math.MaxUint16;")],
  pkg=RLE, demo='''package compression

import ("bytes"; "testing")

func TestZZDemo(t *testing.T) {
	g := NewRLEGrouperFromReader(bytes.NewReader(make([]byte, 70000)))
	r, _ := g.GetNextRun()
	if r.RunLength != 70000 { t.Fatal(r) }
}
'''),
dict(id="count-partial", prop="C05",
  needs="A destination that accepts the compressed data but reports an error together with its last bytes.",
  breaks="",
  edits=[], pkg=RLE, demo=""),
dict(id="cache-read-first-block", prop="C07",
  needs="A read over several blocks of which the first is loaded and a later one is not.",
  breaks="A range whose first block is loaded is taken to be loaded, so the rest reads as null bytes.",
  edits=[(BC+"/blockcache.go", """	numBlocks := cache.GetMinBlocksForSize(bufLen)
	err = cache.loadBlockRange(start, numBlocks)
	if err != nil {
		return 0, err
	}

	sourceData, err := cache.GetSlice(start, numBlocks)
	if err != nil {
		return 0, err
	}

	return copy(buffer, sourceData), nil""", """	if !cache.loadedBlocks.Get(int(start)) {
		err = cache.loadBlockRange(start, cache.GetMinBlocksForSize(bufLen))
		if err != nil {
			return 0, err
		}
	}
	return copy(buffer, cache.data[uint(start)*cache.bytesPerBlock:]), nil""")],
  pkg=BC, demo='''package blockcache

import ("testing"; c "github.com/dargueta/disko/file_systems/common")

func TestZZDemo(t *testing.T) {
	f := func(i c.LogicalBlock, b []byte) error { for j := range b { b[j] = 9 }; return nil }
	cache := New(2, 3, f, f, nil)
	if _, err := cache.ReadAt(make([]byte, 2), 0); err != nil { t.Fatal(err) }
	b := make([]byte, 4)
	if _, err := cache.ReadAt(b, 0); err != nil || b[3] != 9 { t.Fatal(b, err) }
}
'''),
dict(id="writeto-full-blocks", prop="C13",
  needs="", breaks="", edits=[], pkg=BS, demo=""),
]
PLANTS = [p for p in PLANTS if p["edits"] and p["demo"]]
