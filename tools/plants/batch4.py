ns = {}
import os
exec(open(os.path.join("/verif/tools/plants/batch2.py")).read(), ns)
MEMFS, RLE, BS, BC, FAT = (ns[k] for k in ("MEMFS", "RLE", "BS", "BC", "FAT"))
FAT8 = "file_systems/fat8"
V6 = "file_systems/unixv6"

PLANTS = [
dict(id="readfrom-zero-read", prop="C13",
  needs="A source that once returns no bytes and no error before it is exhausted.",
  breaks="The copy stops early and reports success when a read returns nothing.",
  edits=[(BS+"/basicstream.go", """		} else if readErr != nil {
			return totalBytesRead, readErr""", """		} else if readErr != nil || lastReadSize == 0 {
			return totalBytesRead, readErr""")],
  pkg=BS, demo='''package basicstream

import ("io"; "testing"
	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache")

type slow struct{ n int }

func (s *slow) Read(p []byte) (int, error) {
	s.n++
	switch s.n {
	case 1: return 0, nil
	case 2: p[0] = 7; return 1, nil
	}
	return 0, io.EOF
}

func TestZZDemo(t *testing.T) {
	f := func(i c.LogicalBlock, b []byte) error { return nil }
	s, err := New(0, blockcache.New(2, 2, f, f, nil), disko.O_RDWR)
	if err != nil { t.Fatal(err) }
	s.data = blockcache.New(2, 2, f, f, func(c.LogicalBlock) error { return nil })
	n, err := s.ReadFrom(&slow{})
	if n != 1 || err != nil { t.Fatal(n, err) }
}
'''),
dict(id="file-chown-silent", prop="C35",
  needs="An open file whose handle cannot change its owner.",
  breaks="Changing the owner of an open file reports success where that is not supported.",
  edits=[("driver/file.go", """		return chownHandle.Chown(uid, gid)
	}
	return disko.ErrNotSupported""", """		return chownHandle.Chown(uid, gid)
	}
	return nil""")],
  pkg="driver", demo=MEMFS+'''
type zzBare struct{ disko.ObjectHandle }

func TestZZDemo(t *testing.T) {
	fs := zzNew()
	n := fs.root.add("f", 0o644, "x")
	f, err := NewFileFromObjectHandle(New(fs, disko.MountFlagsAllowAll), wrapObjectHandle(zzBare{n}, "/f"), disko.O_RDONLY)
	if err != nil { t.Fatal(err) }
	if err := f.Chown(1, 2); err == nil { t.Fatal("accepted") }
}
'''),
dict(id="errors-percent", prop="C19",
  needs="An error whose text contains a percent sign and that is given a further message.",
  breaks="Percent signs in the text of an error are taken for formatting directives.",
  edits=[("errors.go", """		message:       fmt.Sprintf("%s: %s", e.message, message),""", """		message:       fmt.Sprintf(e.message+": %s", message),""")],
  pkg=".", demo='''package disko

import "testing"

func TestZZDemo(t *testing.T) {
	e := ErrNotFound.WithMessage("100%s").WithMessage("x")
	if e.Error() != ErrNotFound.Error()+": 100%s: x" { t.Fatal(e.Error()) }
}
'''),
dict(id="fat-cluster-bytes-16-bit", prop="C24",
  needs="A boot sector whose cluster size is a multiple of 65536 bytes.",
  breaks="The cluster size is computed in 16 bits, so such corrupt boot sectors are accepted.",
  edits=[(FAT+"/common.go", """	bytesPerCluster := uint(rawHeader.BytesPerSector) * uint(rawHeader.SectorsPerCluster)
""", """	bytesPerCluster := uint(rawHeader.BytesPerSector * uint16(rawHeader.SectorsPerCluster))
""")],
  pkg=FAT, demo='''package fat

import ("bytes"; "encoding/binary"; "testing")

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, &RawFATBootSectorWithBPB{BytesPerSector: 4096, SectorsPerCluster: 64,
		ReservedSectors: 1, NumFATs: 2, RootEntryCount: 128, TotalSectors16: 60000, SectorsPerFAT16: 1})
	b.Write(make([]byte, 4))
	if _, err := NewFATBootSectorFromStream(&b); err == nil { t.Fatal("accepted") }
}
'''),
dict(id="fat-year-signed", prop="C25",
  needs="A date after 2043.",
  breaks="The year field is taken for signed, so dates after 2043 move to before 1980.",
  edits=[(FAT+"/dirent.go", """	createYear := int(1980 + (value >> 9))
""", """	createYear := 1980 + int(int16(value)>>9)
""")],
  pkg=FAT, demo='''package fat

import "testing"

func TestZZDemo(t *testing.T) {
	if y := DateFromInt(64<<9 | 1<<5 | 1).Year(); y != 2044 { t.Fatal(y) }
}
'''),
dict(id="v6-directory-setgid", prop="C28",
  needs="A directory with the set-group-id bit.",
  breaks="The set-group-id bit of directories is dropped on its way to the file system.",
  edits=[(V6+"/dirents.go", """	if flags&os.ModeSetgid != 0 {
		mode |= FlagSetGID""", """	if flags&os.ModeSetgid != 0 && !flags.IsDir() {
		mode |= FlagSetGID""")],
  pkg=V6, demo='''package unixv6

import ("os"; "testing")

func TestZZDemo(t *testing.T) {
	f, err := ConvertStandardFlagsToFS(os.ModeDir | os.ModeSetgid | 0o755)
	if err != nil || f&FlagSetGID == 0 { t.Fatal(f, err) }
}
'''),
dict(id="lchown-follows", prop="C18",
  needs="Changing the owner of a symbolic link itself.",
  breaks="Lchown follows the link and changes the owner of the file it leads to.",
  edits=[("driver/driver.go", """	object, err := driver.getObjectAtPathNoFollow(absPath)
	if err != nil {
		return err
	}
	defer object.Close()

	chmownObject, ok""", """	object, err := driver.getObjectAtPathFollowingLink(absPath)
	if err != nil {
		return err
	}
	defer object.Close()

	chmownObject, ok""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	n := fs.root.add("f", 0o644, "x")
	l := fs.root.add("l", os.ModeSymlink | 0o777, "f")
	if err := New(fs, disko.MountFlagsAllowAll).Lchown("/l", 5, 6); err != nil { t.Fatal(err) }
	if n.uid != 0 || l.uid != 5 { t.Fatal(n.uid, l.uid) }
}
'''),
dict(id="cache-clean-before-flush", prop="C08",
  needs="A flush that fails and is tried again.",
  breaks="A block counts as clean before it is written out, so it is lost when that fails.",
  edits=[(BC+"/blockcache.go", """		// Write the block to the underlying storage.
		err = cache.flush""", """		// Write the block to the underlying storage.
		cache.dirtyBlocks.Set(blockIndex, false)
		err = cache.flush"""), (BC+"/blockcache.go", """		// Mark the flushed block as clean.
		cache.dirtyBlocks.Set(blockIndex, false)
	}""", """	}""")],
  pkg=BC, demo='''package blockcache

import ("errors"; "testing"
	c "github.com/dargueta/disko/file_systems/common")

func TestZZDemo(t *testing.T) {
	n := 0
	fetch := func(i c.LogicalBlock, b []byte) error { return nil }
	flush := func(i c.LogicalBlock, b []byte) error { n++; if n == 1 { return errors.New("x") }; return nil }
	cache := New(2, 1, fetch, flush, nil)
	cache.WriteAt([]byte{1, 2}, 0)
	if cache.Flush() == nil { t.Fatal("no error") }
	cache.Flush()
	if n != 2 { t.Fatal(n) }
}
'''),
dict(id="cache-slice-partial-block", prop="C10",
  needs="A slice whose length is no multiple of the block size.",
  breaks="The rest of the slice counts as a whole block that reaches past its end.",
  edits=[(BC+"/blockcache.go", """	return WrapStream(stream, bytesPerBlock, uint(len(storage))/bytesPerBlock, false)""", """	return WrapStream(stream, bytesPerBlock, (uint(len(storage))+bytesPerBlock-1)/bytesPerBlock, false)""")],
  pkg=BC, demo='''package blockcache

import "testing"

func TestZZDemo(t *testing.T) {
	if n := WrapSlice(make([]byte, 5), 2).TotalBlocks(); n != 2 { t.Fatal(n) }
}
'''),
dict(id="fat-dirents-8-bit", prop="C26",
  needs="A directory on a volume whose clusters hold 256 or more entries.",
  breaks="Directories on such volumes are listed without any or with only a part of their entries.",
  edits=[(FAT+"/common.go", """		DirentsPerCluster: int(bytesPerCluster) / DirentSize,""", """		DirentsPerCluster: int(uint8(bytesPerCluster / DirentSize)),""")],
  pkg=FAT, demo='''package fat

import ("bytes"; "encoding/binary"; "testing")

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, &RawFATBootSectorWithBPB{BytesPerSector: 512, SectorsPerCluster: 64,
		ReservedSectors: 1, NumFATs: 2, RootEntryCount: 112, TotalSectors16: 60000, SectorsPerFAT16: 1})
	b.Write(make([]byte, 4))
	bs, err := NewFATBootSectorFromStream(&b)
	if err != nil || bs.DirentsPerCluster != 1024 { t.Fatal(bs, err) }
}
'''),
dict(id="fat8-name-stem-only-eight", prop="C23",
  needs="A name whose extension is a single dot's worth: a name that ends with a dot and has a short stem.",
  breaks="A name that ends with a dot loses that dot.",
  edits=[(FAT8+"/common.go", """			parts[1] = \".\"
""", """			parts[1] = \"\"
""")],
  pkg=FAT8, demo='''package fat8

import "testing"

func TestZZDemo(t *testing.T) {
	b, err := FilenameToBytes("ab.")
	if err != nil || string(b) != "AB    .  " { t.Fatal(string(b), err) }
}
'''),
]
