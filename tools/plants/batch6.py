ns = {}
import os
exec(open(os.path.join("/verif/tools/plants/batch2.py")).read(), ns)
MEMFS, RLE, BS, BC, FAT = (ns[k] for k in ("MEMFS", "RLE", "BS", "BC", "FAT"))
FAT8 = "file_systems/fat8"

PLANTS = [
dict(id="fat-index-invalid", prop="C26",
  needs="A cluster of a file accessed by index over a link that leaves the volume.",
  breaks="A link to a cluster outside the volume is followed and given out as a cluster of the file.",
  edits=[(FAT+"/driverbase.go", """					i+1))
		} else if !drv.fs.IsValidCluster(nextCluster) {""", """					i+1))
		} else if !drv.fs.IsValidCluster(currentCluster) {""")],
  pkg=FAT, demo='''package fat

import "testing"

type zz struct{ FATDriverCommon }

func (zz) GetClusterAtIndex(uint) (ClusterID, error) { return 1, nil }
func (zz) IsValidCluster(c ClusterID) bool           { return c == 2 }
func (zz) IsEndOfChain(ClusterID) bool               { return false }

func TestZZDemo(t *testing.T) {
	if c, err := (&FATDriver{fs: zz{}}).getClusterInChain(2, 1); err == nil { t.Fatal(c) }
}
'''),
dict(id="seek-current-append", prop="C11",
  needs="Seeking relative to the current position in a stream in append mode.",
  breaks="In append mode a relative seek starts from the end of the stream instead of the position.",
  edits=[(BS+"/basicstream.go", """		absoluteOffset = stream.position + offset
""", """		absoluteOffset = stream.position + offset
		if stream.ioFlags.Append() {
			absoluteOffset = stream.size + offset
		}
"""), (BS+"/basicstream.go", "	var absoluteOffset int64\n", "	absoluteOffset := int64(0)\n")],
  pkg=BS, demo='''package basicstream

import ("io"; "testing"
	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache")

func TestZZDemo(t *testing.T) {
	f := func(i c.LogicalBlock, b []byte) error { return nil }
	s, err := New(4, blockcache.New(2, 2, f, f, nil), disko.O_RDWR|disko.O_APPEND)
	if err != nil { t.Fatal(err) }
	if n, err := s.Seek(1, io.SeekCurrent); n != 1 || err != nil { t.Fatal(n, err) }
}
'''),
dict(id="truncate-sync-growth", prop="C12",
  needs="A synchronous stream that is extended within its last block, over old content of that block.",
  breaks="Extending a stream within its last block is not written out in synchronous mode.",
  edits=[(BS+"/basicstream.go", """	newTotalBlocks := stream.data.GetMinBlocksForSize(uint(size))
""", """	newTotalBlocks := stream.data.GetMinBlocksForSize(uint(size))
	resized := newTotalBlocks != stream.data.TotalBlocks()
"""), (BS+"/basicstream.go", """	stream.size = size

	if stream.ioFlags.Synchronous() {""", """	stream.size = size

	if resized && stream.ioFlags.Synchronous() {""")],
  pkg=BS, demo='''package basicstream

import ("testing"
	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache")

func TestZZDemo(t *testing.T) {
	back := []byte{1, 2, 3, 4}
	fetch := func(i c.LogicalBlock, b []byte) error { copy(b, back); return nil }
	flush := func(i c.LogicalBlock, b []byte) error { copy(back, b); return nil }
	s, err := New(1, blockcache.New(4, 1, fetch, flush, func(c.LogicalBlock) error { return nil }), disko.O_RDWR|disko.O_SYNC)
	if err != nil { t.Fatal(err) }
	if err := s.Truncate(3); err != nil { t.Fatal(err) }
	if back[1] != 0 { t.Fatal(back) }
}
'''),
dict(id="volume-size-32-bit", prop="C29",
  needs="A volume of 4 GiB or more.",
  breaks="The size of a volume in bytes is computed in 32 bits.",
  edits=[("api.go", "return int64(stat.BlockSize) * int64(stat.TotalBlocks)",
          "return int64(uint32(stat.BlockSize) * uint32(stat.TotalBlocks))")],
  pkg=".", demo='''package disko

import "testing"

func TestZZDemo(t *testing.T) {
	s := FSStat{BlockSize: 4096, TotalBlocks: 1 << 21}
	if s.TotalSizeBytes() != 1<<33 { t.Fatal(s.TotalSizeBytes()) }
}
'''),
dict(id="fat8-stat-slashes", prop="C34",
  needs="A name with more than one leading slash.",
  breaks="A FAT8 file is also found under its name with several leading slashes.",
  edits=[(FAT8+"/readingdriver.go", 'strings.TrimPrefix(normalizedPath, "/")', 'strings.TrimLeft(normalizedPath, "/")')],
  pkg=FAT8, demo='''package fat8

import "testing"

func TestZZDemo(t *testing.T) {
	d := FAT8Driver{dirents: map[string]DirectoryEntry{"A": {IsBinary: true}}}
	if _, err := d.Stat("/A"); err != nil { t.Fatal(err) }
	if _, err := d.Stat("//A"); err == nil { t.Fatal("found") }
}
'''),
dict(id="image-truncated-bytes", prop="C05",
  needs="A container cut off in the middle, expanded to a byte slice.",
  breaks="A truncated container gives a shorter image and no error.",
  edits=[(RLE+"/compression.go", """	_, err := DecompressImage(input, writer)
	if err != nil {
		return nil, err
	}""", """	_, err := DecompressImage(input, writer)
	if err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {
		return nil, err
	}"""), (RLE+"/compression.go", '	"compress/gzip"\n', '	"compress/gzip"\n	"errors"\n')],
  pkg=RLE, demo='''package compression

import ("bytes"; "testing")

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	if _, err := CompressImage(bytes.NewReader([]byte("hello world")), &b); err != nil { t.Fatal(err) }
	if out, err := DecompressImageToBytes(bytes.NewReader(b.Bytes()[:b.Len()-6])); err == nil { t.Fatal(out) }
}
'''),
dict(id="rle8-reset-full-group", prop="C02",
  needs="An encoding in which a group with a small repeat count is followed by the same byte.",
  breaks="Only groups with the greatest repeat count end a run; after others the next equal byte is taken for a pair.",
  edits=[(RLE+"/rle8.go", """			// incorrectly, adding in extra bytes.
			lastByteRead = -1""", """			// incorrectly, adding in extra bytes.
			if repeatCountByte == 255 {
				lastByteRead = -1
			}""")],
  pkg=RLE, demo='''package compression

import ("bytes"; "testing")

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	if _, err := DecompressRLE8(bytes.NewReader([]byte{7, 7, 1, 7, 9}), &b); err != nil || !bytes.Equal(b.Bytes(), []byte{7, 7, 7, 7, 9}) { t.Fatal(b.Bytes(), err) }
}
'''),
dict(id="unzipimage-exit-zero", prop="C32",
  needs="Expanding a file that is not a container.",
  breaks="A failed expansion reports the error but exits with status zero.",
  edits=[("cmd/unzipimage/main.go", """		fmt.Fprintf(os.Stderr, "Error expanding file: %s\\n", err)
		os.Exit(2)""", """		fmt.Fprintf(os.Stderr, "Error expanding file: %s\\n", err)
		return""")],
  sh='''#!/bin/bash
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
go build -o "$t/unzip" ./cmd/unzipimage || exit 3
echo "this is not a container at all" > "$t/in"
if "$t/unzip" "$t/in" "$t/out"; then exit 1; fi
exit 0
'''),
dict(id="readlink-any-system", prop="C35",
  needs="Reading a symbolic link on a file system without symbolic links.",
  breaks="Reading a link on a file system without links is refused as a wrong argument, not as unsupported.",
  edits=[("driver/driver.go", """	if !driver.implementation.GetFSFeatures().HasSymbolicLinks {
		return "", disko.ErrNotSupported
	}

""", "")],
  pkg="driver", demo=MEMFS.replace("HasSymbolicLinks: true", "HasSymbolicLinks: false")+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	fs.root.add("f", 0o644, "x")
	_, err := New(fs, disko.MountFlagsAllowAll).Readlink("/f")
	if !errors.Is(err, disko.ErrNotSupported) { t.Fatal(err) }
}
'''),
dict(id="openfile-device", prop="C15",
  needs="Opening something that is neither a file nor a directory.",
  breaks="Devices and other special objects are opened as if they were files.",
  edits=[("driver/driver.go", """	if !stat.IsFile() {
		object.Close()""", """	if stat.IsDir() {
		object.Close()""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	fs.root.add("f", os.ModeDevice|0o644, "x")
	if _, err := New(fs, disko.MountFlagsAllowAll).Open("/f"); err == nil { t.Fatal("opened") }
}
'''),
dict(id="mkdirall-file-ancestor", prop="C17",
  needs="Recursive creation below a path whose ancestor is a file.",
  breaks="",
  edits=[], pkg="driver", demo=""),
dict(id="link-target-follows", prop="C17",
  needs="A hard link to a new name that is a dangling symbolic link.",
  breaks="A dangling symbolic link under the new name is not noticed, so a second entry of that name is made.",
  edits=[("driver/driver.go", """	newHandle, err := driver.getObjectAtPathNoFollow(absNew)
	if err == nil {
		newHandle.Close()""", """	newHandle, err := driver.getObjectAtPathFollowingLink(absNew)
	if err == nil {
		newHandle.Close()""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	fs.root.add("f", 0o644, "x")
	fs.root.add("l", os.ModeSymlink|0o777, "gone")
	if err := New(fs, disko.MountFlagsAllowAll).Link("/f", "/l"); !errors.Is(err, disko.ErrExists) { t.Fatal(err) }
}
'''),
dict(id="grow-keeps-old-mark", prop="C09", needs="", breaks="", edits=[], pkg=BC, demo=""),
]
PLANTS = [p for p in PLANTS if p["edits"]]
