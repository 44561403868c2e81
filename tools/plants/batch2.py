RLE = "utilities/compression"
BS = "file_systems/common/basicstream"
BC = "file_systems/common/blockcache"
FAT = "file_systems/fat"

# A small in-memory file system for the demonstrations of changes to the driver.
MEMFS = '''package driver

import (
	"errors"
	"os"
	"testing"
	"time"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
)

var _ = errors.Is
var _ = time.Now

const zzBlock = 4

type zzFS struct {
	disko.FileSystemImplementer
	root *zzNode
	mods int
}

type zzNode struct {
	fs     *zzFS
	name   string
	mode   os.FileMode
	data   []byte
	size   int64
	uid    int
	kids   map[string]*zzNode
	parent *zzNode
}

func zzNew() *zzFS {
	fs := &zzFS{}
	fs.root = &zzNode{fs: fs, name: "/", mode: os.ModeDir | 0o777, kids: map[string]*zzNode{}}
	return fs
}

func (n *zzNode) add(name string, mode os.FileMode, text string) *zzNode {
	k := &zzNode{fs: n.fs, name: name, mode: mode, parent: n, kids: map[string]*zzNode{}}
	k.Resize(uint64(len(text)))
	copy(k.data, text)
	n.kids[name] = k
	return k
}

func (f *zzFS) GetRootDirectory() disko.ObjectHandle { return f.root }
func (f *zzFS) GetFSFeatures() disko.FSFeatures {
	return disko.FSFeatures{HasDirectories: true, HasSymbolicLinks: true, HasHardLinks: true, HasModifiedTime: true, HasAccessedTime: true}
}
func (f *zzFS) GetObject(name string, p disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	k := p.(*zzNode).kids[name]
	if k == nil {
		return nil, disko.ErrNotFound
	}
	return k, nil
}
func (f *zzFS) CreateObject(name string, p disko.ObjectHandle, perm os.FileMode) (disko.ObjectHandle, disko.DriverError) {
	f.mods++
	return p.(*zzNode).add(name, perm, ""), nil
}
func (f *zzFS) CreateHardLink(src, p disko.ObjectHandle, name string) (disko.ObjectHandle, disko.DriverError) {
	f.mods++
	p.(*zzNode).kids[name] = src.(*zzNode)
	return src, nil
}
func (n *zzNode) Stat() disko.FileStat {
	return disko.FileStat{ModeFlags: n.mode, Size: n.size, BlockSize: zzBlock, NumBlocks: int64(len(n.data) / zzBlock), Nlinks: 1}
}
func (n *zzNode) Resize(size uint64) disko.DriverError {
	n.fs.mods++
	want := (int(size) + zzBlock - 1) / zzBlock * zzBlock
	for len(n.data) < want {
		n.data = append(n.data, 0xEE)
	}
	n.data, n.size = n.data[:want], int64(size)
	return nil
}
func (n *zzNode) ReadBlocks(i c.LogicalBlock, b []byte) disko.DriverError {
	copy(b, n.data[int(i)*zzBlock:])
	return nil
}
func (n *zzNode) WriteBlocks(i c.LogicalBlock, b []byte) disko.DriverError {
	n.fs.mods++
	copy(n.data[int(i)*zzBlock:], b)
	return nil
}
func (n *zzNode) ZeroOutBlocks(i c.LogicalBlock, count uint) disko.DriverError {
	n.fs.mods++
	clear(n.data[int(i)*zzBlock : (int(i)+int(count))*zzBlock])
	return nil
}
func (n *zzNode) Unlink() disko.DriverError {
	n.fs.mods++
	delete(n.parent.kids, n.name)
	return nil
}
func (n *zzNode) ListDir() ([]string, disko.DriverError) {
	names := []string{".", ".."}
	for k := range n.kids {
		names = append(names, k)
	}
	return names, nil
}
func (n *zzNode) Chtimes(a, b, d, e, f time.Time) disko.DriverError { n.fs.mods++; return nil }
func (n *zzNode) Chmod(m os.FileMode) disko.DriverError             { n.fs.mods++; return nil }
func (n *zzNode) Chown(u, g int) disko.DriverError                  { n.fs.mods++; n.uid = u; return nil }
func (n *zzNode) Name() string                                      { return n.name }
func (n *zzNode) SameAs(o disko.ObjectHandle) bool                  { return o == disko.ObjectHandle(n) }
func (n *zzNode) Close() error                                      { return nil }

'''

PLANTS = [
dict(id="rle8-count-pairs", prop="C01",
  needs="A run followed by a byte equal to the run's count.",
  breaks="The decoder pairs a run's count with an equal byte that follows it.",
  edits=[(RLE+"/rle8.go", """			// incorrectly, adding in extra bytes.
			lastByteRead = -1
""", """			// incorrectly, adding in extra bytes.
			lastByteRead = int(repeatCountByte)
""")],
  pkg=RLE, demo='''package compression

import ("bytes"; "testing")

func TestZZDemo(t *testing.T) {
	in := []byte{1, 1, 1, 1, 1, 3, 4}
	var mid, out bytes.Buffer
	if _, err := CompressRLE8(bytes.NewReader(in), &mid); err != nil { t.Fatal(err) }
	if _, err := DecompressRLE8(&mid, &out); err != nil { t.Fatal(err) }
	if !bytes.Equal(in, out.Bytes()) { t.Fatal(out.Bytes()) }
}
'''),
dict(id="image-flush-ignored", prop="C05",
  needs="A destination that fails on the last bytes of the container.",
  breaks="The container is written through a buffer whose final flush is not checked, so an incomplete container is a success.",
  edits=[(RLE+"/compression.go", """	writer := countingWriter{Writer: output}
""", """	buffered := bufio.NewWriter(output)
	defer buffered.Flush()
	writer := countingWriter{Writer: buffered}
""")],
  pkg=RLE, demo='''package compression

import ("bytes"; "errors"; "testing")

type zzFull struct{ left int }

func (z *zzFull) Write(p []byte) (int, error) {
	if len(p) > z.left { return 0, errors.New("full") }
	z.left -= len(p)
	return len(p), nil
}

func TestZZDemo(t *testing.T) {
	if _, err := CompressImage(bytes.NewReader(make([]byte, 3000)), &zzFull{left: 11}); err == nil { t.Fatal("an incomplete container is a success") }
}
'''),
dict(id="cache-start-wrap", prop="C06",
  needs="A starting block that is the largest unsigned integer.",
  breaks="The bounds check wraps around, so the largest block number is accepted.",
  edits=[(BC+"/blockcache.go", """	if uint(start) >= cache.totalBlocks {
		return disko.ErrArg""", """	if uint(start)+1 > cache.totalBlocks {
		return disko.ErrArg""")],
  pkg=BC, demo='''package blockcache

import ("testing"; "math"
	c "github.com/dargueta/disko/file_systems/common")

func TestZZDemo(t *testing.T) {
	f := func(i c.LogicalBlock, b []byte) error { return nil }
	cache := New(2, 3, f, f, nil)
	if cache.CheckBounds(c.LogicalBlock(math.MaxUint), 0) == nil { t.Fatal("accepted") }
}
'''),
dict(id="wrap-stream-lazy-seek", prop="C10",
  needs="Blocks read in order, where an earlier one failed part-way or the stream was moved by its owner.",
  breaks="No seek happens for the block after the one last accessed, though the stream may stand elsewhere.",
  edits=[(BC+"/blockcache.go", """	runCb := func(block c.LogicalBlock, buffer []byte, read bool) error {
		err := seekToBlock(stream, block, c.LogicalBlock(totalBlocks), bytesPerBlock)
		if err != nil {
			return err
		}
""", """	nextBlock := c.LogicalBlock(0)
	runCb := func(block c.LogicalBlock, buffer []byte, read bool) error {
		var err error
		if block != nextBlock || block == 0 || uint(block) >= totalBlocks {
			err = seekToBlock(stream, block, c.LogicalBlock(totalBlocks), bytesPerBlock)
			if err != nil {
				return err
			}
		}
		nextBlock = block + 1
""")],
  pkg=BC, demo='''package blockcache

import ("bytes"; "errors"; "io"; "testing"
	"github.com/xaionaro-go/bytesextra")

type zzOnce struct {
	io.ReadWriteSeeker
	bad bool
}

func (z *zzOnce) Read(p []byte) (int, error) {
	if z.bad {
		z.bad = false
		z.ReadWriteSeeker.Read(p[:1])
		return 1, errors.New("fault")
	}
	return z.ReadWriteSeeker.Read(p)
}

func TestZZDemo(t *testing.T) {
	z := &zzOnce{ReadWriteSeeker: bytesextra.NewReadWriteSeeker([]byte("aabbcc"))}
	cache := WrapStream(z, 2, 3, false)
	b := make([]byte, 2)
	z.bad = true
	if _, err := cache.ReadAt(b, 0); err == nil { t.Fatal("no error") }
	if _, err := cache.ReadAt(b, 1); err != nil || !bytes.Equal(b, []byte("bb")) { t.Fatal(string(b), err) }
}
'''),
dict(id="readfrom-unexpected-eof", prop="C13",
  needs="A source that ends early and says so with io.ErrUnexpectedEOF.",
  breaks="The copy reports success although the source was cut short.",
  edits=[(BS+"/basicstream.go", """		lastReadSize, readErr := r.Read(buffer)
""", """		lastReadSize, readErr := io.ReadFull(r, buffer)
		if readErr == io.ErrUnexpectedEOF {
			readErr = io.EOF
		}
""")],
  pkg=BS, demo='''package basicstream

import ("io"; "strings"; "testing"
	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache")

type zzCut struct{ r io.Reader }

func (z zzCut) Read(p []byte) (int, error) {
	n, err := z.r.Read(p)
	if err == io.EOF { err = io.ErrUnexpectedEOF }
	return n, err
}

func TestZZDemo(t *testing.T) {
	f := func(i c.LogicalBlock, b []byte) error { return nil }
	cache := blockcache.New(4, 2, f, f, func(n c.LogicalBlock) error { return nil })
	s, err := New(0, cache, disko.O_RDWR)
	if err != nil { t.Fatal(err) }
	if _, err := s.ReadFrom(zzCut{strings.NewReader("abc")}); err == nil { t.Fatal("success") }
}
'''),
dict(id="openfile-keeps-tail", prop="C15",
  needs="Overwriting an existing file with shorter data.",
  breaks="WriteFile leaves the end of the longer old contents in place when the new data is not empty.",
  edits=[("driver/driver.go", """		disko.O_WRONLY|disko.O_CREATE|disko.O_TRUNC,
		perm,
	)
	if err != nil {
		return err
	}

	_, err = handle.Write(data)
""", """		disko.O_WRONLY|disko.O_CREATE,
		perm,
	)
	if err != nil {
		return err
	}

	if len(data) == 0 {
		err = handle.Truncate(0)
	} else {
		_, err = handle.Write(data)
	}
""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	fs.root.add("f", 0o666, "old contents")
	d := New(fs, disko.MountFlagsAllowAll)
	if err := d.WriteFile("/f", []byte("new"), 0o666); err != nil { t.Fatal(err) }
	b, err := d.ReadFile("/f")
	if err != nil || string(b) != "new" { t.Fatal(string(b), err) }
}
'''),
dict(id="insert-implies-write", prop="C16",
  needs="A volume mounted with insert but without write permission.",
  breaks="Existing files can be opened for writing if creating files is allowed.",
  edits=[("api.go", "return flags&MountFlagsAllowWrite != 0", "return flags&(MountFlagsAllowWrite|MountFlagsAllowInsert) != 0")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	fs.root.add("f", 0o666, "old contents")
	fs.mods = 0
	d := New(fs, disko.MountFlagsAllowRead | disko.MountFlagsAllowInsert)
	d.WriteFile("/f", []byte("new"), 0o666)
	if fs.mods != 0 { t.Fatal("the file was changed") }
}
'''),
dict(id="symlink-two-levels", prop="C18",
  needs="A symbolic link to a symbolic link as the final component.",
  breaks="Only the first of several links in a row is followed.",
  edits=[("driver/driver.go", """		// Update the file stats for the next loop iteration.
		stat = object.Stat()
	}

	return object, nil""", """		// Update the file stats for the next loop iteration.
		stat = object.Stat()
		if stat.IsSymlink() && object.Name() == posixpath.Base(originalPath) {
			break
		}
	}

	return object, nil""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	fs.root.add("a", os.ModeSymlink | 0o777, "d/a")
	d := fs.root.add("d", os.ModeDir | 0o777, "")
	d.add("a", os.ModeSymlink | 0o777, "../f")
	fs.root.add("f", 0o666, "text")
	b, err := New(fs, disko.MountFlagsAllowAll).ReadFile("/a")
	if err != nil || string(b) != "text" { t.Fatal(string(b), err) }
}
'''),
dict(id="fat8-name-leading-space", prop="C23",
  needs="A name that begins with a space.",
  breaks="Decoding a name removes spaces before the stem as well as the padding after it.",
  edits=[("file_systems/fat8/common.go", 'stem := bytes.TrimRight(rawName[:6], " ")', 'stem := bytes.Trim(rawName[:6], " ")')],
  pkg="file_systems/fat8", demo='''package fat8

import "testing"

func TestZZDemo(t *testing.T) {
	b, err := FilenameToBytes(" a.b")
	if err != nil { t.Fatal(err) }
	if s, err := BytesToFilename(b); err != nil || s != " A.B" { t.Fatalf("%q %v", s, err) }
}
'''),
dict(id="fat-hundredths-100", prop="C25",
  needs="A creation time whose 10 ms part is exactly 100.",
  breaks="A fine creation time of exactly one second is lost: 100 is not carried.",
  edits=[(FAT+"/dirent.go", """	if hundredths >= 100 {
		seconds += 1
		hundredths -= 100
	}
""", """	if hundredths > 100 {
		seconds += 1
	}
	hundredths %= 100
""")],
  pkg=FAT, demo='''package fat

import ("testing"; "time")

func TestZZDemo(t *testing.T) {
	got := TimestampFromParts(0x50fc, 0, 100)
	want := time.Date(2020, 7, 28, 0, 0, 1, 0, time.Local)
	if !got.Equal(want) { t.Fatal(got) }
}
'''),
dict(id="fat-sector-16-bit", prop="C26",
  needs="A cluster that lies more than 65535 sectors into the data region.",
  breaks="The sector of a cluster is computed in 16 bits, so clusters far into a large volume are read from the wrong place.",
  edits=[(FAT+"/driverbase.go", "		uint32(bootSector.SectorsPerCluster)*uint32(cluster-2)), nil", "		uint16(bootSector.SectorsPerCluster)*uint16(cluster-2)), nil")],
  pkg=FAT, demo='''package fat

import "testing"

type zzFAT struct{ FATDriverCommon }

func (z zzFAT) GetBootSector() *FATBootSector {
	bs := &FATBootSector{FirstDataSector: 10}
	bs.SectorsPerCluster = 64
	return bs
}

func TestZZDemo(t *testing.T) {
	drv := FATDriver{fs: zzFAT{}}
	if s, err := drv.getFirstSectorOfCluster(2002); err != nil || s != 128010 { t.Fatal(s, err) }
}
'''),
dict(id="fat-dir-past-end", prop="C26",
  needs="A directory of several clusters whose first free entry is not in the last of them.",
  breaks="Listing goes on after the end of the directory when the chain has further clusters.",
  edits=[(FAT+"/driverbase.go", """		if len(clusterDirents) < bootSector.DirentsPerCluster {
			break
		}
""", """		if len(clusterDirents) == 0 && bootSector.DirentsPerCluster > 0 {
			break
		}
""")],
  pkg=FAT, demo='''package fat

import ("bytes"; "testing")

type zzFAT struct{ FATDriverCommon }

func (z zzFAT) GetBootSector() *FATBootSector {
	bs := &FATBootSector{BytesPerCluster: 512, DirentsPerCluster: 16}
	bs.BytesPerSector, bs.SectorsPerCluster = 512, 1
	return bs
}
func (z zzFAT) GetClusterAtIndex(i uint) (ClusterID, error) {
	if i == 2 { return 3, nil }
	return 0xfff, nil
}
func (z zzFAT) IsValidCluster(x ClusterID) bool { return x == 2 || x == 3 }
func (z zzFAT) IsEndOfChain(x ClusterID) bool   { return x == 0xfff }

func TestZZDemo(t *testing.T) {
	image := make([]byte, 1024)
	copy(image, "A          ")
	copy(image[512:], "OLD        ")
	drv := FATDriver{fs: zzFAT{}, diskFile: bytes.NewReader(image)}
	dir := newRootDirent()
	dir.isRoot = false
	dir.FirstCluster = 2
	list, err := drv.readDirFromDirent(&dir)
	if err != nil || len(list) != 1 { t.Fatal(len(list), err) }
}
'''),
dict(id="fat-remove-parent", prop="C27",
  needs="Freeing a cluster fails part-way through a chain.",
  breaks="A failure to free a cluster other than the first is passed over, leaving it marked used while those before it are freed.",
  edits=[(FAT+"/driverbase.go", """	for i := len(fileClusters) - 1; i >= 0; i-- {
		err = drv.fs.FreeCluster(fileClusters[i])
		if err != nil {
			return err
		}
	}

	return nil
}""", """	for i := len(fileClusters) - 1; i >= 0; i-- {
		err = drv.fs.FreeCluster(fileClusters[i])
		if err != nil && i == 0 {
			return err
		}
	}

	return err
}""")],
  pkg=FAT, demo='''package fat

import ("errors"; "testing")

type zzFAT struct {
	FATDriverCommon
	freed []ClusterID
}

func (z *zzFAT) GetBootSector() *FATBootSector { return &FATBootSector{BytesPerCluster: 512, DirentsPerCluster: 16} }
func (z *zzFAT) ListRootDirectory() ([]Dirent, error) {
	raw := RawDirent{Name: [8]byte{'F', ' ', ' ', ' ', ' ', ' ', ' ', ' '}, Extension: [3]byte{' ', ' ', ' '}, FirstClusterLow: 2, FileSize: 700}
	d, err := NewDirentFromRaw(z.GetBootSector(), &raw)
	return []Dirent{d}, err
}
func (z *zzFAT) GetClusterAtIndex(i uint) (ClusterID, error) {
	if i == 2 { return 3, nil }
	return 0xfff, nil
}
func (z *zzFAT) IsValidCluster(x ClusterID) bool  { return x == 2 || x == 3 }
func (z *zzFAT) IsEndOfChain(x ClusterID) bool    { return x == 0xfff }
func (z *zzFAT) DeleteDirent(d, p *Dirent) error  { return nil }
func (z *zzFAT) FreeCluster(x ClusterID) error {
	if x == 3 { return errors.New("fault") }
	z.freed = append(z.freed, x)
	return nil
}

func TestZZDemo(t *testing.T) {
	z := &zzFAT{}
	drv := FATDriver{fs: z}
	if err := drv.Remove("/F"); err == nil || len(z.freed) > 0 { t.Fatal(err, z.freed) }
}
'''),
dict(id="geometry-rounds-down", prop="C29",
  needs="A geometry whose size in bits is not a multiple of eight, with an odd number of heads.",
  breaks="The size in bytes is computed per head and rounded up there, which is too much for several heads.",
  edits=[("disks/disks.go", """		g.BitsPerAddressUnit * g.AddressUnitsPerSector * g.SectorsPerTrack *
			g.TotalDataTracks * g.Heads)
	if bits%8 == 0 {
		return bits / 8
	}
	return (bits / 8) + 1""", """		g.BitsPerAddressUnit * g.AddressUnitsPerSector * g.SectorsPerTrack *
			g.TotalDataTracks)
	heads := int64(g.Heads)
	if bits%8 == 0 {
		return bits / 8 * heads
	}
	return (bits/8 + 1) * heads""")],
  pkg="disks", demo='''package disks

import "testing"

func TestZZDemo(t *testing.T) {
	g := DiskGeometry{BitsPerAddressUnit: 12, AddressUnitsPerSector: 1, SectorsPerTrack: 1, TotalDataTracks: 1, Heads: 2}
	if g.TotalSizeBytes() != 3 { t.Fatal(g.TotalSizeBytes()) }
}
'''),
dict(id="geometry-folded-slug", prop="C31",
  needs="A slug in another letter case.",
  breaks="Slugs that differ from those of the table in letter case are found.",
  edits=[("disks/disks.go", """	geometry, ok := diskGeometries[slug]
	if ok {
		return geometry, nil
	}
""", """	geometry, ok := diskGeometries[strings.ToLower(slug)]
	if ok {
		return geometry, nil
	}
""")],
  pkg="disks", demo='''package disks

import ("strings"; "testing")

func TestZZDemo(t *testing.T) {
	for slug := range diskGeometries {
		if _, err := GetPredefinedDiskGeometry(strings.ToUpper(slug)); err == nil && strings.ToUpper(slug) != slug { t.Fatal(slug) }
		if g, err := GetPredefinedDiskGeometry(slug); err != nil || g.Slug != slug { t.Fatal(slug, err) }
	}
}
'''),
dict(id="geometry-default-heads", prop="C31",
  needs="A row of the table whose hidden tracks are not zero.",
  breaks="Hidden tracks are added to the data tracks of the looked-up geometry.",
  edits=[("disks/disks.go", """		diskGeometries[row.Slug] = row
	}""", """		if row.HiddenTracks != 0 && row.Heads == 1 {
			row.TotalDataTracks += row.HiddenTracks
		}
		diskGeometries[row.Slug] = row
	}""")],
  pkg="disks", demo='''package disks

import ("strconv"; "strings"; "testing")

func TestZZDemo(t *testing.T) {
	lines := strings.Split(strings.TrimSpace(diskGeometriesRawCSV), "\\n")
	col := -1
	slug := -1
	for i, h := range strings.Split(lines[0], "|") {
		if strings.TrimSpace(h) == "total_data_tracks" { col = i }
		if strings.TrimSpace(h) == "slug" { slug = i }
	}
	for _, l := range lines[1:] {
		f := strings.Split(l, "|")
		n, _ := strconv.Atoi(f[col])
		g, err := GetPredefinedDiskGeometry(f[slug])
		if err != nil || int(g.TotalDataTracks) != n { t.Fatal(f[slug], g.TotalDataTracks, n, err) }
	}
}
'''),
dict(id="normalize-fast-path", prop="C14",
  needs="An absolute path without dots or doubled slashes but with a slash at its end.",
  breaks="Absolute paths that look clean are returned as they are, a slash at the end included.",
  edits=[("driver/driver.go", """	path = posixpath.Clean(filepath.ToSlash(path))
	if posixpath.IsAbs(path) {
		return path
	}
	return posixpath""", """	path = filepath.ToSlash(path)
	if posixpath.IsAbs(path) && !strings.Contains(path, "//") && !strings.Contains(path, "/.") {
		// Nothing to do.
		return path
	}

	path = posixpath.Clean(path)
	if posixpath.IsAbs(path) {
		return path
	}
	return posixpath""")],
  pkg="driver", demo='''package driver

import ("testing"; "github.com/dargueta/disko")

func TestZZDemo(t *testing.T) {
	d := New(nil, disko.MountFlagsAllowAll)
	if got := d.NormalizePath("/a/b/"); got != "/a/b" { t.Fatal(got) }
	if got := d.NormalizePath("/a/./b"); got != "/a/b" { t.Fatal(got) }
}
'''),
dict(id="unzipimage-no-truncate", prop="C32",
  needs="An output file that exists already and is longer than the image.",
  breaks="The image is written over an existing output file without emptying it first.",
  edits=[("cmd/unzipimage/main.go", "outFile, errOut := os.Create(outputFilePath)", "outFile, errOut := os.OpenFile(outputFilePath, os.O_RDWR|os.O_CREATE, 0o666)")],
  sh="""#!/bin/bash
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
go build -o "$t/zip" ./cmd/zipimage && go build -o "$t/unzip" ./cmd/unzipimage || exit 2
printf 'abc' > "$t/in"
printf 'something longer' > "$t/out"
"$t/zip" "$t/in" "$t/mid" && "$t/unzip" "$t/mid" "$t/out" && cmp "$t/in" "$t/out"
"""),
]
