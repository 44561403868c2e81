RLE = "utilities/compression"
PLANTS = [
dict(id="rle-truncated-source", prop="C04",
  needs="A source that fails part-way with io.ErrUnexpectedEOF, as a nested reader of a truncated file does.",
  breaks="Compression reports success for a truncated source: the failure is taken for the end of the data.",
  edits=[(RLE+"/rle8.go", """		run, getRunErr := grouper.GetNextRun()
		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
			// An error was encountered and it's *not* EOF.
			return totalBytesWritten, getRunErr
		}

		for run""", """		run, getRunErr := grouper.GetNextRun()
		atEnd := errors.Is(getRunErr, io.EOF) || errors.Is(getRunErr, io.ErrUnexpectedEOF)
		if getRunErr != nil && !atEnd {
			// An error was encountered and it's *not* EOF.
			return totalBytesWritten, getRunErr
		}

		for run""")],
  pkg=RLE, demo='''package compression

import ("bytes"; "io"; "testing")

type zzFail struct{ r io.Reader }

func (z zzFail) Read(p []byte) (int, error) {
	n, err := z.r.Read(p)
	if err == io.EOF { err = io.ErrUnexpectedEOF }
	return n, err
}

func TestZZDemo(t *testing.T) {
	var out bytes.Buffer
	_, err := CompressRLE8(zzFail{bytes.NewReader([]byte("aabbbc"))}, &out)
	if err == nil { t.Fatal("truncated source accepted") }
}
'''),
dict(id="recursive-multiple-of-255", prop="C03",
  needs="A run whose length minus two is an exact multiple of 255, for example 257 equal bytes.",
  breaks="The recursive encoder leaves out the final zero of the count, so the stream is not canonical and the decoder misreads what follows.",
  edits=[(RLE+"/rle8.go", """			_, err = output.Write([]byte{byte(remainder)})
			if err != nil {
				return totalBytesWritten, err
			}

			totalBytesWritten++
""", """			if remainder > 0 || num255Repetitions == 0 {
				_, err = output.Write([]byte{byte(remainder)})
				if err != nil {
					return totalBytesWritten, err
				}

				totalBytesWritten++
			}
""")],
  pkg=RLE, demo='''package compression

import ("bytes"; "testing")

func TestZZDemo(t *testing.T) {
	in := append(bytes.Repeat([]byte{7}, 257), 9)
	var enc, dec bytes.Buffer
	if _, err := CompressRLERecursive(bytes.NewReader(in), &enc); err != nil { t.Fatal(err) }
	want := []byte{7, 7, 255, 0, 9}
	if !bytes.Equal(enc.Bytes(), want) { t.Fatalf("got %v want %v", enc.Bytes(), want) }
	if _, err := DecompressRLERecursive(&enc, &dec); err != nil || !bytes.Equal(dec.Bytes(), in) { t.Fatal("round trip") }
}
'''),
dict(id="cache-partial-load", prop="C07",
  needs="The first and last block of a range are cached while a block between them is not, then the range is read.",
  breaks="Blocks in the middle of a range are never fetched and read as zeros.",
  edits=[("file_systems/common/blockcache/blockcache.go", """	for blockIndex := uint(start); blockIndex < uint(start)+count; blockIndex++ {
		// Skip if the block is in the cache.""", """	// Nothing to do if the range is already in the cache.
	lastBlock := uint(start) + count - 1
	if count > 0 && cache.loadedBlocks.Get(int(start)) && cache.loadedBlocks.Get(int(lastBlock)) {
		return nil
	}

	for blockIndex := uint(start); blockIndex < uint(start)+count; blockIndex++ {
		// Skip if the block is in the cache.""")],
  pkg="file_systems/common/blockcache", demo='''package blockcache

import ("bytes"; "testing")

func TestZZDemo(t *testing.T) {
	store := []byte{1, 2, 3, 4, 5, 6}
	c := WrapSlice(store, 2)
	b := make([]byte, 2)
	c.ReadAt(b, 0)
	c.ReadAt(b, 2)
	all := make([]byte, 6)
	if _, err := c.ReadAt(all, 0); err != nil || !bytes.Equal(all, []byte{1, 2, 3, 4, 5, 6}) { t.Fatalf("%v %v", all, err) }
}
'''),
dict(id="cache-loaded-before-fetch", prop="C08",
  needs="A fetch fails once; the block is accessed again after the fault has cleared.",
  breaks="A block whose fetch failed counts as loaded, so the retry returns garbage instead of the stored data.",
  edits=[("file_systems/common/blockcache/blockcache.go", """		// Load the block from backing storage directly into the cache.
		err = cache.fetch""", """		// Mark the block as present and clean.
		cache.loadedBlocks.Set(int(blockIndex), true)
		cache.dirtyBlocks.Set(int(blockIndex), false)

		// Load the block from backing storage directly into the cache.
		err = cache.fetch"""), ("file_systems/common/blockcache/blockcache.go", """				blockIndex,
				err,
			)
		}

		// Mark the block as present and clean.
		cache.loadedBlocks.Set(int(blockIndex), true)
		cache.dirtyBlocks.Set(int(blockIndex), false)
	}
""", """				blockIndex,
				err,
			)
		}
	}
""")],
  pkg="file_systems/common/blockcache", demo='''package blockcache

import ("errors"; "testing"
	c "github.com/dargueta/disko/file_systems/common")

func TestZZDemo(t *testing.T) {
	bad := true
	cache := New(2, 1, func(i c.LogicalBlock, b []byte) error {
		if bad { return errors.New("fault") }
		b[0], b[1] = 8, 9
		return nil
	}, func(i c.LogicalBlock, b []byte) error { return nil }, nil)
	b := make([]byte, 2)
	if _, err := cache.ReadAt(b, 0); err == nil { t.Fatal("no error") }
	bad = false
	if _, err := cache.ReadAt(b, 0); err != nil || b[0] != 8 || b[1] != 9 { t.Fatal(b, err) }
}
'''),
dict(id="cache-shrink-then-grow", prop="C09",
  needs="A cache is shrunk and then grown again within its earlier size.",
  breaks="Re-added blocks show the data they had before the shrink instead of zeros.",
  edits=[("file_systems/common/blockcache/blockcache.go", """	newCacheData := make([]byte, uint(newTotalBlocks)*cache.bytesPerBlock)
	copy(newCacheData, cache.data)
""", """	newSize := uint(newTotalBlocks) * cache.bytesPerBlock
	newCacheData := cache.data
	if newSize <= uint(cap(newCacheData)) {
		newCacheData = newCacheData[:newSize]
	} else {
		newCacheData = make([]byte, newSize)
		copy(newCacheData, cache.data)
	}
""")],
  pkg="file_systems/common/blockcache", demo='''package blockcache

import ("testing"
	c "github.com/dargueta/disko/file_systems/common")

func TestZZDemo(t *testing.T) {
	f := func(i c.LogicalBlock, b []byte) error { b[0] = 5; return nil }
	cache := New(1, 2, f, f, func(n c.LogicalBlock) error { return nil })
	cache.LoadAll()
	cache.Resize(1)
	cache.Resize(2)
	b := make([]byte, 1)
	if _, err := cache.ReadAt(b, 1); err != nil || b[0] != 0 { t.Fatal(b, err) }
}
'''),
dict(id="stream-seek-end", prop="C11",
  needs="Seeking from the end of a stream whose size is not a multiple of the block size.",
  breaks="SeekEnd counts from the end of the storage instead of the end of the stream.",
  edits=[("file_systems/common/basicstream/basicstream.go", """		absoluteOffset = stream.size + offset
""", """		absoluteOffset = stream.data.Size() + offset
""")],
  pkg="file_systems/common/basicstream", demo='''package basicstream

import ("io"; "testing"
	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common/blockcache")

func TestZZDemo(t *testing.T) {
	s, err := New(3, blockcache.WrapSlice(make([]byte, 4), 2), disko.O_RDWR)
	if err != nil { t.Fatal(err) }
	if n, err := s.Seek(0, io.SeekEnd); err != nil || n != 3 { t.Fatal(n, err) }
}
'''),
dict(id="stream-append-writeat", prop="C12",
  needs="WriteAt at exactly the end of a stream opened for appending.",
  breaks="A write at an explicit offset is accepted in append mode.",
  edits=[("file_systems/common/basicstream/basicstream.go", """	if stream.ioFlags.Append() {
		return 0, disko.ErrNotPermitted
	}
	return stream.implWriteAt""", """	if stream.ioFlags.Append() && offset != stream.size {
		return 0, disko.ErrNotPermitted
	}
	return stream.implWriteAt""")],
  pkg="file_systems/common/basicstream", demo='''package basicstream

import ("testing"
	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common/blockcache")

func TestZZDemo(t *testing.T) {
	s, err := New(1, blockcache.WrapSlice(make([]byte, 4), 2), disko.O_RDWR|disko.O_APPEND)
	if err != nil { t.Fatal(err) }
	if n, err := s.WriteAt([]byte{1}, 1); err == nil || n != 0 { t.Fatal(n, err) }
}
'''),
dict(id="errors-cast-unwraps", prop="C19",
  needs="A driver error wrapped by another package (fmt.Errorf with %w) is converted to a driver error.",
  breaks="The conversion returns the inner error, so the result no longer matches the original and loses its text.",
  edits=[("errors.go", """	if driverError, ok := err.(DriverError); ok {
		return driverError
	}
""", """	var driverError DriverError
	if errors.As(err, &driverError) {
		return driverError
	}
"""), ("errors.go", '''import (
	"fmt"
''', '''import (
	"errors"
	"fmt"
''')],
  pkg=".", demo='''package disko

import ("errors"; "fmt"; "testing")

func TestZZDemo(t *testing.T) {
	e := fmt.Errorf("outer: %w", ErrNotFound)
	d := CastToDriverError(e)
	if !errors.Is(d, e) { t.Fatal("original error lost") }
}
'''),
dict(id="flags-mode-three", prop="C20",
  needs="A flag word whose access mode bits are both set, which is no access mode.",
  breaks="The invalid access mode 3 counts as writable.",
  edits=[("flags.go", """	masked := flags & O_ACCMODE
	return masked == O_RDWR || masked == O_WRONLY
""", """	return flags&(O_RDWR|O_WRONLY) != 0
""")],
  pkg=".", demo='''package disko

import "testing"

func TestZZDemo(t *testing.T) {
	if (O_RDWR | O_WRONLY).Write() { t.Fatal("3 is writable") }
	if !O_RDWR.Write() || !O_WRONLY.Write() || O_RDONLY.Write() { t.Fatal("modes") }
}
'''),
dict(id="rmall-hidden-files", prop="C17",
  needs="Recursive removal of a directory holding an entry whose name begins with a dot.",
  breaks="Entries such as .profile are taken for the . and .. entries and left behind.",
  edits=[("driver/driver.go", """		if name == "." || name == ".." {
			continue
		}

		dirent, err :=""", """		if strings.HasPrefix(name, ".") {
			continue
		}

		dirent, err :=""")],
  pkg="driver", demo='''package driver

import ("os"; "testing"
	"github.com/dargueta/disko")

type zzImpl struct {
	disko.FileSystemImplementer
	objs map[string]*zzObj
}
type zzObj struct {
	disko.ObjectHandle
	impl *zzImpl
	name string
	dir  bool
}

func (i *zzImpl) GetRootDirectory() disko.ObjectHandle { return i.objs["/"] }
func (i *zzImpl) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	if o := i.objs[name]; o != nil { return o, nil }
	return nil, disko.ErrNotFound
}
func (o *zzObj) Stat() disko.FileStat {
	if o.dir { return disko.FileStat{ModeFlags: os.ModeDir | 0o777} }
	return disko.FileStat{ModeFlags: 0o666}
}
func (o *zzObj) Close() error                          { return nil }
func (o *zzObj) Name() string                          { return o.name }
func (o *zzObj) SameAs(x disko.ObjectHandle) bool      { return o == x }
func (o *zzObj) Unlink() disko.DriverError             { delete(o.impl.objs, o.name); return nil }
func (o *zzObj) ListDir() ([]string, disko.DriverError) { return []string{".", "..", ".x"}, nil }

func TestZZDemo(t *testing.T) {
	impl := &zzImpl{objs: map[string]*zzObj{}}
	impl.objs["/"] = &zzObj{impl: impl, name: "/", dir: true}
	impl.objs["d"] = &zzObj{impl: impl, name: "d", dir: true}
	impl.objs[".x"] = &zzObj{impl: impl, name: ".x"}
	if err := New(impl, disko.MountFlagsAllowAll).RemoveAll("/d"); err != nil { t.Fatal(err) }
	if len(impl.objs) != 1 { t.Fatal("something is left") }
}
'''),
dict(id="fat8-free-space-2002", prop="C21",
  needs="Formatting a 2002-block image, whose 77 tracks are more than the 73 that hold data.",
  breaks="The reported free space includes the four tracks that cannot hold data.",
  edits=[("file_systems/fat8/formattingdriver.go", "availableBlocks := uint64((geo.TotalTracks - 1) * geo.SectorsPerTrack)", "availableBlocks := uint64((geo.TrueTotalTracks - 1) * geo.SectorsPerTrack)")],
  pkg="file_systems/fat8", demo='''package fat8

import ("os"; "path/filepath"; "testing"
	"github.com/dargueta/disko/disks")

type zzOpt struct{ disks.BasicFormatterOptions }

func (zzOpt) TotalSizeBytes() int64 { return 2002 * 128 }

func TestZZDemo(t *testing.T) {
	f, err := os.Create(filepath.Join(t.TempDir(), "image"))
	if err != nil { t.Fatal(err) }
	defer f.Close()
	d := NewDriverFromFile(f)
	if err := d.FormatImage(zzOpt{}); err != nil { t.Fatal(err) }
	if d.FSStat().BlocksFree != 72*26 { t.Fatal(d.FSStat().BlocksFree) }
}
'''),
dict(id="fat8-fat-copy", prop="C22",
  needs="An image whose third FAT copy differs from the first two only in its last sector byte beyond the used entries.",
  breaks="Disagreement of the FAT copies beyond the used entries is not noticed at mount.",
  edits=[("file_systems/fat8/iobase.go", "	} else if !bytes.Equal(firstFAT, thirdFAT) {", "	} else if !bytes.HasPrefix(thirdFAT, firstFAT[:driver.geometry.TotalClusters]) {")],
  pkg="file_systems/fat8", demo='''package fat8

import ("os"; "path/filepath"; "testing")

func TestZZDemo(t *testing.T) {
	f, err := os.Create(filepath.Join(t.TempDir(), "image"))
	if err != nil { t.Fatal(err) }
	defer f.Close()
	b := make([]byte, 640*128)
	b[18*16*128-1] = 1
	if _, err := f.Write(b); err != nil { t.Fatal(err) }
	d := NewDriverFromFile(f)
	if err := d.Mount(0); err == nil { t.Fatal("mounted") }
}
'''),
dict(id="fat-cluster-limit", prop="C24",
  needs="A volume of exactly 4085 clusters, the smallest FAT16 volume.",
  breaks="The volume is taken for FAT12.",
  edits=[("file_systems/fat/common.go", "	if totalClusters < 4085 {", "	if totalClusters <= 4085 {")],
  pkg="file_systems/fat", demo='''package fat

import "testing"

func TestZZDemo(t *testing.T) {
	if DetermineFATVersion(4085) != 16 || DetermineFATVersion(4084) != 12 { t.Fatal("version") }
}
'''),
dict(id="v6-block-count", prop="C28",
  needs="An inode whose size has bits above the 16-bit low word.",
  breaks="The block count is computed from the low word of the size alone.",
  edits=[("file_systems/unixv6/dirents.go", """	blocks := size / 512
	if size%512 != 0 {""", """	blocks := uint(uint16(size)) / 512
	if size%512 != 0 {""")],
  pkg="file_systems/unixv6", demo='''package unixv6

import "testing"

func TestZZDemo(t *testing.T) {
	s, err := RawInodeToStat(1, RawInode{Flags: FlagIsAllocated, Size: [3]byte{1, 0, 0}})
	if err != nil || s.Size != 65536 || s.NumBlocks != 128 { t.Fatal(s, err) }
}
'''),
dict(id="readdir-no-eof", prop="C30",
  needs="Paging through a directory whose entries are used up exactly by a page.",
  breaks="The listing starts over instead of reporting end-of-file.",
  edits=[("driver/file.go", """		file.readDirResultPointer++
	}
	return result, nil
""", """		file.readDirResultPointer++
	}
	if file.readDirResultPointer == len(file.lastReadDirResult) {
		// Everything's been read, the entries aren't needed any more.
		file.lastReadDirResult = nil
	}
	return result, nil
""")],
  pkg="driver", demo='''package driver

import ("io"; "os"; "testing"
	"github.com/dargueta/disko")

type zzImpl struct{ disko.FileSystemImplementer }
type zzObj struct {
	disko.ObjectHandle
	dir bool
}

func (i *zzImpl) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	return &zzObj{}, nil
}
func (o *zzObj) Stat() disko.FileStat {
	if o.dir { return disko.FileStat{ModeFlags: os.ModeDir | 0o777, BlockSize: 1} }
	return disko.FileStat{ModeFlags: 0o666}
}
func (o *zzObj) Close() error                           { return nil }
func (o *zzObj) Name() string                           { return "a" }
func (o *zzObj) ListDir() ([]string, disko.DriverError) { return []string{"a"}, nil }

func TestZZDemo(t *testing.T) {
	f, err := NewFileFromObjectHandle(New(&zzImpl{}, disko.MountFlagsAllowAll), wrapObjectHandle(&zzObj{dir: true}, "/"), disko.O_RDONLY)
	if err != nil { t.Fatal(err) }
	if e, err := f.ReadDir(1); len(e) != 1 || err != nil { t.Fatal(e, err) }
	if e, err := f.ReadDir(1); len(e) != 0 || err != io.EOF { t.Fatal(e, err) }
}
'''),
]
