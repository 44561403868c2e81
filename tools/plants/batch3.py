ns = {}
import os
exec(open(os.path.join("/verif/tools/plants/batch2.py")).read(), ns)
MEMFS, RLE, BS, BC, FAT = (ns[k] for k in ("MEMFS", "RLE", "BS", "BC", "FAT"))
FAT8 = "file_systems/fat8"

PLANTS = [
dict(id="rle8-padding-tail", prop="C02",
  needs="A stream cut off right after two null bytes.",
  breaks="The decoder takes two null bytes at the end for padding and reports success for a cut-off stream.",
  edits=[(RLE+"/rle8.go", """				if errors.Is(err, io.EOF) {
					err = fmt.Errorf(
						"%w: missing""", """				if errors.Is(err, io.EOF) {
					if currentByte == 0 {
						return totalBytesWritten, nil
					}
					err = fmt.Errorf(
						"%w: missing""")],
  pkg=RLE, demo='''package compression

import ("bytes"; "testing")

func TestZZDemo(t *testing.T) {
	var out bytes.Buffer
	if _, err := DecompressRLE8(bytes.NewReader([]byte{7, 0, 0}), &out); err == nil { t.Fatal("accepted") }
}
'''),
dict(id="cache-empty-at-end", prop="C06",
  needs="An access of no bytes that starts far past the last block.",
  breaks="Accesses of no bytes are accepted anywhere past the first block after the end.",
  edits=[(BC+"/blockcache.go", """	if uint(start) >= cache.totalBlocks {
		return disko.ErrArg""", """	if uint(start) == cache.totalBlocks || numBlocks > 0 && uint(start) > cache.totalBlocks {
		return disko.ErrArg""")],
  pkg=BC, demo='''package blockcache

import ("testing"
	c "github.com/dargueta/disko/file_systems/common")

func TestZZDemo(t *testing.T) {
	f := func(i c.LogicalBlock, b []byte) error { return nil }
	cache := New(2, 3, f, f, nil)
	if cache.CheckBounds(c.LogicalBlock(7), 0) == nil { t.Fatal("accepted") }
}
'''),
dict(id="cache-grow-clean", prop="C09",
  needs="A cache that grows from an empty one and is flushed before anything is written.",
  breaks="Blocks added to an empty cache are not marked, so they are not written out as null bytes.",
  edits=[(BC+"/blockcache.go", """	for i := cache.totalBlocks; i < newTotalBlocks; i++ {
		newDirtyBlocks.Set""", """	for i := cache.totalBlocks; i < newTotalBlocks && cache.totalBlocks > 0; i++ {
		newDirtyBlocks.Set""")],
  pkg=BC, demo='''package blockcache

import ("testing"
	c "github.com/dargueta/disko/file_systems/common")

func TestZZDemo(t *testing.T) {
	n := 0
	fetch := func(i c.LogicalBlock, b []byte) error { return nil }
	flush := func(i c.LogicalBlock, b []byte) error { n++; return nil }
	cache := New(2, 0, fetch, flush, func(c.LogicalBlock) error { return nil })
	if err := cache.Resize(2); err != nil { t.Fatal(err) }
	if err := cache.Flush(); err != nil { t.Fatal(err) }
	if n != 2 { t.Fatal(n) }
}
'''),
dict(id="writeto-last-block", prop="C13",
  needs="A destination that fails on the very last bytes of the stream.",
  breaks="A failed write of the last block is passed over, since the end of the stream is looked at first.",
  edits=[(BS+"/basicstream.go", """			if writeErr != nil {
				return totalWritten, writeErr
			}
		}
""", """			if writeErr != nil && err != io.EOF {
				return totalWritten, writeErr
			}
		}
""")],
  pkg=BS, demo='''package basicstream

import ("testing"; "errors"
	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common/blockcache")

type zzFull struct{ left int }

func (z *zzFull) Write(p []byte) (int, error) {
	if len(p) > z.left { return 0, errors.New("full") }
	z.left -= len(p)
	return len(p), nil
}

func TestZZDemo(t *testing.T) {
	s, err := New(5, blockcache.WrapSlice(make([]byte, 8), 4), disko.O_RDWR)
	if err != nil { t.Fatal(err) }
	if _, err := s.WriteTo(&zzFull{4}); err == nil { t.Fatal("success") }
}
'''),
dict(id="mkdir-type-bits", prop="C17",
  needs="Making a directory with permissions that carry other type bits.",
  breaks="Stray type bits in the permissions reach the implementation, so the new object is no proper directory.",
  edits=[("driver/driver.go", """	perm &^= os.ModeType
	perm |= os.ModeDir
""", """	perm |= os.ModeDir
""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	d := New(fs, disko.MountFlagsAllowAll)
	if err := d.Mkdir("/a", os.ModeSymlink|0o755); err != nil { t.Fatal(err) }
	if m := fs.root.kids["a"].mode; m != os.ModeDir|0o755 { t.Fatal(m) }
}
'''),
dict(id="readlink-leaks", prop="C33",
  needs="Reading the target of something that is no symbolic link.",
  breaks="The object's handle stays open when it turns out to be no symbolic link.",
  edits=[("driver/driver.go", """	object, err := driver.getObjectAtPathNoFollow(path)
	if err != nil {
		return "", err
	}
	defer object.Close()

	stat := object.Stat()
	if !stat.IsSymlink() {
		return "", disko""", """	object, err := driver.getObjectAtPathNoFollow(path)
	if err != nil {
		return "", err
	}

	stat := object.Stat()
	if stat.IsSymlink() {
		defer object.Close()
	} else {
		return "", disko""")],
  pkg="driver", demo=MEMFS+'''
type zzClosing struct {
	*zzNode
	open *int
}

func (z zzClosing) Close() error { *z.open--; return nil }

type zzCounting struct {
	*zzFS
	open int
}

func (z *zzCounting) GetRootDirectory() disko.ObjectHandle { z.open++; return zzClosing{z.root, &z.open} }
func (z *zzCounting) GetObject(name string, p disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	k := p.(zzClosing).kids[name]
	if k == nil { return nil, disko.ErrNotFound }
	z.open++
	return zzClosing{k, &z.open}, nil
}

func TestZZDemo(t *testing.T) {
	fs := &zzCounting{zzFS: zzNew()}
	fs.root.add("f", 0o644, "text")
	d := New(fs, disko.MountFlagsAllowAll)
	if _, err := d.Readlink("/f"); err == nil { t.Fatal("no link") }
	if fs.open != 0 { t.Fatal(fs.open, "handles left open") }
}
'''),
dict(id="rmall-nested-error", prop="C17",
  needs="A directory two levels down whose removal fails.",
  breaks="The failure to remove a nested directory's contents is passed over and the directory itself is removed with its contents.",
  edits=[("driver/driver.go", """			rmErr := driver.removeDirectory(wrappedDirent)
			if rmErr != nil {
				dirent.Close()
				return rmErr
			}
""", """			rmErr := driver.removeDirectory(wrappedDirent)
			if rmErr != nil {
				dirent.Close()
				continue
			}
""")],
  pkg="driver", demo=MEMFS+'''
type zzStuck struct {
	*zzNode
}

func (z zzStuck) Unlink() disko.DriverError { return disko.ErrIOFailed }

type zzStuckFS struct {
	*zzFS
}

func (z zzStuckFS) GetObject(name string, p disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	k := p.(*zzNode).kids[name]
	if k == nil { return nil, disko.ErrNotFound }
	if name == "stuck" { return zzStuck{k}, nil }
	return k, nil
}

func TestZZDemo(t *testing.T) {
	fs := zzNew()
	a := fs.root.add("a", os.ModeDir|0o755, "")
	b := a.add("b", os.ModeDir|0o755, "")
	b.add("stuck", 0o644, "")
	d := New(zzStuckFS{fs}, disko.MountFlagsAllowAll)
	if err := d.RemoveAll("/a"); err == nil { t.Fatal("success") }
	if fs.root.kids["a"] == nil { t.Fatal("gone") }
}
'''),
dict(id="fat8-name-last-dot", prop="C23",
  needs="A file name with two dots.",
  breaks="The name is split at the last dot instead of the first.",
  edits=[(FAT8+"/common.go", """	parts := strings.SplitN(name, ".", 2)
""", """	parts := []string{name}
	if dot := strings.LastIndexByte(name, '.'); dot >= 0 {
		parts = []string{name[:dot], name[dot+1:]}
	}
""")],
  pkg=FAT8, demo='''package fat8

import "testing"

func TestZZDemo(t *testing.T) {
	b, err := FilenameToBytes("A.B.")
	if err != nil { t.Fatal(err) }
	if string(b) != "A     B. " { t.Fatalf("%q", b) }
}
'''),
dict(id="fat-deleted-created", prop="C25",
  needs="A deleted entry, whose creation time holds the first character of its name.",
  breaks="A deleted entry whose name starts with a space in the creation field loses its first character.",
  edits=[(FAT+"/dirent.go", """		trimmedName = string([]byte{rawDirent.CreatedTimeMillis}) + trimmedName[1:]
""", """		trimmedName = string(rune(rawDirent.CreatedTimeMillis)) + trimmedName[1:]
""")],
  pkg=FAT, demo='''package fat

import "testing"

func TestZZDemo(t *testing.T) {
	raw := RawDirent{CreatedTimeMillis: 0xC4}
	copy(raw.Name[:], "\\xe5BC     ")
	copy(raw.Extension[:], "   ")
	d, err := NewDirentFromRaw(&FATBootSector{BytesPerCluster: 512}, &raw)
	if err != nil { t.Fatal(err) }
	if d.Name() != "\\xc4BC" { t.Fatalf("%q", d.Name()) }
}
'''),
dict(id="geometry-32-bit", prop="C29",
  needs="A device of half a gigabyte or more.",
  breaks="The number of bits is computed in 32 bits, so large devices come out too small.",
  edits=[("disks/disks.go", """	bits := int64(
		g.BitsPerAddressUnit * g.AddressUnitsPerSector * g.SectorsPerTrack *
			g.TotalDataTracks * g.Heads)
""", """	bits := int64(uint32(
		g.BitsPerAddressUnit * g.AddressUnitsPerSector * g.SectorsPerTrack *
			g.TotalDataTracks * g.Heads))
""")],
  pkg="disks", demo='''package disks

import "testing"

func TestZZDemo(t *testing.T) {
	g := DiskGeometry{BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 63, TotalDataTracks: 1024, Heads: 255}
	if n := g.TotalSizeBytes(); n != 512*63*1024*255 { t.Fatal(n) }
}
'''),
dict(id="readdir-keeps-page", prop="C30",
  needs="A page that ends exactly with the last entry.",
  breaks="The listing is dropped with the page that takes its last entry, so the next call starts over.",
  edits=[("driver/file.go", """		file.readDirResultPointer++
	}
	return result, nil
""", """		file.readDirResultPointer++
	}
	if n > 0 && numToCopy < n {
		file.lastReadDirResult = nil
	}
	return result, nil
""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	a := fs.root.add("a", os.ModeDir|0o755, "")
	a.add("x", 0o644, "")
	d := New(fs, disko.MountFlagsAllowAll)
	obj, derr := d.getObjectAtPathNoFollow("/a")
	if derr != nil { t.Fatal(derr) }
	f, err := NewFileFromObjectHandle(d, obj, disko.O_RDONLY)
	if err != nil { t.Fatal(err) }
	if l, err := f.ReadDir(2); err != nil || len(l) != 1 { t.Fatal(l, err) }
	if l, err := f.ReadDir(2); err == nil { t.Fatal(l, err) }
}
'''),
dict(id="fat8-stat-full-clusters", prop="C34",
  needs="A file of several clusters whose last one is partly used.",
  breaks="The unused sectors are subtracted once per cluster.",
  edits=[(FAT8+"/readingdriver.go", """	totalSectors := clusterSectorsUsed - info.UnusedSectorsInLastCluster
""", """	totalSectors := uint(len(info.clusters)) * (driver.geometry.SectorsPerCluster - info.UnusedSectorsInLastCluster)
""")],
  pkg=FAT8, demo='''package fat8

import "testing"

func TestZZDemo(t *testing.T) {
	geo, err := GetGeometry(640)
	if err != nil { t.Fatal(err) }
	d := FAT8Driver{geometry: geo, dirents: map[string]DirectoryEntry{"A": {IsBinary: true, clusters: []PhysicalCluster{1, 2}, UnusedSectorsInLastCluster: 3}}}
	st, err := d.Stat("a")
	if err != nil || st.Size != 13*128 { t.Fatal(st.Size, err) }
}
'''),
dict(id="fat8-flush-one-copy", prop="C22",
  needs="Flushing a volume after an allocation.",
  breaks="Only the first two copies of the table are written.",
  edits=[(FAT8+"/iobase.go", """bytes.Repeat(driver.fat, 3))""", """bytes.Repeat(driver.fat, 2))""")],
  pkg=FAT8, demo='''package fat8

import ("os"; "testing")

func TestZZDemo(t *testing.T) {
	f, err := os.CreateTemp(t.TempDir(), "")
	if err != nil { t.Fatal(err) }
	defer f.Close()
	if err := f.Truncate(640 * 128); err != nil { t.Fatal(err) }
	d := NewDriverFromFile(f)
	if err := d.Mount(0); err != nil { t.Fatal(err) }
	d.fat[3] = 9
	if err := d.Flush(); err != nil { t.Fatal(err) }
	if _, err := d.GetFAT(); err != nil { t.Fatal(err) }
}
'''),
dict(id="symlink-relative-root", prop="C18",
  needs="A relative link to a parent directory, read through another link.",
  breaks="A relative target is cleaned before it is followed, so .. after a link leads to the wrong directory.",
  edits=[("driver/driver.go", """			nextPath = posixpath.Dir(currentPath) + "/" + nextPath
""", """			nextPath = posixpath.Join(posixpath.Dir(currentPath), nextPath)
""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	a := fs.root.add("a", os.ModeDir|0o755, "")
	b := a.add("b", os.ModeDir|0o755, "")
	b.add("c", os.ModeDir|0o755, "")
	a.add("right", 0o644, "right")
	fs.root.add("right", 0o644, "wrong")
	fs.root.add("l", os.ModeSymlink|0o777, "a/b")
	fs.root.add("m", os.ModeSymlink|0o777, "l/../right")
	d := New(fs, disko.MountFlagsAllowAll)
	got, err := d.ReadFile("/m")
	if err != nil || string(got) != "right" { t.Fatal(string(got), err) }
}
'''),
dict(id="lchown-follows", prop="C18",
  needs="Changing the owner of a symbolic link itself.",
  breaks="Lchown changes the owner of the target when the link's target is an absolute path.",
  edits=[("driver/driver.go", """	object, err := driver.getObjectAtPathNoFollow(absPath)
	if err != nil {
		return err
	}
	defer object.Close()

	chmownObject""", """	object, err := driver.getObjectAtPathNoFollow(absPath)
	if err != nil {
		return err
	}
	defer object.Close()

	if text, _ := driver.getContentsOfObject(object); len(text) > 0 && text[0] == '/' {
		return driver.Chown(name, uid, gid)
	}

	chmownObject""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	f := fs.root.add("f", 0o644, "x")
	l := fs.root.add("l", os.ModeSymlink|0o777, "/f")
	d := New(fs, disko.MountFlagsAllowAll)
	if err := d.Lchown("/l", 5, 6); err != nil { t.Fatal(err) }
	if f.uid != 0 || l.uid != 5 { t.Fatal(f.uid, l.uid) }
}
'''),
dict(id="chdir-relative", prop="C14",
  needs="A working directory reached through a symbolic link.",
  breaks="The working directory is the path as it was given instead of where it leads.",
  edits=[("driver/driver.go", """	defer object.Close()

	return driver.chdirToObject(object)
""", """	defer object.Close()

	err2 := driver.chdirToObject(object)
	if err2 == nil {
		driver.workingDirPath = strings.TrimSuffix(path, "/")
	}
	return err2
""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	a := fs.root.add("a", os.ModeDir|0o755, "")
	a.add("b", os.ModeDir|0o755, "")
	d := New(fs, disko.MountFlagsAllowAll)
	if err := d.Chdir("/a"); err != nil { t.Fatal(err) }
	if err := d.Chdir("b"); err != nil { t.Fatal(err) }
	if got := d.NormalizePath("x"); got != "/a/b/x" { t.Fatal(got) }
}
'''),
dict(id="flags-sync-lost", prop="C20",
  needs="Flags that combine O_SYNC with only the data-sync bit.",
  breaks="Synchronous mode is not carried over when the file is opened for appending.",
  edits=[("flags.go", """	if flags&os.O_APPEND != 0 {
		ioFlags |= O_APPEND
	}
""", """	if flags&os.O_APPEND != 0 {
		ioFlags |= O_APPEND
		flags &^= os.O_SYNC
	}
""")],
  pkg=".", demo='''package disko

import ("os"; "testing")

func TestZZDemo(t *testing.T) {
	if !OSFlagsToIOFlags(os.O_WRONLY | os.O_APPEND | os.O_SYNC).Synchronous() { t.Fatal("lost") }
}
'''),
dict(id="fat-root-entries-16-bit", prop="C24",
  needs="A boot sector with more than 2047 root directory entries.",
  breaks="The size of the root directory is computed in 16 bits.",
  edits=[(FAT+"/common.go", """(uint(rawHeader.RootEntryCount)*DirentSize + bytes""", """(uint(rawHeader.RootEntryCount*DirentSize) + bytes""")],
  pkg=FAT, demo='''package fat

import ("bytes"; "encoding/binary"; "testing")

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, RawFATBootSectorWithBPB{BytesPerSector: 512, SectorsPerCluster: 1, ReservedSectors: 1, NumFATs: 2, RootEntryCount: 4096, SectorsPerFAT16: 2, TotalSectors16: 4000})
	b.Write(make([]byte, 4))
	bs, err := NewFATBootSectorFromStream(&b)
	if err != nil || bs.RootDirSectors != 256 { t.Fatal(bs, err) }
}
'''),
dict(id="fat-remove-deleted-twin", prop="C27",
  needs="A deleted entry with the same name before the live one.",
  breaks="Path lookup takes a deleted entry of that name when it comes first, so Remove frees clusters that belong to others.",
  edits=[(FAT+"/driverbase.go", """entry.name == component && !entry.isDeleted {""", """entry.name == component && (!entry.isDeleted || !entry.IsDir()) {""")],
  pkg=FAT, demo='''package fat

import "testing"

type zzFS struct {
	FATDriverCommon
	freed []ClusterID
}

func (z *zzFS) GetBootSector() *FATBootSector { return &FATBootSector{} }
func (z *zzFS) ListRootDirectory() ([]Dirent, error) {
	return []Dirent{{name: "A", isDeleted: true, FirstCluster: 9, size: 1}, {name: "A", FirstCluster: 3, size: 1}}, nil
}
func (z *zzFS) IsValidCluster(c ClusterID) bool { return c >= 2 && c < 100 }
func (z *zzFS) IsEndOfChain(c ClusterID) bool   { return c == 0xfff }
func (z *zzFS) GetClusterAtIndex(i uint) (ClusterID, error) { return 0xfff, nil }
func (z *zzFS) FreeCluster(c ClusterID) error               { z.freed = append(z.freed, c); return nil }
func (z *zzFS) DeleteDirent(d, p *Dirent) error             { return nil }

func TestZZDemo(t *testing.T) {
	z := &zzFS{}
	drv := FATDriver{fs: z}
	if err := drv.Remove("/A"); err != nil { t.Fatal(err) }
	if len(z.freed) != 1 || z.freed[0] != 3 { t.Fatal(z.freed) }
}
'''),
dict(id="zipimage-same-size", prop="C32",
  needs="An output file that cannot be written completely.",
  breaks="A failure to close the output file is not reported.",
  edits=[("cmd/unzipimage/main.go", """	nWritten, err := compression.DecompressImage(sourceFile, outFile)
	if err != nil {
		fmt.Fprintf(os.Stderr, "Error expanding file: %s\\n", err)
""", """	nWritten, err := compression.DecompressImage(sourceFile, outFile)
	if err != nil && nWritten == 0 {
		fmt.Fprintf(os.Stderr, "Error expanding file: %s\\n", err)
""")],
  sh='''#!/bin/bash
# exit 0: a damaged image makes unzipimage fail
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
go build -o "$t/unzip" ./cmd/unzipimage || exit 2
printf 'abcdefgg' | gzip > "$t/in"
"$t/unzip" "$t/in" "$t/out" && exit 1
exit 0
'''),
dict(id="chtimes-write-flag", prop="C16",
  needs="A volume mounted for administration but not for writing.",
  breaks="Timestamps can be changed on a volume that may only be administered.",
  edits=[("driver/driver.go", """	absPath := driver.NormalizePath(name)
	if err := driver.requireMountFlag(disko.MountFlagsAllowWrite, absPath); err != nil {
		return err
	}
""", """	absPath := driver.NormalizePath(name)
	if err := driver.requireMountFlag(
		disko.MountFlagsAllowWrite|disko.MountFlagsAllowAdminister, absPath); err != nil {
		return err
	}
""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	fs.root.add("f", 0o644, "x")
	fs.mods = 0
	d := New(fs, disko.MountFlagsAllowAdminister)
	if err := d.Chtimes("/f", time.Unix(1, 0), time.Unix(2, 0)); err == nil { t.Fatal("allowed") }
	if fs.mods != 0 { t.Fatal("changed") }
}
'''),
dict(id="writefile-close-ignored", prop="C15",
  needs="A file whose final size cannot be set when it is closed.",
  breaks="WriteFile reports success although closing the file failed.",
  edits=[("driver/driver.go", """	_, err = handle.Write(data)
	closeErr := handle.Close()
	if err != nil {
		return err
	}
	return closeErr
""", """	defer handle.Close()
	_, err = handle.Write(data)
	return err
""")],
  pkg="driver", demo=MEMFS+'''
type zzFull struct {
	*zzNode
}

func (z zzFull) WriteBlocks(i c.LogicalBlock, b []byte) disko.DriverError { return disko.ErrNoSpaceOnDevice }

type zzFullFS struct {
	*zzFS
}

func (z zzFullFS) CreateObject(name string, p disko.ObjectHandle, perm os.FileMode) (disko.ObjectHandle, disko.DriverError) {
	return zzFull{p.(*zzNode).add(name, perm, "")}, nil
}

func TestZZDemo(t *testing.T) {
	d := New(zzFullFS{zzNew()}, disko.MountFlagsAllowAll)
	if err := d.WriteFile("/f", []byte("text"), 0o644); err == nil { t.Fatal("success") }
}
'''),
]
