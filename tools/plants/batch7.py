ns = {}
import os
exec(open(os.path.join("/verif/tools/plants/batch2.py")).read(), ns)
MEMFS, RLE, BS, BC, FAT = (ns[k] for k in ("MEMFS", "RLE", "BS", "BC", "FAT"))
FAT8 = "file_systems/fat8"

PLANTS = [
dict(id="rle8-literal-batch", prop="C01",
  needs="A stretch of more than 512 bytes without repeated neighbours.",
  breaks="The byte that finds the buffer of literals full is lost.",
  edits=[(RLE+"/rle8.go", """	grouper := NewRLEGrouperFromReader(input)

	totalBytesWritten := int64(0)
	for {
		run, getRunErr := grouper.GetNextRun()
		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
			// An error was encountered and it's *not* EOF.
			return totalBytesWritten, getRunErr
		}

		for run.RunLength >= 2 {""", """	grouper := NewRLEGrouperFromReader(input)

	// Bytes that don't repeat are collected and written together.
	literals := make([]byte, 0, 512)

	totalBytesWritten := int64(0)
	for {
		run, getRunErr := grouper.GetNextRun()
		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
			// An error was encountered and it's *not* EOF.
			return totalBytesWritten, getRunErr
		}

		isLiteral := run.RunLength == 1
		if len(literals) > 0 && (!isLiteral || len(literals) == cap(literals)) {
			n, err := output.Write(literals)
			if err != nil {
				return totalBytesWritten, err
			}
			totalBytesWritten += int64(n)
			literals = literals[:0]
		} else if isLiteral {
			literals = append(literals, run.Byte)
		}

		for run.RunLength >= 2 {"""),
  (RLE+"/rle8.go", """		if run.RunLength == 1 {
			n, err := output.Write([]byte{run.Byte})
			if err != nil {
				return totalBytesWritten, err
			}
			totalBytesWritten += int64(n)
		}

		// We bail""", """		if run.RunLength == 1 && !isLiteral {
			n, err := output.Write([]byte{run.Byte})
			if err != nil {
				return totalBytesWritten, err
			}
			totalBytesWritten += int64(n)
		}

		if getRunErr != nil && len(literals) > 0 {
			n, err := output.Write(literals)
			if err != nil {
				return totalBytesWritten, err
			}
			totalBytesWritten += int64(n)
		}

		// We bail""")],
  pkg=RLE, demo='''package compression

import ("bytes"; "testing")

func TestZZDemo(t *testing.T) {
	var in []byte
	for i := 0; i < 2000; i++ { in = append(in, byte(i%7)) }
	var out, back bytes.Buffer
	if _, err := CompressRLE8(bytes.NewReader(in), &out); err != nil { t.Fatal(err) }
	if _, err := DecompressRLE8(&out, &back); err != nil { t.Fatal(err) }
	if !bytes.Equal(back.Bytes(), in) { t.Fatal(back.Len()) }
}
'''),
dict(id="fat8-format-twice", prop="C21",
  needs="The same driver formatting a floppy and then a minifloppy.",
  breaks="The second format uses the geometry of the first one.",
  edits=[(FAT8+"/formattingdriver.go", "	driver.geometry = geo\n", """	if driver.geometry.TotalTracks == 0 {
		driver.geometry = geo
	}
	geo = driver.geometry
""")],
  pkg=FAT8, demo='''package fat8

import ("os"; "path/filepath"; "testing")

type zzo int64

func (o zzo) Metadata() any         { return nil }
func (o zzo) TotalSizeBytes() int64 { return int64(o) }

func TestZZDemo(t *testing.T) {
	f, err := os.Create(filepath.Join(t.TempDir(), "x"))
	if err != nil { t.Fatal(err) }
	defer f.Close()
	d := NewDriverFromFile(f)
	for _, n := range []int64{2002, 640} {
		if err := d.FormatImage(zzo(n * 128)); err != nil { t.Fatal(err) }
		if i, _ := f.Stat(); i.Size() != n*128 { t.Fatal(i.Size(), n) }
	}
}
'''),
dict(id="fat8-remount-fat", prop="C22",
  needs="A driver that is unmounted, its image changed, and mounted again.",
  breaks="The driver keeps the FAT of the first mount and writes it over the new one.",
  edits=[(FAT8+"/driver.go", "	driver.fat = fat\n", """	if driver.fat == nil {
		driver.fat = fat
	}
""")],
  pkg=FAT8, demo='''package fat8

import ("os"; "path/filepath"; "testing"; "github.com/dargueta/disko")

type zzo int64

func (o zzo) Metadata() any         { return nil }
func (o zzo) TotalSizeBytes() int64 { return int64(o) }

func TestZZDemo(t *testing.T) {
	f, err := os.Create(filepath.Join(t.TempDir(), "x"))
	if err != nil { t.Fatal(err) }
	defer f.Close()
	d := NewDriverFromFile(f)
	for _, n := range []int64{2002, 640} {
		if err := d.FormatImage(zzo(n * 128)); err != nil { t.Fatal(err) }
		if err := d.Mount(disko.MountFlagsAllowAll); err != nil { t.Fatal(err) }
		if err := d.Flush(); err != nil { t.Fatal(err) }
		a, err := d.GetFAT()
		if err != nil { t.Fatal(err) }
		want := 0
		for _, b := range a { if b == 0xfe { want++ } }
		if len(d.fat) != len(a) || want != 2 { t.Fatal(len(d.fat), len(a), want) }
		if err := d.Unmount(); err != nil { t.Fatal(err) }
	}
}
'''),
dict(id="cache-resize-state-first", prop="C09",
  needs="A resize the storage refuses.",
  breaks="A failed resize leaves the cache with the new number of blocks.",
  edits=[(BC+"/blockcache.go", """	err := cache.resize(c.LogicalBlock(newTotalBlocks))
	if err != nil {
		return err
	}

	newCacheData""", """	newCacheData"""),
  (BC+"/blockcache.go", """	cache.totalBlocks = newTotalBlocks
	return nil
}

// MarkBlockRangeDirty""", """	cache.totalBlocks = newTotalBlocks
	return cache.resize(c.LogicalBlock(newTotalBlocks))
}

// MarkBlockRangeDirty""")],
  pkg=BC, demo='''package blockcache

import ("errors"; "testing"
	c "github.com/dargueta/disko/file_systems/common"
)

func TestZZDemo(t *testing.T) {
	f := func(i c.LogicalBlock, b []byte) error { return nil }
	x := New(4, 2, f, f, func(c.LogicalBlock) error { return errors.New("no") })
	if x.Resize(5) == nil || x.TotalBlocks() != 2 { t.Fatal(x.TotalBlocks()) }
}
'''),
]
