ns = {}
import os
exec(open(os.path.join("/verif/tools/plants/batch2.py")).read(), ns)
MEMFS, RLE, BS, BC, FAT = (ns[k] for k in ("MEMFS", "RLE", "BS", "BC", "FAT"))

PLANTS = [
dict(id="recursive-count-table", prop="C03",
  needs="A run of more than 130562 equal bytes.",
  breaks="The recursive encoder writes at most 512 bytes of 255 for a run, so longer ones lose data.",
  edits=[(RLE+"/rle8.go", """			_, err = output.Write(bytes.Repeat([]byte{255}, num255Repetitions))
""", """			_, err = output.Write(full[:min(num255Repetitions, len(full))])
"""), (RLE+"/rle8.go", """func CompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
	grouper := NewRLEGrouperFromReader(input)
""", """func CompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
	grouper := NewRLEGrouperFromReader(input)
	full := bytes.Repeat([]byte{255}, 512)
""")],
  pkg=RLE, demo='''package compression

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	data := make([]byte, 200000)
	var a, b bytes.Buffer
	CompressRLERecursive(bytes.NewReader(data), &a)
	DecompressRLERecursive(&a, &b)
	if !bytes.Equal(b.Bytes(), data) { t.Fatal(b.Len()) }
}
'''),
dict(id="chdir-leak", prop="C33",
  needs="Changing directory to something that is not a directory.",
  breaks="The handle of the file is never closed.",
  edits=[("driver/driver.go", """	defer object.Close()

	return driver.chdirToObject(object)
""", """	if err := driver.chdirToObject(object); err != nil {
		return err
	}
	object.Close()
	return nil
""")],
  pkg="driver", demo=MEMFS+'''
type zzCounting struct{ *zzFS; open *int }
type zzCounted struct{ disko.ObjectHandle; open *int }
func (h zzCounted) Close() error { *h.open--; return nil }
func (f zzCounting) GetRootDirectory() disko.ObjectHandle { *f.open++; return zzCounted{f.root, f.open} }
func (f zzCounting) GetObject(name string, p disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	k, err := f.zzFS.GetObject(name, p.(zzCounted).ObjectHandle)
	if err != nil { return nil, err }
	*f.open++
	return zzCounted{k, f.open}, nil
}

func TestZZDemo(t *testing.T) {
	fs := zzNew()
	fs.root.add("f", 0o666, "x")
	n := 0
	if err := New(zzCounting{fs, &n}, disko.MountFlagsAllowAll).Chdir("/f"); err == nil { t.Fatal("changed") }
	if n != 0 { t.Fatal(n) }
}
'''),
]
