ns = {}
import os
exec(open(os.path.join("/verif/tools/plants/batch2.py")).read(), ns)
MEMFS, RLE, BS, BC, FAT = (ns[k] for k in ("MEMFS", "RLE", "BS", "BC", "FAT"))

PLANTS = [
dict(id="readdir-close-batch", prop="C33",
  needs="Listing a directory of more than 64 entries.",
  breaks="Every 65th handle is never closed.",
  edits=[("driver/driver.go", """		output = append(output, dirent)
		direntObject.Close()
	}
""", """		output = append(output, dirent)
		pending = append(pending, direntObject)
		if len(pending) > 64 {
			for _, object := range pending[:64] {
				object.Close()
			}
			pending = pending[:0]
		}
	}
"""), ("driver/driver.go", """	output := make([]disko.DirectoryEntry, 0, len(direntNames))
	for _, name := range direntNames {
		// Ignore""", """	output := make([]disko.DirectoryEntry, 0, len(direntNames))
	var pending []disko.ObjectHandle
	defer func() {
		for _, object := range pending {
			object.Close()
		}
	}()
	for _, name := range direntNames {
		// Ignore""")],
  pkg="driver", demo=MEMFS.replace('import (', 'import (\n\t"fmt"', 1)+'''
type zzCounting struct{ *zzFS; open *int }
type zzCounted struct{ *zzNode; open *int }
func (h zzCounted) Close() error { *h.open--; return nil }
func (f zzCounting) GetRootDirectory() disko.ObjectHandle { *f.open++; return zzCounted{f.root, f.open} }
func (f zzCounting) GetObject(name string, p disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	k, err := f.zzFS.GetObject(name, p.(zzCounted).zzNode)
	if err != nil { return nil, err }
	*f.open++
	return zzCounted{k.(*zzNode), f.open}, nil
}

func TestZZDemo(t *testing.T) {
	fs := zzNew()
	for i := 0; i < 100; i++ { fs.root.add(fmt.Sprint("f", i), 0o666, "x") }
	n := 0
	if l, err := New(zzCounting{fs, &n}, disko.MountFlagsAllowAll).ReadDir("/"); err != nil || len(l) != 100 { t.Fatal(err) }
	if n != 0 { t.Fatal(n) }
}
'''),
]
