ns = {}
import os
exec(open(os.path.join("/verif/tools/plants/batch2.py")).read(), ns)
MEMFS, RLE, BS, BC, FAT = (ns[k] for k in ("MEMFS", "RLE", "BS", "BC", "FAT"))
FAT8 = "file_systems/fat8"

PLANTS = [
dict(id="fat-short-fat16", prop="C24",
  needs="An image that ends between the 36th and 40th byte, with the number of sectors per FAT in the 16-bit field.",
  breaks="A stream that is too short for a boot sector is accepted.",
  edits=[(FAT+"/common.go", """	err = binary.Read(reader, binary.LittleEndian, &sectorsPerFAT32)
	if err != nil {""", """	err = binary.Read(reader, binary.LittleEndian, &sectorsPerFAT32)
	if err != nil && rawHeader.SectorsPerFAT16 == 0 {""")],
  pkg=FAT, demo='''package fat

import ("bytes"; "testing")

func TestZZDemo(t *testing.T) {
	b := make([]byte, 38)
	b[12], b[13], b[14], b[16], b[18], b[20], b[22] = 2, 1, 1, 2, 2, 16, 9
	b[17] = 0xE0; b[18] = 0
	if s, err := NewFATBootSectorFromStream(bytes.NewReader(b)); err == nil { t.Fatal(s) }
}
'''),
dict(id="readdir-three-dots", prop="C30",
  needs="An entry whose name consists of three or more dots.",
  breaks="Entries called '...' are left out of directory listings.",
  edits=[("driver/driver.go", """		// Ignore "." and ".." entries if present
		if name == "." || name == ".." {""", """		// Ignore "." and ".." entries if present
		if strings.Trim(name, ".") == "" {""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	fs.root.add("...", 0o666, "x")
	fs.root.add("..a", 0o666, "x")
	l, err := New(fs, disko.MountFlagsAllowAll).ReadDir("/")
	if err != nil || len(l) != 2 { t.Fatal(l, err) }
}
'''),
dict(id="remove-dot-names", prop="C17",
  needs="A directory whose only entry has a name of three dots.",
  breaks="A directory with an entry called '...' counts as empty and is removed.",
  edits=[("driver/driver.go", '''		if element == "." || element == ".." {
			numToIgnore++''', '''		if strings.Trim(element, ".") == "" {
			numToIgnore++'''),
    ("driver/driver.go", '''		if element != "." && element != ".." {''', '''		if strings.Trim(element, ".") != "" {''')],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	fs.root.add("d", os.ModeDir | 0o777, "").add("...", 0o666, "x")
	if err := New(fs, disko.MountFlagsAllowAll).Remove("/d"); err == nil { t.Fatal("removed") }
}
'''),
dict(id="writefile-chunk-error", prop="C15",
  needs="A file of more than 32 KiB on a file system that fails while it is being written.",
  breaks="A failure while a large file is written piece by piece is lost when the last piece succeeds.",
  edits=[("driver/driver.go", """	_, err = handle.Write(data)
	closeErr := handle.Close()""", """	// Large files are written piece by piece.
	for {
		n := min(len(data), 32*1024)
		_, err = handle.Write(data[:n])
		data = data[n:]
		if len(data) == 0 {
			break
		}
	}
	closeErr := handle.Close()""")],
  pkg="driver", demo=MEMFS+'''
type zzSmall struct{ *zzNode }

func (n zzSmall) Resize(size uint64) disko.DriverError {
	if size > 30000 { return disko.ErrNoSpaceOnDevice }
	return n.zzNode.Resize(size)
}

type zzQuota struct{ *zzFS }

func (f zzQuota) GetObject(name string, p disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	k, err := f.zzFS.GetObject(name, p)
	if err != nil { return nil, err }
	return zzSmall{k.(*zzNode)}, nil
}

func TestZZDemo(t *testing.T) {
	fs := zzNew()
	fs.root.add("f", 0o666, "x")
	if err := New(zzQuota{fs}, disko.MountFlagsAllowAll).WriteFile("/f", make([]byte, 40000), 0o666); err == nil { t.Fatal("lost") }
}
'''),
]
