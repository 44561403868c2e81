ns = {}
import os
exec(open(os.path.join("/verif/tools/plants/batch2.py")).read(), ns)
MEMFS, RLE, BS, BC, FAT = (ns[k] for k in ("MEMFS", "RLE", "BS", "BC", "FAT"))
FAT8 = "file_systems/fat8"

PLANTS = [
dict(id="errors-shared-causes", prop="C19",
  needs="Two errors derived by Wrap from the same error that itself wraps three others.",
  breaks="Errors wrapped into the same error share a list of causes, so the one wrapped later replaces what the earlier one wraps.",
  edits=[("errors.go", """func (e customDriverError) Wrap(err error) DriverError {
	return customDriverError{
		message:       fmt.Sprintf("%s: %s", e.Error(), err.Error()),
		originalError: &multierror.Error{Errors: []error{e, err}},
	}
""", """func (e customDriverError) Wrap(err error) DriverError {
	// Keep the causes in one flat list.
	var causes []error
	if list, ok := e.originalError.(*multierror.Error); ok {
		causes = list.Errors
	}
	wrapped := e
	wrapped.message = fmt.Sprintf("%s: %s", e.message, err.Error())
	wrapped.originalError = &multierror.Error{Errors: append(causes, e, err)}
	return wrapped
""")],
  pkg=".", demo='''package disko

import (
	"errors"
	"testing"
)

func TestZZDemo(t *testing.T) {
	e := ErrBusy
	for i := 0; i < 3; i++ { e = e.Wrap(errors.New("cause")) }
	x, y := errors.New("x"), errors.New("y")
	a := e.Wrap(x)
	b := e.Wrap(y)
	if !errors.Is(a, x) || errors.Is(a, y) || !errors.Is(b, y) || errors.Is(b, x) { t.Fatal("shared") }
}
'''),
dict(id="symlink-target-limit", prop="C18",
  needs="A symbolic link whose target is longer than 255 bytes.",
  breaks="Links with a long target cannot be followed.",
  edits=[("driver/driver.go", """		symlinkText, err := driver.getContentsOfObject(object)
		object.Close()
""", """		var symlinkText []byte
		var err disko.DriverError = disko.ErrNameTooLong
		if stat.Size <= 255 {
			symlinkText, err = driver.getContentsOfObject(object)
		}
		object.Close()
""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	fs.root.add("f", 0o666, "x")
	text := ""
	for i := 0; i < 150; i++ { text += "./" }
	fs.root.add("l", os.ModeSymlink|0o777, text+"f")
	if _, err := New(fs, disko.MountFlagsAllowAll).Stat("/l"); err != nil { t.Fatal(err) }
}
'''),
dict(id="readdir-page-limit", prop="C30",
  needs="A directory of more than 255 entries that is read at once.",
  breaks="Reading everything that is left of a directory of more than 255 entries leaves some out.",
  edits=[("driver/file.go", """	if n <= 0 || n > entriesRemaining {
		numToCopy = entriesRemaining
	} else {""", """	if n > 0x7f {
		// Keep the pages to a sensible size.
		n = 0x80
	}
	if n <= 0 {
		numToCopy = entriesRemaining & 0xff
	} else if n > entriesRemaining {
		numToCopy = entriesRemaining
	} else {""")],
  pkg="driver", demo=MEMFS+'''
func TestZZDemo(t *testing.T) {
	fs := zzNew()
	for i := 0; i < 300; i++ { fs.root.add(string(rune('0'+i/100))+string(rune('0'+i/10%10))+string(rune('0'+i%10)), 0o666, "") }
	f, err := NewFileFromObjectHandle(New(fs, disko.MountFlagsAllowAll), wrapObjectHandle(fs.root, "/"), disko.O_RDONLY)
	if err != nil { t.Fatal(err) }
	list, err := f.ReadDir(-1)
	if err != nil || len(list) != 300 { t.Fatal(len(list), err) }
}
'''),
]
