// Package c32: the command line tools are faithful to the codec.
package c32

import (
	"bytes"
	"os"

	"github.com/dargueta/disko/zz_verif/cmds/unzipimage"
	"github.com/dargueta/disko/zz_verif/cmds/zipimage"
	"github.com/dargueta/disko/zz_verif/hlib"
	"github.com/dargueta/disko/zz_verif/hos"
	_ "github.com/dargueta/disko/zz_verif/models"
	"github.com/dargueta/disko/zz_verif/sym"
)

// exited unwinds a command that calls os.Exit.
type exited struct{ code int }

// fault is the one operation that fails. The container in between is not the
// same byte for byte in the executor (see models/gzip.go), hence writes to it
// fail by number and reads of it near its ends.
type fault struct {
	op    string // "", "open", "read", "write", "close"
	name  string
	at    int  // offset of the read or write that fails
	count bool // at is the number of the write
}

// machine is the files the commands see.
type machine struct {
	disks  map[string]*hos.Disk
	fault  fault
	fired  bool
	opened int
}

func (m *machine) OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if m.fault.op == "open" && m.fault.name == name {
		m.fired = true
		return nil, hlib.Inject()
	}
	d := m.disks[name]
	if d == nil {
		if flag&os.O_CREATE == 0 {
			return nil, os.ErrNotExist
		}
		d = &hos.Disk{}
		m.disks[name] = d
	}
	if flag&os.O_TRUNC != 0 {
		d.Data = nil
	}
	m.opened++
	return os.ZzVerifNewFile(name, &handle{Disk: &hos.Disk{Data: d.Data}, real: d, name: name, m: m, flag: flag}), nil
}

func (m *machine) Exit(code int) { panic(exited{code}) }

func (m *machine) Stat(name string) (os.FileInfo, error) {
	d := m.disks[name]
	if d == nil {
		return nil, os.ErrNotExist
	}
	return d.Stat()
}

func (m *machine) Remove(name string) error {
	if m.disks[name] == nil {
		return os.ErrNotExist
	}
	delete(m.disks, name)
	return nil
}

func (m *machine) Rename(from, to string) error {
	if m.disks[from] == nil {
		return os.ErrNotExist
	}
	m.disks[to] = m.disks[from]
	delete(m.disks, from)
	return nil
}

// handle is one open file, with its own position.
type handle struct {
	*hos.Disk
	real   *hos.Disk
	name   string
	m      *machine
	flag   int
	writes int
	closed bool
}

func (h *handle) writable() bool { return h.flag&(os.O_WRONLY|os.O_RDWR) != 0 }

func (h *handle) Read(b []byte) (int, error) {
	if f := h.m.fault; f.op == "read" && f.name == h.name {
		left := f.at - int(h.Disk.Pos)
		if left <= 0 {
			h.m.fired = true
			return 0, hlib.Inject()
		}
		if len(b) > left {
			b = b[:left]
		}
	}
	return h.Disk.Read(b)
}

func (h *handle) Write(b []byte) (int, error) {
	if !h.writable() {
		return 0, os.ErrPermission
	}
	h.writes++
	if f := h.m.fault; f.op == "write" && f.name == h.name {
		if f.count && h.writes > f.at || !f.count && int(h.Disk.Pos)+len(b) > f.at {
			h.m.fired = true
			return 0, hlib.Inject()
		}
	}
	n, err := h.Disk.Write(b)
	h.real.Data = h.Disk.Data
	return n, err
}

func (h *handle) Close() error {
	if h.closed {
		return os.ErrClosed
	}
	h.closed = true
	// Closing a file that was only read loses nothing.
	if f := h.m.fault; f.op == "close" && f.name == h.name && h.writable() {
		h.m.fired = true
		return hlib.Inject()
	}
	return nil
}

// run runs a command and gives its exit status.
func run(m *machine, main func(), args ...string) (code int) {
	_, quiet := hos.NewDisk(nil)
	saved := [3]any{os.Args, os.Stdout, os.Stderr}
	os.Args, os.Stdout, os.Stderr = args, quiet, quiet
	os.ZzVerifHook = m
	defer func() {
		os.ZzVerifHook = nil
		os.Args, os.Stdout, os.Stderr = saved[0].([]string), saved[1].(*os.File), saved[2].(*os.File)
		if r := recover(); r != nil {
			e, ok := r.(exited)
			if !ok {
				panic(r)
			}
			code = e.code
		}
	}()
	main()
	return 0
}

func image() []byte {
	n := sym.Choice(sym.Bound("image bytes", 4, 6) + 1)
	d := sym.Bytes(n)
	if n > 0 && sym.Choice(2) == 1 {
		// Long images start with a long run, which is cheap to follow.
		lead := [][2]int{{0, 258}, {0, 600}, {0, 4096}, {70000, 600}}[sym.Choice(4)]
		d = append(append(bytes.Repeat([]byte{0xE5}, lead[0]), hlib.Fill(lead[1])...), d...)
	}
	return d
}

func old() *hos.Disk {
	if sym.Choice(2) == 0 {
		return nil
	}
	return &hos.Disk{Data: sym.Bytes(40)}
}

// H_RoundTrip: compressing and expanding any image, also over existing files.
func H_RoundTrip() {
	d := image()
	m := &machine{disks: map[string]*hos.Disk{"a": {Data: append([]byte{}, d...)}}}
	if o := old(); o != nil {
		m.disks["b"], m.disks["c"] = o, &hos.Disk{Data: sym.Bytes(30)}
	}
	sym.Assert(run(m, zipimage.Main, "zipimage", "a", "b") == 0, "compressing succeeds")
	sym.Assert(m.disks["b"] != nil, "the output file exists")
	sym.Assert(run(m, unzipimage.Main, "unzipimage", "b", "c") == 0, "expanding succeeds")
	sym.Assert(m.disks["c"] != nil, "the output file exists")
	got := m.disks["c"].Data
	sym.Assert(len(got) == len(d) && sym.BytesEq(got, d), "the file is reproduced byte for byte")
	a := m.disks["a"].Data
	sym.Assert(len(a) == len(d) && sym.BytesEq(a, d), "the input is left alone")
	sym.Cover("round trip")
}

// H_ZipFault: any one file operation of zipimage fails.
func H_ZipFault() {
	d := sym.Bytes(sym.Choice(sym.Bound("image bytes", 4, 6) + 1))
	m := &machine{disks: map[string]*hos.Disk{"a": {Data: append([]byte{}, d...)}}}
	m.fault = []fault{{op: "open", name: "a"}, {op: "open", name: "b"}, {op: "close", name: "b"},
		{op: "write", name: "b", count: true, at: sym.Range(0, 2)},
		{op: "read", name: "a", at: sym.Range(0, len(d))}}[sym.Choice(5)]
	code := run(m, zipimage.Main, "zipimage", "a", "b")
	sym.Assert(m.fired, "the operation takes place")
	sym.Assert(code != 0, "a failure gives a non-zero exit status")
	sym.Assert(sym.BytesEq(m.disks["a"].Data, d), "the input is left alone")
}

// H_UnzipFault: any one file operation of unzipimage fails.
func H_UnzipFault() {
	d := sym.Bytes(1 + sym.Choice(sym.Bound("image bytes", 4, 6)))
	m := &machine{disks: map[string]*hos.Disk{"a": {Data: append([]byte{}, d...)}}}
	sym.Assert(run(m, zipimage.Main, "zipimage", "a", "b") == 0, "compressing succeeds")
	at := sym.Choice(12)
	if sym.Choice(2) == 1 {
		at = len(m.disks["b"].Data) - 1 - at
	}
	m.fault = []fault{{op: "open", name: "b"}, {op: "open", name: "c"}, {op: "close", name: "c"},
		{op: "write", name: "c", at: sym.Range(0, len(d)-1)},
		{op: "read", name: "b", at: at}}[sym.Choice(5)]
	code := run(m, unzipimage.Main, "unzipimage", "b", "c")
	sym.Assert(m.fired, "the operation takes place")
	sym.Assert(code != 0, "a failure gives a non-zero exit status")
}

// H_Corrupt: a container cut short, or whose header is not one, is refused.
func H_Corrupt() {
	d := sym.Bytes(sym.Choice(4))
	m := &machine{disks: map[string]*hos.Disk{"a": {Data: d}}}
	sym.Assert(run(m, zipimage.Main, "zipimage", "a", "b") == 0, "compressing succeeds")
	b := m.disks["b"].Data
	cut := sym.Choice(12)
	switch sym.Choice(3) {
	case 0:
		m.disks["b"].Data = b[:cut]
	case 1:
		m.disks["b"].Data = b[:len(b)-1-cut]
	case 2:
		i := sym.Choice(2)
		v := sym.Byte()
		sym.Assume(v != b[i])
		b[i] = v
	}
	sym.Assert(run(m, unzipimage.Main, "unzipimage", "b", "c") != 0, "a damaged container gives a non-zero exit status")
}

// H_Usage: any number of arguments but two is refused and touches nothing.
func H_Usage() {
	main := []func(){zipimage.Main, unzipimage.Main}[sym.Choice(2)]
	all := []string{"tool", "a", "b", "c", "d"}
	n := 1 + sym.Choice(5)
	orig := sym.Bytes(3)
	m := &machine{disks: map[string]*hos.Disk{"a": {Data: append([]byte{}, orig...)}, "b": {Data: append([]byte{}, orig...)}}}
	if n == 3 { // a missing input
		delete(m.disks, "a")
		sym.Assert(run(m, main, "tool", "a", "b") != 0, "a missing input gives a non-zero exit status")
		sym.Cover("missing")
		return
	}
	sym.Assert(run(m, main, all[:n]...) != 0, "wrong usage gives a non-zero exit status")
	sym.Assert(m.opened == 0 && len(m.disks) == 2, "wrong usage opens no file")
	sym.Assert(sym.BytesEq(m.disks["a"].Data, orig) && sym.BytesEq(m.disks["b"].Data, orig), "wrong usage leaves the files alone")
}
