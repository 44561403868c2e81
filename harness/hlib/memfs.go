package hlib

import (
	"bytes"
	"errors"
	"os"
	"strings"
	"time"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/zz_verif/sym"
)

// ErrFS is the failure injected into the file system.
var ErrFS = disko.NewError("injected file system failure")

// Node is an object of the in-memory file system.
type Node struct {
	ID    int
	Mode  os.FileMode
	Data  []byte // storage, whole blocks; everything past Size is arbitrary
	Size  int
	Names []string
	Kids  []*Node
	Nlink int
	Uid   int
	Gid   int

	Created, Accessed, Modified, Changed, Deleted time.Time

	Gone bool          // has no name any more
	Lazy func() string // target of a symbolic link, chosen when first needed
}

// MemFS is a file system implementation that conforms to the documented
// contract and insists on the driver keeping its part of it.
type MemFS struct {
	B     int
	Max   uint64 // the largest size of a file
	Root  *Node
	Feat  disko.FSFeatures
	Dots  bool   // directory listings contain . and ..
	One   string // if not empty, the only one of these they contain
	Bare  int    // 1: handles can't chmod, chown and chtimes; 2: nor list
	Armed bool   // calls may fail (once)
	At    int    // if not 0, the only call that may fail when armed
	Fault bool   // a call failed
	Stuck bool   // all calls after it fail, too
	Calls int
	Mods  []Mod // modifying calls
	// Strict insists on handles being used only until they are closed, and
	// closed once.
	Strict bool
	Open   int // handles that are not closed
	Modes  []os.FileMode
	Times  [][5]time.Time
	next   int
}

// Mod is a modifying call of the file system.
type Mod struct {
	Op   string
	Node *Node // nil for creations
}

// NewMemFS makes an empty file system.
func NewMemFS(b int) *MemFS {
	fs := &MemFS{B: b, Max: 1 << 16}
	fs.Feat = disko.FSFeatures{
		HasDirectories: true, HasSymbolicLinks: true, HasHardLinks: true,
		HasCreatedTime: true, HasAccessedTime: true, HasModifiedTime: true,
		HasChangedTime: true, HasDeletedTime: true, HasUnixPermissions: true,
		HasUserPermissions: true, HasGroupPermissions: true, HasUserID: true, HasGroupID: true,
		DefaultBlockSize: b,
	}
	fs.Root = fs.node(os.ModeDir | 0o755)
	fs.Root.Nlink = 1
	return fs
}

func (fs *MemFS) node(mode os.FileMode) *Node {
	fs.next++
	return &Node{ID: fs.next, Mode: mode}
}

// Add puts a new object into a directory.
func (fs *MemFS) Add(dir *Node, name string, mode os.FileMode, data []byte) *Node {
	n := fs.node(mode)
	fs.SetData(n, data)
	fs.name(dir, name, n)
	return n
}

// SetData gives an object its contents. The rest of the last block is garbage.
func (fs *MemFS) SetData(n *Node, data []byte) {
	n.Size = len(data)
	n.Data = append([]byte{}, data...)
	fs.pad(n)
}

func (fs *MemFS) pad(n *Node) {
	for len(n.Data)%fs.B != 0 {
		n.Data = append(n.Data, 0xEE)
	}
}

// Dir, File and Symlink add objects of that kind.
func (fs *MemFS) Dir(dir *Node, name string) *Node {
	return fs.Add(dir, name, os.ModeDir|0o750, nil)
}
func (fs *MemFS) File(dir *Node, name string, data []byte) *Node {
	return fs.Add(dir, name, 0o640, data)
}
func (fs *MemFS) Symlink(dir *Node, name, target string) *Node {
	return fs.Add(dir, name, os.ModeSymlink|0o777, []byte(target))
}

// LazyLink adds a symbolic link whose target is chosen when it is first needed.
func (fs *MemFS) LazyLink(dir *Node, name string, target func() string) *Node {
	n := fs.Add(dir, name, os.ModeSymlink|0o777, nil)
	n.Lazy = target
	return n
}

func (fs *MemFS) force(n *Node) {
	if n.Lazy != nil {
		f := n.Lazy
		n.Lazy = nil
		fs.SetData(n, []byte(f()))
	}
}

// Target is the target of a symbolic link.
func (fs *MemFS) Target(n *Node) string {
	fs.force(n)
	return string(n.Data[:n.Size])
}

func (fs *MemFS) name(dir *Node, name string, n *Node) {
	dir.Names = append(dir.Names, name)
	dir.Kids = append(dir.Kids, n)
	n.Nlink++
}

// Kid finds an entry of a directory.
func (n *Node) Kid(name string) *Node {
	for i, s := range n.Names {
		if s == name {
			return n.Kids[i]
		}
	}
	return nil
}

func (n *Node) drop(name string) {
	for i, s := range n.Names {
		if s == name {
			n.Kids[i].Nlink--
			n.Names = append(append([]string{}, n.Names[:i]...), n.Names[i+1:]...)
			n.Kids = append(append([]*Node{}, n.Kids[:i]...), n.Kids[i+1:]...)
			return
		}
	}
}

// Bytes are the contents of a node.
func (n *Node) Bytes() []byte { return n.Data[:n.Size] }

func (n *Node) IsDir() bool  { return n.Mode.IsDir() }
func (n *Node) IsLink() bool { return n.Mode&os.ModeSymlink != 0 }

// Stat is what the file system records for a node.
func (fs *MemFS) Stat(n *Node) disko.FileStat {
	fs.force(n)
	return disko.FileStat{
		InodeNumber: uint64(n.ID), Nlinks: uint64(n.Nlink), ModeFlags: n.Mode,
		Uid: uint32(n.Uid), Gid: uint32(n.Gid),
		Size: int64(n.Size), BlockSize: int64(fs.B), NumBlocks: int64(len(n.Data) / fs.B),
		CreatedAt: n.Created, LastAccessed: n.Accessed, LastModified: n.Modified,
		LastChanged: n.Changed, DeletedAt: n.Deleted,
	}
}

// fail decides whether this call fails.
func (fs *MemFS) fail() bool {
	fs.Calls++
	if fs.Fault && fs.Stuck {
		return true
	}
	if fs.Armed && (fs.At == fs.Calls || fs.At == 0 && sym.Choice(2) == 1) {
		fs.Armed = false
		fs.Fault = true
		return true
	}
	return false
}

func (fs *MemFS) mod(op string, n *Node) {
	fs.Mods = append(fs.Mods, Mod{op, n})
}

// handle is an open object.
type handle struct {
	fs     *MemFS
	n      *Node
	parent *Node
	name   string
	closed bool
}

// give makes a handle.
func (fs *MemFS) give(n, parent *Node, name string) *handle {
	fs.Open++
	return &handle{fs: fs, n: n, parent: parent, name: name}
}

// out makes a handle as the driver gets it.
func (fs *MemFS) out(n, parent *Node, name string) disko.ObjectHandle {
	h := fs.give(n, parent, name)
	switch fs.Bare {
	case 1:
		return listing{core{h}}
	case 2:
		return core{h}
	}
	return h
}

// core is a handle with nothing that is optional.
type core struct{ h *handle }

func (x core) Stat() disko.FileStat                 { return x.h.Stat() }
func (x core) Resize(n uint64) disko.DriverError    { return x.h.Resize(n) }
func (x core) Unlink() disko.DriverError            { return x.h.Unlink() }
func (x core) Name() string                         { return x.h.Name() }
func (x core) Close() error                         { return x.h.Close() }
func (x core) SameAs(other disko.ObjectHandle) bool { return x.h.SameAs(other) }
func (x core) ReadBlocks(i c.LogicalBlock, b []byte) disko.DriverError {
	return x.h.ReadBlocks(i, b)
}
func (x core) WriteBlocks(i c.LogicalBlock, b []byte) disko.DriverError {
	return x.h.WriteBlocks(i, b)
}
func (x core) ZeroOutBlocks(i c.LogicalBlock, n uint) disko.DriverError {
	return x.h.ZeroOutBlocks(i, n)
}

// listing is a handle that can be listed, too.
type listing struct{ core }

func (x listing) ListDir() ([]string, disko.DriverError) { return x.h.ListDir() }

// NoLinks is a file system without hard links.
type NoLinks struct{ FS *MemFS }

func (n NoLinks) Mount(f disko.MountFlags) disko.DriverError { return n.FS.Mount(f) }
func (n NoLinks) Flush() disko.DriverError                   { return nil }
func (n NoLinks) Unmount() disko.DriverError                 { return nil }
func (n NoLinks) FSStat() disko.FSStat                       { return n.FS.FSStat() }
func (n NoLinks) GetFSFeatures() disko.FSFeatures            { return n.FS.Feat }
func (n NoLinks) GetRootDirectory() disko.ObjectHandle       { return n.FS.GetRootDirectory() }
func (n NoLinks) CreateObject(name string, parent disko.ObjectHandle, perm os.FileMode) (disko.ObjectHandle, disko.DriverError) {
	return n.FS.CreateObject(name, parent, perm)
}
func (n NoLinks) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	return n.FS.GetObject(name, parent)
}

// used reports whether the handle is closed.
func (h *handle) used() bool {
	if h.closed && h.fs.Strict {
		sym.Fail("a handle is not used after it has been closed")
	}
	return h.closed
}

func (fs *MemFS) own(h disko.ObjectHandle) *handle {
	switch d := h.(type) {
	case *DirHandle:
		return d.handle
	case core:
		return d.h
	case listing:
		return d.h
	}
	x, ok := h.(*handle)
	if !ok {
		sym.Fail("the file system gets back the handles it gave out")
	}
	return x
}

func (fs *MemFS) Mount(flags disko.MountFlags) disko.DriverError { return nil }
func (fs *MemFS) Flush() disko.DriverError                       { return nil }
func (fs *MemFS) Unmount() disko.DriverError                     { return nil }
func (fs *MemFS) FSStat() disko.FSStat                           { return disko.FSStat{BlockSize: uint(fs.B)} }
func (fs *MemFS) GetFSFeatures() disko.FSFeatures                { return fs.Feat }

func (fs *MemFS) GetRootDirectory() disko.ObjectHandle {
	return fs.out(fs.Root, fs.Root, "/")
}

func (fs *MemFS) dirArg(h disko.ObjectHandle) (*Node, disko.DriverError) {
	x := fs.own(h)
	if x.used() {
		return nil, disko.ErrFileDescriptorBadState
	}
	if !x.n.IsDir() {
		sym.Fail("the parent given to the file system is a directory")
	}
	return x.n, nil
}

func checkName(name string) {
	if name == "" || name == "." || name == ".." || strings.IndexByte(name, '/') >= 0 {
		sym.Fail("names given to the file system are single path components")
	}
}

func (fs *MemFS) CreateObject(name string, parent disko.ObjectHandle, perm os.FileMode) (disko.ObjectHandle, disko.DriverError) {
	dir, err := fs.dirArg(parent)
	if err != nil {
		return nil, err
	}
	checkName(name)
	if dir.Kid(name) != nil {
		sym.Fail("objects are only created under names that do not exist")
	}
	fs.mod("create", nil)
	if fs.fail() {
		return nil, ErrFS
	}
	n := fs.node(perm)
	fs.name(dir, name, n)
	return fs.out(n, dir, name), nil
}

func (fs *MemFS) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	dir, err := fs.dirArg(parent)
	if err != nil {
		return nil, err
	}
	if fs.fail() {
		return nil, ErrFS
	}
	checkName(name)
	n := dir.Kid(name)
	if n == nil {
		return nil, disko.ErrNotFound.WithMessage(name)
	}
	return fs.out(n, dir, name), nil
}

func (fs *MemFS) CreateHardLink(source, parent disko.ObjectHandle, name string) (disko.ObjectHandle, disko.DriverError) {
	src := fs.own(source)
	if src.used() {
		return nil, disko.ErrFileDescriptorBadState
	}
	if src.n.IsDir() {
		sym.Fail("directories are never hard-linked")
	}
	dir, err := fs.dirArg(parent)
	if err != nil {
		return nil, err
	}
	checkName(name)
	if dir.Kid(name) != nil {
		sym.Fail("hard links are only created under names that do not exist")
	}
	fs.mod("link", nil)
	if fs.fail() {
		return nil, ErrFS
	}
	fs.name(dir, name, src.n)
	return fs.out(src.n, dir, name), nil
}

func (h *handle) Stat() disko.FileStat {
	if h.used() {
		return disko.FileStat{}
	}
	return h.fs.Stat(h.n)
}

func (h *handle) Resize(newSize uint64) disko.DriverError {
	if h.used() {
		return disko.ErrFileDescriptorBadState
	}
	h.fs.mod("resize", h.n)
	if h.fs.fail() {
		return ErrFS
	}
	if newSize > h.fs.Max {
		return disko.ErrNoSpaceOnDevice
	}
	size := sym.Concretize(int(newSize))
	n := h.n
	n.Size = size
	if len(n.Data) < size {
		n.Data = append(n.Data, bytes.Repeat([]byte{0xEE}, size-len(n.Data))...)
	}
	h.fs.pad(n)
	for len(n.Data) >= size+h.fs.B {
		n.Data = n.Data[:len(n.Data)-h.fs.B]
	}
	return nil
}

func (h *handle) blocks(index c.LogicalBlock, size int) int {
	if size == 0 || size%h.fs.B != 0 {
		sym.Fail("transfers are a nonzero multiple of the block size")
	}
	if index > c.LogicalBlock(len(h.n.Data)/h.fs.B) {
		sym.Fail("transfers are within the object")
	}
	i := sym.Concretize(int(index)) * h.fs.B
	if i+size > len(h.n.Data) {
		sym.Fail("transfers are within the object")
	}
	return i
}

func (h *handle) ReadBlocks(index c.LogicalBlock, buffer []byte) disko.DriverError {
	if h.used() {
		return disko.ErrFileDescriptorBadState
	}
	h.fs.force(h.n)
	i := h.blocks(index, len(buffer))
	if h.fs.fail() {
		return ErrFS
	}
	copy(buffer, h.n.Data[i:])
	return nil
}

func (h *handle) WriteBlocks(index c.LogicalBlock, data []byte) disko.DriverError {
	if h.used() {
		return disko.ErrFileDescriptorBadState
	}
	i := h.blocks(index, len(data))
	h.fs.mod("write", h.n)
	if h.fs.fail() {
		return ErrFS
	}
	copy(h.n.Data[i:], data)
	return nil
}

func (h *handle) ZeroOutBlocks(start c.LogicalBlock, count uint) disko.DriverError {
	if h.used() {
		return disko.ErrFileDescriptorBadState
	}
	size := sym.Concretize(int(count)) * h.fs.B
	i := h.blocks(start, size)
	h.fs.mod("zero", h.n)
	if h.fs.fail() {
		return ErrFS
	}
	for j := 0; j < size; j++ {
		h.n.Data[i+j] = 0
	}
	return nil
}

func (h *handle) Unlink() disko.DriverError {
	if h.used() {
		return disko.ErrFileDescriptorBadState
	}
	if len(h.n.Names) > 0 {
		sym.Fail("only empty directories are unlinked")
	}
	if h.n == h.fs.Root {
		sym.Fail("the root directory is never unlinked")
	}
	h.fs.mod("unlink", h.n)
	if h.fs.fail() {
		return ErrFS
	}
	if h.parent.Kid(h.name) != h.n {
		return disko.ErrNotFound
	}
	h.parent.drop(h.name)
	h.n.Gone = h.n.Nlink == 0
	return nil
}

func (h *handle) Name() string { return h.name }

func (h *handle) SameAs(other disko.ObjectHandle) bool {
	x, ok := other.(*handle)
	if h.fs.Bare != 0 {
		x, ok = h.fs.own(other), true
	}
	if ok {
		x.used()
	}
	h.used()
	return ok && x.n == h.n
}

func (h *handle) Close() error {
	if h.closed {
		if h.fs.Strict {
			sym.Fail("a handle is closed only once")
		}
		return disko.ErrFileDescriptorBadState
	}
	h.fs.Open--
	h.closed = true
	return nil
}

func (h *handle) ListDir() ([]string, disko.DriverError) {
	if h.used() {
		return nil, disko.ErrFileDescriptorBadState
	}
	if !h.n.IsDir() {
		sym.Fail("only directories are listed")
	}
	if h.fs.fail() {
		return nil, ErrFS
	}
	var out []string
	if h.fs.One != "" {
		out = append(out, h.fs.One)
	} else if h.fs.Dots {
		out = append(out, ".", "..")
	}
	return append(out, h.n.Names...), nil
}

func (h *handle) Chmod(mode os.FileMode) disko.DriverError {
	if h.used() {
		return disko.ErrFileDescriptorBadState
	}
	h.fs.mod("chmod", h.n)
	h.fs.Modes = append(h.fs.Modes, mode)
	if h.fs.fail() {
		return ErrFS
	}
	h.n.Mode = h.n.Mode&^os.ModePerm | mode&os.ModePerm
	return nil
}

func (h *handle) Chown(uid, gid int) disko.DriverError {
	if h.used() {
		return disko.ErrFileDescriptorBadState
	}
	h.fs.mod("chown", h.n)
	if h.fs.fail() {
		return ErrFS
	}
	h.n.Uid, h.n.Gid = uid, gid
	return nil
}

func (h *handle) Chtimes(createdAt, lastAccessed, lastModified, lastChanged, deletedAt time.Time) disko.DriverError {
	if h.used() {
		return disko.ErrFileDescriptorBadState
	}
	h.fs.mod("chtimes", h.n)
	h.fs.Times = append(h.fs.Times, [5]time.Time{createdAt, lastAccessed, lastModified, lastChanged, deletedAt})
	if h.fs.fail() {
		return ErrFS
	}
	for _, p := range []struct {
		to *time.Time
		t  time.Time
	}{{&h.n.Created, createdAt}, {&h.n.Accessed, lastAccessed}, {&h.n.Modified, lastModified}, {&h.n.Changed, lastChanged}, {&h.n.Deleted, deletedAt}} {
		if p.t != (time.Time{}) {
			*p.to = p.t
		}
	}
	return nil
}

// DirHandle is a handle to an object for driver.NewFileFromObjectHandle.
type DirHandle struct {
	*handle
	Path string
}

func (d *DirHandle) AbsolutePath() string { return d.Path }

// Handle makes a handle for an object at a path.
func (fs *MemFS) Handle(n, parent *Node, name, path string) *DirHandle {
	return &DirHandle{fs.give(n, parent, name), path}
}

// ---------------------------------------------------------------------------
// Reference path resolution

// Resolution errors.
const (
	Found = iota
	NotFound
	NotDir
	Cycle
)

// Components splits a path.
func Components(path string) []string {
	var out []string
	cur := ""
	for i := 0; i < len(path); i++ {
		if path[i] == '/' {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
		} else {
			cur += path[i : i+1]
		}
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

// Clean is lexical cleaning of path against the working directory cwd.
func Clean(cwd, path string) string {
	if len(path) == 0 || path[0] != '/' {
		path = cwd + "/" + path
	}
	var out []string
	for _, p := range Components(path) {
		switch p {
		case ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, p)
		}
	}
	s := ""
	for _, p := range out {
		s += "/" + p
	}
	if s == "" {
		return "/"
	}
	return s
}

// MaxLinks is how many links POSIX resolution may follow (any limit of at least
// eight is allowed; volumes in the harnesses need fewer unless there is a cycle).
const MaxLinks = 24

// Place is where a path leads to.
type Place struct {
	Node    *Node // nil if missing
	Parent  *Node // directory the last component is in
	Name    string
	Parents []*Node // directories from the root down to Parent
}

// Resolve follows POSIX path resolution of an absolute path.
func (fs *MemFS) Resolve(path string, follow bool) (Place, int) {
	stack := []*Node{fs.Root}
	names := []string{"/"}
	todo := Components(path)
	trailing := len(path) > 1 && path[len(path)-1] == '/'
	links := 0
	for len(todo) > 0 {
		dir := stack[len(stack)-1]
		name := todo[0]
		rest := todo[1:]
		if !dir.IsDir() {
			return Place{}, NotDir
		}
		todo = rest
		if name == "." {
			continue
		}
		if name == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			continue
		}
		n := dir.Kid(name)
		last := len(rest) == 0
		if n == nil {
			if last {
				return Place{nil, dir, name, append([]*Node{}, stack...)}, NotFound
			}
			return Place{}, NotFound
		}
		if n.IsLink() && (!last || follow || trailing) {
			links++
			if links > MaxLinks {
				return Place{}, Cycle
			}
			t := fs.Target(n)
			if t == "" {
				return Place{}, NotFound
			}
			if t[0] == '/' {
				stack = []*Node{fs.Root}
				names = []string{"/"}
			}
			if t[len(t)-1] == '/' && last {
				trailing = true
			}
			todo = append(append([]string{}, Components(t)...), rest...)
			continue
		}
		stack = append(stack, n)
		names = append(names, name)
	}
	n := stack[len(stack)-1]
	if trailing && !n.IsDir() {
		return Place{}, NotDir
	}
	p := Place{Node: n, Name: names[len(names)-1], Parents: append([]*Node{}, stack[:len(stack)-1]...)}
	if len(stack) > 1 {
		p.Parent = stack[len(stack)-2]
	}
	return p, Found
}

// Kind checks that an error is of the kind path resolution gives.
func Kind(err error, res int) bool {
	switch res {
	case NotFound:
		return errors.Is(err, disko.ErrNotFound)
	case NotDir:
		return errors.Is(err, disko.ErrNotADirectory)
	case Cycle:
		return errors.Is(err, disko.ErrLinkCycleDetected)
	}
	return err == nil
}

// ---------------------------------------------------------------------------
// Snapshots

// Snap is a copy of the whole tree.
type Snap struct {
	Nodes []*Node // originals
	Saved []Node  // their state
}

// Save copies the state of all nodes.
func (fs *MemFS) Save() *Snap {
	s := &Snap{}
	s.walk(fs.Root)
	return s
}

func (s *Snap) walk(n *Node) {
	for _, m := range s.Nodes {
		if m == n {
			return
		}
	}
	cp := *n
	cp.Data = append([]byte{}, n.Data...)
	cp.Names = append([]string{}, n.Names...)
	cp.Kids = append([]*Node{}, n.Kids...)
	s.Nodes = append(s.Nodes, n)
	s.Saved = append(s.Saved, cp)
	for _, k := range n.Kids {
		s.walk(k)
	}
}

func sameEntries(a, b *Node, except []string) bool {
	skip := func(n string) bool {
		for _, e := range except {
			if e == n {
				return true
			}
		}
		return false
	}
	x, y := 0, 0
	for i, n := range a.Names {
		if skip(n) {
			continue
		}
		x++
		if b.Kid(n) != a.Kids[i] {
			return false
		}
	}
	for _, n := range b.Names {
		if !skip(n) {
			y++
		}
	}
	return x == y
}

// Same checks that every node saved still has the state saved. Changes to the
// nodes in except and to the entries called exceptName in directory exceptDir
// are not looked at.
func (s *Snap) Same(what string, exceptDir *Node, exceptName string, except ...*Node) {
	for i, n := range s.Nodes {
		skip := false
		for _, e := range except {
			skip = skip || e == n
		}
		if skip {
			continue
		}
		o := &s.Saved[i]
		var names []string
		if n == exceptDir {
			names = []string{exceptName}
		}
		sym.Assert(sameEntries(o, n, names), what+": no other directory entry changes")
		sym.Assert(n.Size == o.Size && n.Mode == o.Mode, what+": nothing else changes")
		if n.Lazy == nil && o.Lazy == nil && !n.IsDir() {
			sym.Assert(sym.BytesEq(n.Data[:n.Size], o.Data[:o.Size]), what+": no other contents change")
		}
		sym.Assert(n.Uid == o.Uid && n.Gid == o.Gid, what+": no other owner changes")
		sym.Assert(n.Created == o.Created && n.Accessed == o.Accessed && n.Modified == o.Modified && n.Changed == o.Changed, what+": no other times change")
	}
}

// SavedOf is the saved state of a node (nil if it did not exist).
func (s *Snap) SavedOf(n *Node) *Node {
	for i, m := range s.Nodes {
		if m == n {
			return &s.Saved[i]
		}
	}
	return nil
}

// Count of modifying calls of an operation.
func (fs *MemFS) Count(op string) int {
	k := 0
	for _, m := range fs.Mods {
		if m.Op == op {
			k++
		}
	}
	return k
}
