package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A harness directory with a file os.overlay gets package os with a hook in
// front of the file operations, so that an *os.File can be backed by an
// in-memory disk with faults, in the executor and in the native replay alike.
// The code under test is untouched.

const osHookSrc = `package os

// ZzVerifFile backs a file made by ZzVerifNewFile.
type ZzVerifFile interface {
	Read(b []byte) (int, error)
	ReadAt(b []byte, off int64) (int, error)
	Write(b []byte) (int, error)
	WriteAt(b []byte, off int64) (int, error)
	Seek(offset int64, whence int) (int64, error)
	Truncate(size int64) error
	Sync() error
	Close() error
	Stat() (FileInfo, error)
}

// ZzVerifSys replaces the operations on paths, and Exit.
type ZzVerifSys interface {
	OpenFile(name string, flag int, perm FileMode) (*File, error)
	Exit(code int)
	Stat(name string) (FileInfo, error)
	Remove(name string) error
	Rename(from, to string) error
}

// ZzVerifHook is nil unless a harness sets it.
var ZzVerifHook ZzVerifSys

var zzFiles map[*File]ZzVerifFile

// ZzVerifNewFile makes a file backed by h.
func ZzVerifNewFile(name string, h ZzVerifFile) *File {
	if zzFiles == nil {
		zzFiles = map[*File]ZzVerifFile{}
	}
	f := &File{&file{name: name}}
	zzFiles[f] = h
	return f
}

func zzHook(f *File) ZzVerifFile {
	if f == nil || zzFiles == nil {
		return nil
	}
	return zzFiles[f]
}
`

var osMethods = map[string]bool{"Read": true, "ReadAt": true, "Write": true, "WriteAt": true, "Seek": true, "Truncate": true, "Sync": true, "Close": true, "Stat": true}
var osFuncs = map[string]bool{"OpenFile": true, "Exit": true, "Stat": true, "Remove": true, "Rename": true}

func usesOS(cfg *Config) bool {
	_, err := os.Stat(filepath.Join(cfg.Harness, strings.ToLower(cfg.Prop), "os.overlay"))
	return err == nil
}

func osOverlay(cfg *Config) (map[string]string, error) {
	ctx := build.Default
	root := ctx.GOROOT
	if out, err := goEnvVar(cfg, "GOROOT"); err == nil {
		root = out
	}
	src := filepath.Join(root, "src", "os")
	files, err := filepath.Glob(filepath.Join(src, "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	dir := filepath.Join(cfg.Out, "build", cfg.Prop, "os")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	m := map[string]string{}
	ctx.CgoEnabled = false
	fs := token.NewFileSet()
	for _, f := range files {
		base := filepath.Base(f)
		if strings.HasSuffix(base, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(src, base); err != nil || !ok {
			continue
		}
		text, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		af, err := parser.ParseFile(fs, f, text, 0)
		if err != nil {
			return nil, err
		}
		type ins struct {
			off int
			s   string
		}
		var todo []ins
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			var params []string
			for _, p := range fd.Type.Params.List {
				for _, n := range p.Names {
					params = append(params, n.Name)
				}
			}
			args := strings.Join(params, ", ")
			name := fd.Name.Name
			s := ""
			if fd.Recv == nil {
				if osFuncs[name] {
					s = fmt.Sprintf(" if zz := ZzVerifHook; zz != nil { return zz.%s(%s) };", name, args)
					if name == "Exit" {
						s = fmt.Sprintf(" if zz := ZzVerifHook; zz != nil { zz.Exit(%s); return };", args)
					}
				}
			} else if st, ok := fd.Recv.List[0].Type.(*ast.StarExpr); ok && len(fd.Recv.List[0].Names) == 1 {
				if id, ok := st.X.(*ast.Ident); ok && id.Name == "File" {
					recv := fd.Recv.List[0].Names[0].Name
					switch {
					case osMethods[name]:
						s = fmt.Sprintf(" if zz := zzHook(%s); zz != nil { return zz.%s(%s) };", recv, name, args)
					case name == "ReadFrom":
						s = fmt.Sprintf(" if zzHook(%s) != nil { return genericReadFrom(%s, %s) };", recv, recv, args)
					case name == "WriteTo":
						s = fmt.Sprintf(" if zzHook(%s) != nil { return genericWriteTo(%s, %s) };", recv, recv, args)
					}
				}
			}
			if s != "" {
				todo = append(todo, ins{fs.Position(fd.Body.Lbrace).Offset + 1, s})
			}
		}
		if len(todo) == 0 {
			continue
		}
		var b strings.Builder
		last := 0
		for _, t := range todo {
			b.Write(text[last:t.off])
			b.WriteString(t.s)
			last = t.off
		}
		b.Write(text[last:])
		out := filepath.Join(dir, base)
		if err := os.WriteFile(out, []byte(b.String()), 0o644); err != nil {
			return nil, err
		}
		m[f] = out
	}
	out := filepath.Join(dir, "zz_verif.go")
	if err := os.WriteFile(out, []byte(osHookSrc), 0o644); err != nil {
		return nil, err
	}
	m[filepath.Join(src, "zz_verif.go")] = out
	return m, nil
}
