package main

import (
	"archive/tar"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"golang.org/x/sys/unix"
)

type fsTarget struct {
	S   string   `json:"s"`
	Abs bool     `json:"abs"`
	P   []string `json:"p"`
}

type fsFlags struct {
	R     bool `json:"r"`
	W     bool `json:"w"`
	Creat bool `json:"creat"`
	Excl  bool `json:"excl"`
	Trunc bool `json:"trunc"`
	App   bool `json:"app"`
}

type fsOp struct {
	O    string   `json:"o"`
	P    []string `json:"p"`
	Abs  bool     `json:"abs"`
	Old  []string `json:"old"`
	Tg   fsTarget `json:"tg"`
	Perm int      `json:"perm"`
	UID  int      `json:"uid"`
	GID  int      `json:"gid"`
	Dev  int      `json:"dev"`
	B    []int    `json:"b"`
	A    string   `json:"a"`
	I    int      `json:"i"`
	K    int      `json:"k"`
	Off  int64    `json:"off"`
	Wh   int      `json:"wh"`
	Fl   fsFlags  `json:"fl"`
	Via  string   `json:"via"` // an equivalent call: "open", "create", "readerat"
}

type fsInfo struct {
	Name string `json:"name"`
	K    string `json:"k"`
	Perm int    `json:"perm"`
	UID  int    `json:"uid"`
	GID  int    `json:"gid"`
	Size int64  `json:"size"`
}

type fsEntry struct {
	P    string  `json:"p"`
	K    string  `json:"k"`
	Perm int     `json:"perm"`
	UID  int     `json:"uid"`
	GID  int     `json:"gid"`
	Data []int   `json:"data"`
	Tg   string  `json:"tg"`
	Dev  int     `json:"dev"`
	X    [][]any `json:"x"`
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

func bytesOf(v []int) []byte {
	r := make([]byte, len(v))
	for i, c := range v {
		r[i] = byte(c)
	}
	return r
}

// goMode and unixPerm convert between permission numbers and fs.FileMode.
func goMode(p int) fs.FileMode {
	m := fs.FileMode(p & 0o777)
	if p&0o4000 != 0 {
		m |= fs.ModeSetuid
	}
	if p&0o2000 != 0 {
		m |= fs.ModeSetgid
	}
	if p&0o1000 != 0 {
		m |= fs.ModeSticky
	}
	return m
}

func unixPerm(m fs.FileMode) int {
	p := int(m.Perm())
	if m&fs.ModeSetuid != 0 {
		p |= 0o4000
	}
	if m&fs.ModeSetgid != 0 {
		p |= 0o2000
	}
	if m&fs.ModeSticky != 0 {
		p |= 0o1000
	}
	return p
}

func fsKind(m fs.FileMode) string {
	switch {
	case m.IsDir():
		return "dir"
	case m.IsRegular():
		return "file"
	case m&fs.ModeSymlink != 0:
		return "link"
	case m&fs.ModeDevice != 0:
		return "dev"
	}
	return "?"
}

func infoOf(fi fs.FileInfo) fsInfo {
	r := fsInfo{Name: fi.Name(), K: fsKind(fi.Mode())}
	if r.K != "link" {
		r.Perm = unixPerm(fi.Mode())
	}
	if fi.IsDir() != fi.Mode().IsDir() {
		r.K = "isdir-differs"
	}
	switch s := fi.Sys().(type) {
	case *tar.Header:
		r.UID, r.GID = s.Uid, s.Gid
	case *syscall.Stat_t:
		r.UID, r.GID = int(s.Uid), int(s.Gid)
	}
	if r.K == "file" {
		r.Size = fi.Size()
	}
	return r
}

func errClass(err error) string {
	switch {
	case err == nil:
		return ""
	case err == io.EOF:
		return "eof"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	case errors.Is(err, fs.ErrExist):
		return "exist"
	}
	return "other"
}

// fsView walks the filesystem from its root through its own operations.
func fsView(f apkfs.FullFS) (es []fsEntry, bad string) {
	es = []fsEntry{}
	steps := 0
	var walk func(dir string)
	walk = func(dir string) {
		des, err := f.ReadDir("/" + dir)
		if err != nil {
			bad = fmt.Sprintf("readdir %q: %v", dir, err)
			return
		}
		for _, de := range des {
			if steps++; steps > 3000 || bad != "" {
				if bad == "" {
					bad = "endless tree"
				}
				return
			}
			p := filepath.Join(dir, de.Name())
			fi, err := f.Lstat(p)
			if err != nil {
				bad = fmt.Sprintf("lstat %q: %v", p, err)
				return
			}
			in := infoOf(fi)
			e := fsEntry{P: p, K: in.K, Perm: in.Perm, UID: in.UID, GID: in.GID, Data: []int{}, X: [][]any{}}
			if de.Type() != fi.Mode().Type() {
				bad = fmt.Sprintf("type of %q: %v in its directory, %v itself", p, de.Type(), fi.Mode().Type())
				return
			}
			if di, err := de.Info(); err != nil || !reflect.DeepEqual(infoOf(di), in) {
				bad = fmt.Sprintf("info of %q: %v in its directory, %+v itself", p, err, in)
				return
			}
			switch in.K {
			case "file":
				b, err := f.ReadFile(p)
				if errors.Is(err, fs.ErrPermission) {
					// Open makes it readable for as long as it is open
					var h fs.File
					if h, err = f.Open(p); err == nil {
						b, err = io.ReadAll(h)
						if cerr := h.Close(); err == nil {
							err = cerr
						}
					}
				}
				if err != nil {
					bad = fmt.Sprintf("readfile %q: %v", p, err)
					return
				}
				e.Data = ints(b)
			case "link":
				if e.Tg, err = f.Readlink(p); err != nil {
					bad = fmt.Sprintf("readlink %q: %v", p, err)
					return
				}
			case "dev":
				if e.Dev, err = f.Readnod(p); err != nil {
					bad = fmt.Sprintf("readnod %q: %v", p, err)
					return
				}
			}
			if in.K != "link" {
				xs, err := f.ListXattrs(p)
				if err != nil {
					bad = fmt.Sprintf("xattrs %q: %v", p, err)
					return
				}
				e.X = xattrList(xs)
			}
			es = append(es, e)
			if in.K == "dir" {
				walk(p)
			}
		}
	}
	walk("")
	return es, bad
}

func xattrList(xs map[string][]byte) [][]any {
	var ks []string
	for k := range xs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := [][]any{}
	for _, k := range ks {
		r = append(r, []any{k, ints(xs[k])})
	}
	return r
}

// diskView walks a real directory.
func diskView(base string) (es []fsEntry, bad string) {
	es = []fsEntry{}
	err := filepath.WalkDir(base, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(base, path)
		if rel == "." {
			return nil
		}
		fi, err := d.Info()
		if err != nil {
			return err
		}
		in := infoOf(fi)
		e := fsEntry{P: rel, K: in.K, Perm: in.Perm, Data: []int{}, X: [][]any{}}
		switch in.K {
		case "file":
			if fi.Mode().Perm()&0o400 == 0 && os.Geteuid() != 0 {
				must(os.Chmod(path, fi.Mode().Perm()|0o400))
				defer os.Chmod(path, fi.Mode().Perm())
			}
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			e.Data = ints(b)
		case "link":
			if e.Tg, err = os.Readlink(path); err != nil {
				return err
			}
		case "dev":
			e.Dev = int(fi.Sys().(*syscall.Stat_t).Rdev)
		}
		es = append(es, e)
		return nil
	})
	if err != nil {
		bad = err.Error()
	}
	return es, bad
}

// fsDo carries out one operation; handles are numbered as they are opened.
func fsDo(f apkfs.FullFS, handles *[]apkfs.File, op fsOp) (cls string, val any) {
	p := strings.Join(op.P, "/")
	if op.Abs {
		p = "/" + p
	}
	fin := func(err error, v any) (string, any) {
		if err != nil && errClass(err) != "eof" {
			return errClass(err), nil
		}
		return errClass(err), v
	}
	var h apkfs.File
	switch op.O {
	case "read", "readat", "hwrite", "seek", "hstat", "close":
		if op.I > len(*handles) {
			return "nohandle", nil
		}
		h = (*handles)[op.I-1]
	}
	switch op.O {
	case "mkdir":
		return fin(f.Mkdir(p, goMode(op.Perm)), nil)
	case "mkdirall":
		return fin(f.MkdirAll(p, goMode(op.Perm)), nil)
	case "write":
		return fin(f.WriteFile(p, bytesOf(op.B), goMode(op.Perm)), nil)
	case "open":
		fl := 0
		switch {
		case op.Fl.R && op.Fl.W:
			fl = os.O_RDWR
		case op.Fl.W:
			fl = os.O_WRONLY
		}
		for _, b := range []struct {
			on bool
			v  int
		}{{op.Fl.Creat, os.O_CREATE}, {op.Fl.Excl, os.O_EXCL}, {op.Fl.Trunc, os.O_TRUNC}, {op.Fl.App, os.O_APPEND}} {
			if b.on {
				fl |= b.v
			}
		}
		var file apkfs.File
		var err error
		switch op.Via {
		case "create":
			file, err = f.Create(p)
		case "readerat":
			file, err = f.OpenReaderAt(p)
		case "open":
			var ff fs.File
			ff, err = f.Open(p)
			if err == nil {
				var ok bool
				if file, ok = ff.(apkfs.File); !ok {
					ff.Close()
					return "nofile", nil
				}
			}
		default:
			file, err = f.OpenFile(p, fl, goMode(op.Perm))
		}
		if err != nil {
			return errClass(err), nil
		}
		if fi, err := file.Stat(); err == nil && fi.IsDir() {
			file.Close()
			return "isdir", nil
		}
		*handles = append(*handles, file)
		return "", nil
	case "read":
		b := make([]byte, op.K)
		n, err := h.Read(b)
		if n > 0 && err == io.EOF {
			err = nil
		}
		return fin(err, ints(b[:n]))
	case "readat":
		b := make([]byte, op.K)
		n, err := h.ReadAt(b, op.Off)
		return fin(err, ints(b[:n]))
	case "hwrite":
		n, err := h.Write(bytesOf(op.B))
		return fin(err, n)
	case "seek":
		n, err := h.Seek(op.Off, op.Wh)
		return fin(err, n)
	case "hstat":
		fi, err := h.Stat()
		if err != nil {
			return fin(err, nil)
		}
		return "", infoOf(fi)
	case "close":
		return fin(h.Close(), nil)
	case "stat", "lstat":
		st := f.Stat
		if op.O == "lstat" {
			st = f.Lstat
		}
		fi, err := st(p)
		if err != nil {
			return fin(err, nil)
		}
		return "", infoOf(fi)
	case "readfile":
		b, err := f.ReadFile(p)
		return fin(err, ints(b))
	case "readdir":
		des, err := f.ReadDir(p)
		if err != nil {
			return fin(err, nil)
		}
		r := []fsInfo{}
		for i, de := range des {
			fi, err := de.Info()
			if err != nil {
				return fin(err, nil)
			}
			if fi.Name() != de.Name() || fi.Mode().Type() != de.Type() || fi.IsDir() != de.IsDir() || (i > 0 && des[i-1].Name() >= de.Name()) {
				return "inconsistent", nil
			}
			r = append(r, infoOf(fi))
		}
		return "", r
	case "readlink":
		s, err := f.Readlink(p)
		return fin(err, s)
	case "readnod":
		d, err := f.Readnod(p)
		return fin(err, d)
	case "symlink":
		return fin(f.Symlink(op.Tg.S, p), nil)
	case "mknod":
		return fin(f.Mknod(p, uint32(unix.S_IFCHR|op.Perm), op.Dev), nil)
	case "link":
		return fin(f.Link(strings.Join(op.Old, "/"), p), nil)
	case "remove":
		return fin(f.Remove(p), nil)
	case "chmod":
		return fin(f.Chmod(p, goMode(op.Perm)), nil)
	case "chown":
		return fin(f.Chown(p, op.UID, op.GID), nil)
	case "setx":
		b := bytesOf(op.B)
		err := f.SetXattr(p, op.A, b)
		for i := range b {
			b[i]++ // the caller may reuse its buffer
		}
		return fin(err, nil)
	case "rmx":
		return fin(f.RemoveXattr(p, op.A), nil)
	case "getx":
		b, err := f.GetXattr(p, op.A)
		r := ints(b)
		for i := range b {
			b[i]++
		}
		return fin(err, r)
	case "listx":
		m, err := f.ListXattrs(p)
		if err != nil {
			return fin(err, nil)
		}
		return "", xattrList(m)
	}
	panic("unknown op " + op.O)
}

var fsSeq atomic.Int64

func init() {
	// a history of operations; after each the visible tree, if it changed
	caseCmds["fs"] = func(raw json.RawMessage) any {
		var c struct {
			Disk    bool   `json:"disk"`
			Fold    bool   `json:"fold"` // treat the disk as case-insensitive
			Ops     []fsOp `json:"ops"`
			Outside string `json:"outside"`
		}
		must(json.Unmarshal(raw, &c))
		var f apkfs.FullFS
		var base, world string
		var before map[string]string
		opts := []apkfs.DirFSOption{}
		if c.Disk {
			// world/base is the root, world/canary* and world/out lie around it
			world = filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("w%d", fsSeq.Add(1)))
			base = filepath.Join(world, "base")
			for _, d := range []string{world, base, base + "-sibling", filepath.Join(world, "out")} {
				must(os.Mkdir(d, 0o755))
			}
			for _, n := range []string{"a", "b", "base-sibling/a", "out/a", "out/b"} {
				must(os.WriteFile(filepath.Join(world, n), []byte("outside "+n), 0o644))
			}
			before = snapshotDir(world, base)
			defer os.RemoveAll(world)
			if c.Fold {
				opts = append(opts, apkfs.DirFSWithCaseSensitive(false))
			}
			if f = apkfs.DirFS(base, opts...); f == nil {
				return map[string]any{"nofs": true}
			}
		} else {
			f = apkfs.NewMemFS()
		}
		var handles []apkfs.File
		type step struct {
			Err  string    `json:"err"`
			Val  any       `json:"val"`
			Tree []fsEntry `json:"tree"`
			TS   bool      `json:"ts"` // the tree is as before
			Disk []fsEntry `json:"disk"`
			DS   bool      `json:"ds"`
			Bad  string    `json:"bad"` // what the views could not be read for
		}
		steps := []step{}
		lastTree, lastDisk := "[]", "[]"
		for _, op := range c.Ops {
			if op.O == "reopen" {
				for _, h := range handles {
					h.Close()
				}
				handles = nil
				if f = apkfs.DirFS(base, opts...); f == nil {
					return map[string]any{"nofs": true}
				}
				lastTree = ""
			}
			s := step{Tree: []fsEntry{}, Disk: []fsEntry{}, Val: 0}
			if op.O != "reopen" {
				for i := range op.Tg.P {
					op.Tg.P[i] = strings.ReplaceAll(op.Tg.P[i], "@W", world)
				}
				op.Tg.S = strings.ReplaceAll(op.Tg.S, "@W", world)
				s.Err, s.Val = fsDo(f, &handles, op)
				if s.Val == nil {
					s.Val = 0
				}
				if l, ok := s.Val.(string); ok && world != "" {
					s.Val = strings.ReplaceAll(l, world, "@W")
				}
			}
			es, bad := fsView(f)
			for i := range es {
				if world != "" {
					es[i].Tg = strings.ReplaceAll(es[i].Tg, world, "@W")
				}
			}
			j := js(es)
			s.Bad, s.TS = bad, j == lastTree
			if !s.TS {
				s.Tree, lastTree = es, j
			}
			if c.Disk {
				es, bad := diskView(base)
				for i := range es {
					es[i].Tg = strings.ReplaceAll(es[i].Tg, world, "@W")
				}
				j := js(es)
				s.Bad += bad
				s.DS = j == lastDisk
				if !s.DS {
					s.Disk, lastDisk = es, j
				}
			}
			steps = append(steps, s)
		}
		for _, h := range handles {
			h.Close()
		}
		r := map[string]any{"steps": steps, "outside": []string{}}
		if c.Disk {
			r["outside"] = snapshotDiff(before, snapshotDir(world, base))
		}
		return r
	}
}

// snapshotDir records everything below dir except what is below skip.
func snapshotDir(dir, skip string) map[string]string {
	m := map[string]string{}
	_ = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			m[path] = "error"
			return nil
		}
		if path == skip {
			return filepath.SkipDir
		}
		fi, err := d.Info()
		if err != nil {
			m[path] = "error"
			return nil
		}
		v := fi.Mode().String()
		switch {
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(path)
			st := fi.Sys().(*syscall.Stat_t)
			v += fmt.Sprintf(" %d %d %d %q", st.Nlink, st.Uid, st.Gid, b)
		case fi.Mode()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(path)
			v += " " + l
		}
		m[path] = v
		return nil
	})
	return m
}

func snapshotDiff(a, b map[string]string) []string {
	d := []string{}
	for k, v := range a {
		if w, ok := b[k]; !ok {
			d = append(d, "removed "+k)
		} else if v != w {
			d = append(d, "changed "+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, "created "+k)
		}
	}
	sort.Strings(d)
	return d
}
