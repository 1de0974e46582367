package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"github.com/chainguard-dev/go-apk/pkg/tarball"
	"golang.org/x/sys/unix"
)

type tarSrc struct {
	P    []string `json:"p"`
	K    string   `json:"k"`
	Perm int      `json:"perm"`
	UID  int      `json:"uid"`
	GID  int      `json:"gid"`
	Data []int    `json:"data"`
	Tg   string   `json:"tg"`
	Maj  int      `json:"maj"`
	Min  int      `json:"min"`
	X    [][]any  `json:"x"`
	Ino  int      `json:"ino"`
	Sum  string   `json:"sum"`
}

type tarOut struct {
	Name     string  `json:"name"`
	K        string  `json:"k"`
	Mode     int64   `json:"mode"`
	Mtime    int64   `json:"mtime"`
	UID      int     `json:"uid"`
	GID      int     `json:"gid"`
	Uname    string  `json:"uname"`
	Gname    string  `json:"gname"`
	Linkname string  `json:"linkname"`
	Data     []int   `json:"data"`
	Maj      int64   `json:"maj"`
	Min      int64   `json:"min"`
	X        [][]any `json:"x"`
	Sum      string  `json:"sum"`
}

func expand(d []int, blk int) []byte {
	return bytes.Join(func() (r [][]byte) {
		for _, c := range d {
			r = append(r, bytes.Repeat([]byte{byte(c)}, blk))
		}
		return
	}(), nil)
}

// collapse undoes expand; {-1} if b is nothing expand returns.
func collapse(b []byte, blk int) []int {
	r := []int{}
	for i := 0; i < len(b); i += blk {
		r = append(r, int(b[i]))
	}
	if !bytes.Equal(expand(r, blk), b) {
		return []int{-1, len(b)}
	}
	return r
}

// faultFS wraps a filesystem: inode numbers, and a file that cannot be read as its size says.
type faultFS struct {
	apkfs.FullFS
	inos  map[string]int
	nlink map[int]int
	file  string
	fault string
}

type inoInfo struct {
	fs.FileInfo
	st *syscall.Stat_t
}

func (i inoInfo) Sys() any { return i.st }

type inoEntry struct {
	fs.DirEntry
	f *faultFS
	p string
}

func (e inoEntry) Info() (fs.FileInfo, error) {
	if e.f.fault == "info" && e.p == e.f.file {
		return nil, errors.New("injected info error")
	}
	fi, err := e.DirEntry.Info()
	if err != nil {
		return nil, err
	}
	if e.f.inos == nil {
		return fi, nil
	}
	h := fi.Sys().(*tar.Header)
	st := &syscall.Stat_t{Uid: uint32(h.Uid), Gid: uint32(h.Gid), Nlink: 1, Ino: 1000000 + uint64(len(e.p))}
	if n := e.f.inos[e.p]; n != 0 {
		st.Ino, st.Nlink = uint64(n), uint64(e.f.nlink[n])
	}
	return inoInfo{fi, st}, nil
}

func (f *faultFS) Stat(name string) (fs.FileInfo, error) {
	if f.fault == "stat" && name == f.file {
		return nil, errors.New("injected stat error")
	}
	return f.FullFS.Stat(name)
}

func (f *faultFS) Readlink(name string) (string, error) {
	if f.fault == "readlink" && name == f.file {
		return "", errors.New("injected readlink error")
	}
	return f.FullFS.Readlink(name)
}

func (f *faultFS) Readnod(name string) (int, error) {
	if f.fault == "readnod" && name == f.file {
		return 0, errors.New("injected readnod error")
	}
	return f.FullFS.Readnod(name)
}

func (f *faultFS) ReadDir(name string) ([]fs.DirEntry, error) {
	if f.fault == "readdir" && name == f.file {
		return nil, errors.New("injected readdir error")
	}
	des, err := f.FullFS.ReadDir(name)
	if f.fault == "partdir" && name == f.file {
		des, err = des[:len(des)/2], errors.New("injected readdir error")
	}
	for i := range des {
		des[i] = inoEntry{des[i], f, filepath.Join(name, des[i].Name())}
	}
	return des, err
}

func (f *faultFS) Open(name string) (fs.File, error) {
	if name == f.file {
		switch f.fault {
		case "open":
			return nil, errors.New("injected open error")
		case "mid", "short":
			h, err := f.FullFS.Open(name)
			if err != nil {
				return nil, err
			}
			return &faultFile{File: h, f: f}, nil
		}
	}
	return f.FullFS.Open(name)
}

type faultFile struct {
	fs.File
	f    *faultFS
	done bool
}

func (h *faultFile) Read(b []byte) (int, error) {
	if h.done {
		if h.f.fault == "short" {
			return 0, io.EOF
		}
		return 0, errors.New("injected read error")
	}
	h.done = true
	n, err := h.File.Read(b)
	if n > 0 {
		n--
	}
	return n, err
}

type failWriter struct {
	w    io.Writer
	left int
}

func (w *failWriter) Write(b []byte) (int, error) {
	if w.left >= 0 && len(b) > w.left {
		n, _ := w.w.Write(b[:w.left])
		w.left = 0
		return n, errors.New("injected write error")
	}
	if w.left >= 0 {
		w.left -= len(b)
	}
	return w.w.Write(b)
}

func readTarOut(raw []byte, gz bool, blk int) (out []tarOut, tail string, err error) {
	out = []tarOut{}
	if gz {
		zr, err := gzip.NewReader(bytes.NewReader(raw))
		if err != nil {
			return out, "", err
		}
		if raw, err = io.ReadAll(zr); err != nil {
			return out, "", err
		}
	}
	tail = "open"
	if len(raw)%512 != 0 {
		tail = "unaligned"
	} else if len(raw) >= 1024 && bytes.Count(raw[len(raw)-1024:], []byte{0}) == 1024 {
		tail = "closed"
	}
	tr := tar.NewReader(bytes.NewReader(raw))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return out, tail, nil
		}
		if err != nil {
			return out, tail, err
		}
		o := tarOut{Name: strings.TrimSuffix(h.Name, "/"), Mode: h.Mode, UID: h.Uid, GID: h.Gid, Uname: h.Uname, Gname: h.Gname, Linkname: h.Linkname,
			Maj: h.Devmajor, Min: h.Devminor, Mtime: h.ModTime.Unix(), X: [][]any{}, Data: []int{}}
		switch h.Typeflag {
		case tar.TypeReg:
			o.K = "file"
		case tar.TypeDir:
			o.K = "dir"
		case tar.TypeSymlink:
			o.K = "link"
		case tar.TypeLink:
			o.K = "hard"
		case tar.TypeChar:
			o.K = "dev"
		default:
			o.K = "?" + string(h.Typeflag)
		}
		b, err := io.ReadAll(tr)
		if err != nil {
			return out, tail, err
		}
		o.Data = collapse(b, blk)
		var ks []string
		for k := range h.PAXRecords {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if n, ok := strings.CutPrefix(k, "SCHILY.xattr."); ok {
				o.X = append(o.X, []any{n, ints([]byte(h.PAXRecords[k]))})
			}
		}
		o.Sum = h.PAXRecords["APK-TOOLS.checksum.SHA1"]
		out = append(out, o)
	}
}

func init() {
	caseCmds["tar"] = func(raw json.RawMessage) any {
		type ov struct {
			Name  string `json:"name"`
			Mode  int64  `json:"mode"`
			UID   int    `json:"uid"`
			GID   int    `json:"gid"`
			Uname string `json:"uname"`
			Gname string `json:"gname"`
		}
		var c struct {
			Src   string   `json:"src"` // mem, ino, dir, os
			Tree  []tarSrc `json:"tree"`
			Order []int    `json:"order"` // a second order to create the tree in
			Blk   int      `json:"blk"`
			GZ    bool     `json:"gz"`
			Skip  bool     `json:"skip"`
			Opt   struct {
				SDE    int64   `json:"sde"`
				OUID   bool    `json:"ouid"`
				UID    int     `json:"uid"`
				GID    int     `json:"gid"`
				Uname  string  `json:"uname"`
				Gname  string  `json:"gname"`
				Perms  []ov    `json:"perms"`
				RU     [][]int `json:"ru"`
				RG     [][]int `json:"rg"`
				Users  [][]any `json:"users"`
				Groups [][]any `json:"groups"`
				Sums   bool    `json:"sums"`
			} `json:"opt"`
			Fault string `json:"fault"` // "", write, open, mid, short, readdir, partdir, stat, info, readlink, readnod, cancel
			At    int    `json:"at"`
		}
		must(json.Unmarshal(raw, &c))
		var tmp string
		if c.Src == "dir" || c.Src == "os" {
			tmp = filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("tar%d", fsSeq.Add(1)))
			must(os.Mkdir(tmp, 0o755))
			defer os.RemoveAll(tmp)
		}
		nb := 0
		build := func(order []int) fs.FS {
			var f apkfs.FullFS
			base := ""
			if tmp != "" {
				nb++
				base = filepath.Join(tmp, fmt.Sprint(nb))
				must(os.Mkdir(base, 0o755))
				f = apkfs.DirFS(base)
			} else {
				f = apkfs.NewMemFS()
			}
			inos, nlink, first := map[string]int{}, map[int]int{}, map[int]string{}
			for _, i := range order {
				e := c.Tree[i]
				p := strings.Join(e.P, "/")
				if e.Ino != 0 && first[e.Ino] != "" {
					must(f.Link(first[e.Ino], p))
				} else {
					switch e.K {
					case "dir":
						must(f.Mkdir(p, goMode(e.Perm)))
					case "file":
						must(f.WriteFile(p, expand(e.Data, c.Blk), goMode(e.Perm)))
					case "link":
						must(f.Symlink(e.Tg, p))
					case "dev":
						must(f.Mknod(p, uint32(unix.S_IFCHR|e.Perm), int(unix.Mkdev(uint32(e.Maj), uint32(e.Min)))))
					}
					if e.K != "link" {
						must(f.Chmod(p, goMode(e.Perm)))
						must(f.Chown(p, e.UID, e.GID))
						for _, x := range e.X {
							must(f.SetXattr(p, x[0].(string), bytesOf(toInts(x[1]))))
						}
					}
					first[e.Ino] = p
				}
				if e.Ino != 0 {
					inos[p] = e.Ino
					nlink[e.Ino]++
				}
			}
			switch c.Src {
			case "os":
				return os.DirFS(base)
			case "mem", "dir":
				inos = nil
			}
			ff := &faultFS{FullFS: f, inos: inos, nlink: nlink}
			if c.Fault != "" && c.Fault != "write" && c.Fault != "cancel" {
				ff.fault, ff.file = c.Fault, "."
				if c.At >= 0 {
					ff.file = strings.Join(c.Tree[c.At].P, "/")
				}
			} else if inos == nil {
				return f
			}
			return ff
		}
		// who is who
		uf := apkfs.NewMemFS()
		must(uf.Mkdir("etc", 0o755))
		var ub, gb strings.Builder
		for _, u := range c.Opt.Users {
			fmt.Fprintf(&ub, "%v:x:%d:0:::/bin/sh\n", u[1], int(u[0].(float64)))
		}
		for _, g := range c.Opt.Groups {
			fmt.Fprintf(&gb, "%v:x:%d:\n", g[1], int(g[0].(float64)))
		}
		if len(c.Opt.Users) > 0 {
			must(uf.WriteFile("etc/passwd", []byte(ub.String()), 0o644))
		}
		if len(c.Opt.Groups) > 0 {
			must(uf.WriteFile("etc/group", []byte(gb.String()), 0o644))
		}
		write := func(src fs.FS, w io.Writer) error {
			opts := []tarball.Option{tarball.WithSourceDateEpoch(time.Unix(c.Opt.SDE, 0))}
			if c.Opt.OUID {
				opts = append(opts, tarball.WithOverrideUIDGID(c.Opt.UID, c.Opt.GID))
			}
			if c.Opt.Uname != "" {
				opts = append(opts, tarball.WithOverrideUname(c.Opt.Uname))
			}
			if c.Opt.Gname != "" {
				opts = append(opts, tarball.WithOverrideGname(c.Opt.Gname))
			}
			if len(c.Opt.Perms) > 0 {
				var hs []tar.Header
				for _, o := range c.Opt.Perms {
					hs = append(hs, tar.Header{Name: o.Name, Mode: o.Mode, Uid: o.UID, Gid: o.GID, Uname: o.Uname, Gname: o.Gname})
				}
				opts = append(opts, tarball.WithOverridePerms(hs))
			}
			m := func(v [][]int) map[int]int {
				r := map[int]int{}
				for _, p := range v {
					r[p[0]] = p[1]
				}
				return r
			}
			if len(c.Opt.RU) > 0 {
				opts = append(opts, tarball.WithRemapUIDs(m(c.Opt.RU)))
			}
			if len(c.Opt.RG) > 0 {
				opts = append(opts, tarball.WithRemapGIDs(m(c.Opt.RG)))
			}
			if c.Skip {
				opts = append(opts, tarball.WithSkipClose(true))
			}
			if c.Opt.Sums {
				opts = append(opts, tarball.WithUseChecksums(true))
			}
			tc, err := tarball.NewContext(opts...)
			must(err)
			ctx := context.Background()
			if c.Fault == "cancel" {
				var cf func()
				ctx, cf = context.WithCancel(ctx)
				cf()
			}
			if c.GZ {
				return tc.WriteTargz(ctx, w, src, uf)
			}
			return tc.WriteTar(ctx, w, src, uf)
		}
		order := make([]int, len(c.Tree))
		for i := range order {
			order[i] = i
		}
		src := build(order)
		var buf bytes.Buffer
		at := -1
		if c.Fault == "write" {
			at = c.At
		}
		err := write(src, &failWriter{&buf, at})
		res := map[string]any{"err": errStr(err), "same": true, "bytes": buf.Len()}
		out, tail, rerr := readTarOut(buf.Bytes(), c.GZ, c.Blk)
		res["out"], res["tail"], res["rerr"] = out, tail, errStr(rerr)
		if c.Fault == "" && err == nil {
			var b2, b3 bytes.Buffer
			res["same"] = write(src, &b2) == nil && bytes.Equal(buf.Bytes(), b2.Bytes())
			if c.Order != nil {
				if e3 := write(build(c.Order), &b3); e3 != nil || !bytes.Equal(buf.Bytes(), b3.Bytes()) {
					res["same"] = false
				}
			}
		}
		for i, e := range c.Tree {
			s := sha1.Sum(expand(e.Data, c.Blk))
			if e.K == "link" {
				s = sha1.Sum([]byte(e.Tg))
			}
			c.Tree[i].Sum = hex.EncodeToString(s[:])
			if c.Tree[i].X == nil {
				c.Tree[i].X = [][]any{}
			}
			if e.K == "link" {
				c.Tree[i].Perm = 0o777
			}
			if c.Src == "mem" || c.Src == "dir" { // these report no inodes
				c.Tree[i].Ino = 0
			}
		}
		res["tree"] = c.Tree
		return res
	}
}

func toInts(v any) []int {
	r := []int{}
	for _, x := range v.([]any) {
		r = append(r, int(x.(float64)))
	}
	return r
}
