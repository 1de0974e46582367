package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/expandapk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

type arcMember struct {
	P    []string `json:"p"`
	Raw  string   `json:"raw"` // how the name is written, if not plainly
	K    string   `json:"k"`
	Perm int      `json:"perm"`
	Data []int    `json:"data"`
	Abs  bool     `json:"abs"`
	Tg   []string `json:"tg"`
}

type arcItem struct {
	N     string `json:"n"`
	Kind  string `json:"kind"`
	TKind string `json:"tkind"`
	Perm  int    `json:"perm"`
	Size  int64  `json:"size"`
	Ord   int    `json:"ord"`
}

type arcAsk struct {
	Op   string    `json:"op"`
	P    []string  `json:"p"`
	Err  string    `json:"err"`
	Name string    `json:"name"`
	Kind string    `json:"kind"`
	Perm int       `json:"perm"`
	Size int64     `json:"size"`
	Data []int     `json:"data"`
	TAbs bool      `json:"tabs"`
	Tg   []string  `json:"tg"`
	List []arcItem `json:"list"`
}

func arcTar(ms []arcMember, blk int) []byte {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for _, m := range ms {
		h := &tar.Header{Name: strings.Join(m.P, "/"), Mode: int64(m.Perm), ModTime: time.Unix(1, 0)}
		if len(m.P) == 0 {
			h.Name = "."
		}
		tg := strings.Join(m.Tg, "/")
		if m.Abs {
			tg = "/" + tg
		}
		switch m.K {
		case "file":
			h.Typeflag, h.Size = tar.TypeReg, int64(len(m.Data)*blk)
		case "dir":
			h.Typeflag = tar.TypeDir
			h.Name += "/"
		case "link":
			h.Typeflag, h.Linkname = tar.TypeSymlink, tg
		case "hard":
			h.Typeflag, h.Linkname = tar.TypeLink, tg
		case "dev":
			h.Typeflag, h.Devmajor, h.Devminor = tar.TypeChar, 1, 3
		}
		if m.Raw != "" {
			h.Name = m.Raw
		}
		must(w.WriteHeader(h))
		if m.K == "file" {
			_, err := w.Write(expand(m.Data, blk))
			must(err)
		}
	}
	must(w.Close())
	return buf.Bytes()
}

type arcFS interface {
	fs.FS
	fs.StatFS
	fs.ReadDirFS
}

func arcErr(err error) string {
	if errors.Is(err, fs.ErrNotExist) {
		return "noent"
	}
	return errStr(err)
}

func arcName(p []string) string {
	if len(p) == 0 {
		return "."
	}
	return strings.Join(p, "/")
}

func arcDo(f arcFS, q arcAsk, blk int) arcAsk {
	q.Data, q.Tg, q.List = []int{}, []string{}, []arcItem{}
	name := arcName(q.P)
	info := func(fi fs.FileInfo) {
		q.Name, q.Kind, q.Perm, q.Size = fi.Name(), fsKind(fi.Mode()), unixPerm(fi.Mode()), fi.Size()/int64(blk)
		if fi.Size()%int64(blk) != 0 {
			q.Size = -fi.Size()
		}
		if fi.IsDir() != (q.Kind == "dir") {
			q.Kind = "?isdir"
		}
	}
	switch q.Op {
	case "stat":
		fi, err := f.Stat(name)
		if q.Err = arcErr(err); err == nil {
			info(fi)
		}
	case "readlink":
		t, err := f.(interface{ Readlink(string) (string, error) }).Readlink(name)
		if q.Err = arcErr(err); err == nil {
			q.TAbs = strings.HasPrefix(t, "/")
			q.Tg = strings.Split(strings.TrimPrefix(t, "/"), "/")
		}
	case "readdir":
		des, err := f.ReadDir(name)
		if q.Err = arcErr(err); err == nil {
			var names []string
			for _, d := range des {
				names = append(names, d.Name())
			}
			sort.Strings(names)
			for _, d := range des {
				fi, err := d.Info()
				must(err)
				it := arcItem{N: d.Name(), Kind: fsKind(fi.Mode()), TKind: fsKind(d.Type()), Perm: unixPerm(fi.Mode()), Size: fi.Size() / int64(blk), Ord: sort.SearchStrings(names, d.Name())}
				if fi.Name() != d.Name() || d.IsDir() != (it.Kind == "dir") || d.Type()&^fs.ModeType != 0 || fi.Size()%int64(blk) != 0 {
					it.Kind = "?entry"
				}
				q.List = append(q.List, it)
			}
			if len(des) > 1 { // what a caller does with the result is its own business
				des[0] = des[1]
			}
		}
	case "open":
		h, err := f.Open(name)
		if q.Err = arcErr(err); err == nil {
			defer h.Close()
			fi, err := h.Stat()
			must(err)
			info(fi)
			if fi.Mode().IsDir() {
				return q
			}
			b, err := io.ReadAll(h)
			if err != nil {
				q.Err = "read: " + err.Error()
				return q
			}
			q.Data = collapse(b, blk)
			if ra, ok := h.(io.ReaderAt); ok {
				for _, n := range []int{0, 1, len(b) / 2, len(b)} {
					c := make([]byte, len(b)+1)
					k, err := ra.ReadAt(c, int64(n))
					if n > len(b) {
						continue
					}
					if err != io.EOF || !bytes.Equal(c[:k], b[n:]) {
						q.Data = []int{-2, n, k}
					}
				}
			}
			if sk, ok := h.(io.Seeker); ok {
				if _, err := sk.Seek(int64(len(b)/2), io.SeekStart); err != nil {
					q.Data = []int{-3}
				}
				if c, err := io.ReadAll(h); err != nil || !bytes.Equal(c, b[len(b)/2:]) {
					q.Data = []int{-4}
				}
				if n, err := sk.Seek(0, io.SeekEnd); err != nil || int(n) != len(b) {
					q.Data = []int{-5}
				}
			}
		}
	}
	return q
}

func init() {
	caseCmds["arc"] = func(raw json.RawMessage) any {
		var c struct {
			MS     []arcMember `json:"ms"`
			Where  string      `json:"where"` // data or control
			Signed bool        `json:"signed"`
			Blk    int         `json:"blk"`
			QS     []arcAsk    `json:"qs"`
		}
		must(json.Unmarshal(raw, &c))
		mine := gz(arcTar(c.MS, c.Blk))
		ctl, data := gz(rawTar(false, tent{name: ".PKGINFO", body: []byte("pkgname = x\n")})), gz(rawTar(true, tent{name: "other", body: []byte("other")}))
		if c.Where == "control" {
			ctl = mine
		} else {
			data = mine
		}
		apkb := append(append([]byte{}, ctl...), data...)
		if c.Signed {
			apkb = append(gz(rawTar(false, tent{name: ".SIGN.RSA.k", body: []byte("sig")})), apkb...)
		}
		dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("arc%d", fsSeq.Add(1)))
		must(os.Mkdir(dir, 0o755))
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "x.apk")
		must(os.WriteFile(file, apkb, 0o644))
		recs := []any{}
		see := func(view string, f arcFS, err error) {
			r := map[string]any{"view": view, "err": errStr(err), "qs": []arcAsk{}, "walk": [][]string{}, "walkerr": ""}
			recs = append(recs, r)
			if err != nil {
				return
			}
			ask := func(q arcAsk) bool { return q.Op != "readlink" || view == "tarfs" }
			var first []arcAsk
			for _, q := range c.QS {
				if ask(q) {
					first = append(first, arcDo(f, q, c.Blk))
				}
			}
			again := make([]arcAsk, len(first))
			var wg sync.WaitGroup
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := g; i < len(first); i += 3 {
						func() {
							defer func() {
								if x := recover(); x != nil {
									again[i] = first[i]
									again[i].Err = fmt.Sprint("panic: ", x)
								}
							}()
							again[i] = arcDo(f, arcAsk{Op: first[i].Op, P: first[i].P}, c.Blk)
						}()
					}
				}(g)
			}
			wg.Wait()
			for i := range first {
				if js(first[i]) != js(again[i]) {
					first = append(first, again[i])
				}
			}
			r["qs"] = first
			walk := [][]string{}
			n := 0
			err = fs.WalkDir(f, ".", func(p string, d fs.DirEntry, err error) error {
				if n++; n > 10000 {
					return errors.New("endless walk")
				}
				if p == "." {
					walk = append(walk, []string{})
				} else {
					walk = append(walk, strings.Split(p, "/"))
				}
				return err
			})
			r["walk"], r["walkerr"] = walk, errStr(err)
		}
		typ := map[string]apkfs.APKFSType{"data": apkfs.APKFSPackage, "control": apkfs.APKFSControl}[c.Where]
		exp, err := expandapk.ExpandApk(quietCtx(), bytes.NewReader(apkb), dir)
		if err != nil {
			see("tarfs", nil, err)
		} else {
			defer exp.Close()
			if c.Where == "control" {
				see("tarfs", exp.ControlFS, nil)
			} else {
				see("tarfs", exp.TarFS, nil)
			}
		}
		af, err := apkfs.NewAPKFS(quietCtx(), file, typ)
		if err != nil {
			see("apkfs", nil, err)
		} else {
			defer af.Close()
			see("apkfs", af, nil)
		}
		return map[string]any{"recs": recs}
	}
}
