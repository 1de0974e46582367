package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"github.com/chainguard-dev/go-apk/pkg/tarball"
	"golang.org/x/sys/unix"
)

// The world: @W/base is the root, @W/cache the cache; everything else is outside.
// Files outside have 31337 bytes that say SECRET, directories outside hold a "zzmark".
type conOp struct {
	O  string    `json:"o"`
	P  string    `json:"p"`
	Q  string    `json:"q"`
	C  string    `json:"c"`
	N  int       `json:"n"`
	Pk []instPkg `json:"pk"`
	// network operations
	Urls []string `json:"urls"`
	Tag  []string `json:"tag"` // entity tags, for HEAD and GET
	Off  bool     `json:"off"`
	Arch string   `json:"arch"`
}

type conPre struct {
	P string `json:"p"`
	K string `json:"k"`
	C string `json:"c"`
}

var conSeq atomic.Int64

const conSize = 31337

func conSecret() []byte { return bytes.Repeat([]byte("SECRET!"), conSize/7+1)[:conSize] }

func init() {
	caseCmds["contain"] = func(raw json.RawMessage) any {
		var c struct {
			Fold  bool     `json:"fold"`
			Cache bool     `json:"cache"` // installs and network operations use the cache
			Pre   []conPre `json:"pre"`
			Late  bool     `json:"late"` // what is there beforehand is made through the filesystem
			Ops   []conOp  `json:"ops"`
		}
		must(json.Unmarshal(raw, &c))
		id := conSeq.Add(1)
		tmp, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "con-")
		must(err)
		w := filepath.Join(tmp, "W")
		must(os.Mkdir(w, 0o755))
		defer func() {
			_ = filepath.WalkDir(tmp, func(p string, d fs.DirEntry, err error) error {
				if d != nil && d.IsDir() {
					os.Chmod(p, 0o700)
				}
				return nil
			})
			os.RemoveAll(tmp)
		}()
		base, cache := filepath.Join(w, "base"), filepath.Join(w, "cache")
		sub := func(s string) string { return strings.ReplaceAll(s, "@W", w) }
		for _, d := range []string{"base", "cache", "out", "out/a", "out/keys", "out/empty", "base-evil", "cache-evil"} {
			must(os.Mkdir(filepath.Join(w, d), 0o755))
		}
		for _, f := range []string{"f", "out/f", "out/a/f", "out/zzmark", "out/a/zzmark", "out/keys/zzmark", "base-evil/f", "base-evil/zzmark", "cache-evil/zzmark", "out/triggers", "out/zzmark.rsa.pub"} {
			must(os.WriteFile(filepath.Join(w, f), conSecret(), 0o644))
		}
		must(os.Symlink("f", filepath.Join(w, "out", "zzlink")))
		snap := func() map[string]string {
			m := snapshotDir(tmp, "")
			for k := range m {
				if k == base {
					m[k] = "the root"
				}
				if k == cache || strings.HasPrefix(k, base+"/") || strings.HasPrefix(k, cache+"/") {
					delete(m, k)
				}
			}
			return m
		}
		if !c.Late {
			for _, p := range c.Pre {
				n := filepath.Join(base, sub(p.P))
				switch p.K {
				case "dir":
					must(os.MkdirAll(n, 0o755))
				case "link":
					_ = os.Symlink(sub(p.C), n)
				default:
					must(os.WriteFile(n, []byte(p.C), 0o644))
				}
			}
		}
		opts := []apkfs.DirFSOption{}
		if c.Fold {
			opts = append(opts, apkfs.DirFSWithCaseSensitive(false))
		}
		before := snap()
		f := apkfs.DirFS(base, opts...)
		if f == nil {
			return map[string]any{"nofs": true}
		}
		if c.Late {
			for _, p := range c.Pre {
				switch p.K {
				case "dir":
					_ = f.MkdirAll(sub(p.P), 0o755)
				case "link":
					_ = f.Symlink(sub(p.C), sub(p.P))
				default:
					_ = f.WriteFile(sub(p.P), []byte(p.C), 0o644)
				}
			}
		}
		seen := []string{}
		see := func(op conOp, what string) {
			if len(seen) < 5 {
				seen = append(seen, fmt.Sprintf("%s %q %q: %s", op.O, op.P, op.Q, what))
			}
		}
		content := func(op conOp, b []byte) {
			if bytes.Contains(b, []byte("SECRET")) {
				see(op, "contents of a file outside")
			}
		}
		info := func(op conOp, fi fs.FileInfo) {
			if fi != nil && fi.Size() == conSize {
				see(op, "size of a file outside")
			}
		}
		found := "none"
		sim := &simNet{}
		var cur conOp
		sim.handle = func(_ *simNet, r simReq, _ *http.Request) simResp {
			if len(cur.Pk) > 0 {
				var i int
				if _, err := fmt.Sscanf(filepath.Base(r.Path), "p%d.apk", &i); err == nil && i < len(cur.Pk) {
					return okBody(cur.Pk[i].build().all())
				}
			}
			s := simResp{status: 200, body: []byte("body"), cut: -1, header: map[string]string{}}
			if strings.HasSuffix(r.Path, "APKINDEX.tar.gz") {
				s.body = genIndex(1, "d")
			}
			n := 0
			if r.Method == http.MethodGet && len(cur.Tag) > 1 {
				n = 1
			}
			if n < len(cur.Tag) {
				s.header["Etag"] = cur.Tag[n]
			}
			return s
		}
		newAPK := func(op conOp) *apk.APK {
			arch := op.Arch
			if arch == "" {
				arch = "x86_64"
			}
			o := []apk.Option{apk.WithFS(f), apk.WithArch(arch), apk.WithIgnoreMknodErrors(true)}
			if c.Cache {
				o = append(o, apk.WithCache(cache, op.Off))
			}
			a, err := apk.New(o...)
			must(err)
			a.SetClient(sim.client())
			return a
		}
		oks := 0
		for _, op := range c.Ops {
			cur = op
			p, q := sub(op.P), sub(op.Q)
			var err error
			switch op.O {
			case "look":
				found = "none"
				if fi, e := f.Stat(p); e == nil {
					info(op, fi)
					found = "file"
					if fi.IsDir() {
						found = "dir"
					}
				} else if !errors.Is(e, fs.ErrNotExist) && !strings.Contains(e.Error(), "too many") && !strings.Contains(e.Error(), "not a directory") {
					err = e
				}
				fallthrough
			case "readall":
				if fi, e := f.Lstat(p); e == nil {
					info(op, fi)
				}
				if fi, e := f.Stat(p); e == nil {
					info(op, fi)
				}
				if b, e := f.ReadFile(p); e == nil {
					content(op, b)
				}
				if h, e := f.Open(p); e == nil {
					if fi, e := h.Stat(); e == nil {
						info(op, fi)
					}
					b, _ := io.ReadAll(h)
					content(op, b)
					if d, ok := h.(fs.ReadDirFile); ok {
						des, _ := d.ReadDir(-1)
						for _, de := range des {
							if strings.HasPrefix(de.Name(), "zzmark") {
								see(op, "a directory outside")
							}
						}
					}
					h.Close()
				}
				if h, e := f.OpenReaderAt(p); e == nil {
					b := make([]byte, 100)
					n, _ := h.ReadAt(b, 3)
					content(op, b[:n])
					h.Close()
				}
				if h, e := f.OpenFile(p, os.O_RDONLY, 0); e == nil {
					b, _ := io.ReadAll(h)
					content(op, b)
					h.Close()
				}
				if des, e := f.ReadDir(p); e == nil {
					for _, de := range des {
						if strings.HasPrefix(de.Name(), "zzmark") {
							see(op, "a directory outside")
						}
						if fi, e := de.Info(); e == nil {
							info(op, fi)
						}
					}
				}
				if t, e := f.Readlink(p); e == nil && t == "f" && p != "" {
					if d := filepath.Base(p); d == "zzlink" {
						see(op, "a link outside")
					}
				}
				_, _ = f.Readnod(p)
				_, _ = f.ListXattrs(p)
				_, _ = f.GetXattr(p, "user.x")
			case "write":
				err = f.WriteFile(p, []byte(op.C), fs.FileMode(op.N))
			case "create":
				h, e := f.Create(p)
				if err = e; e == nil {
					_, _ = h.Write([]byte(op.C))
					h.Close()
				}
			case "open":
				h, e := f.OpenFile(p, op.N, 0o640)
				if err = e; e == nil {
					b, _ := io.ReadAll(h)
					content(op, b)
					_, _ = h.Write([]byte(op.C))
					h.Close()
				}
			case "mkdir":
				err = f.Mkdir(p, fs.FileMode(op.N))
			case "mkdirall":
				err = f.MkdirAll(p, fs.FileMode(op.N))
			case "remove":
				err = f.Remove(p)
			case "symlink":
				err = f.Symlink(q, p)
			case "link":
				err = f.Link(q, p)
			case "chmod":
				err = f.Chmod(p, fs.FileMode(op.N))
			case "chown":
				err = f.Chown(p, os.Geteuid(), os.Getegid())
			case "mknod":
				err = f.Mknod(p, unix.S_IFCHR|0o600, 259)
			case "setx":
				err = f.SetXattr(p, "user.x", []byte("v"))
			case "rmx":
				err = f.RemoveXattr(p, "user.x")
			case "reopen":
				if g := apkfs.DirFS(base, opts...); g != nil { // unreadable after a chmod
					f = g
				}
			case "tar":
				ctx, e := tarball.NewContext()
				must(e)
				var buf bytes.Buffer
				if err = ctx.WriteTar(quietCtx(), &buf, f, f); err == nil {
					content(op, buf.Bytes())
					if bytes.Contains(buf.Bytes(), []byte("zzmark")) {
						see(op, "a directory outside")
					}
				}
			case "initdb":
				err = newAPK(op).InitDB(quietCtx())
			case "world":
				a := newAPK(op)
				if err = a.SetWorld(quietCtx(), []string{"x", "SEC" + "OND"}); err == nil {
					_, err = a.GetWorld()
				}
			case "repos":
				err = newAPK(op).SetRepositories(quietCtx(), []string{"https://h.example/r"})
			case "getinstalled":
				_, err = newAPK(op).GetInstalled()
			case "install":
				a := newAPK(op)
				pkgs := []apk.InstallablePackage{}
				for i, pk := range op.Pk {
					b := pk.build()
					u := fmt.Sprintf("https://con%d.example/r/x86_64/p%d.apk", id, i)
					if i < len(op.Urls) {
						u = strings.ReplaceAll(op.Urls[i], "@I", fmt.Sprint(id))
					}
					sum := b.sum
					if pk.Bad == "nosum" {
						sum = ""
					}
					pkgs = append(pkgs, urlPkg{u, pk.Name, sum})
				}
				for range 2 { // the second may find it in the cache
					err = a.InstallPackages(quietCtx(), nil, pkgs)
				}
			case "index":
				a := newAPK(op)
				for _, u := range op.Urls {
					if e := a.SetRepositories(quietCtx(), []string{strings.ReplaceAll(u, "@I", fmt.Sprint(id))}); e != nil {
						err = e
						continue
					}
					_, e := a.GetRepositoryIndexes(quietCtx(), true)
					if e != nil {
						err = e
					}
				}
			case "keys":
				a := newAPK(op)
				for _, u := range op.Urls {
					if e := a.InitKeyring(quietCtx(), []string{strings.ReplaceAll(u, "@I", fmt.Sprint(id))}, nil); e != nil {
						err = e
					}
				}
			default:
				panic("unknown op " + op.O)
			}
			if err == nil {
				oks++
			}
		}
		// what ended up inside
		if es, bad := diskView(base); bad == "" {
			for _, e := range es {
				if e.K == "file" {
					content(conOp{O: "in the root", P: e.P}, bytesOf(e.Data))
				}
			}
		}
		changed := snapshotDiff(before, snap())
		for i := range changed {
			changed[i] = strings.ReplaceAll(changed[i], tmp, "@T")
		}
		return map[string]any{"changed": changed, "seen": seen, "found": found, "oks": oks}
	}
}
