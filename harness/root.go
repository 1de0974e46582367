package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io/fs"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"golang.org/x/sys/unix"
)

// rootFS makes its n-th operation fail.
type rootFS struct {
	apkfs.FullFS
	left  *atomic.Int64
	fired *atomic.Bool
}

var errRootIO = &fs.PathError{Op: "write", Path: "?", Err: syscall.EIO}

func (f rootFS) hit() bool {
	if f.left.Add(-1) == 0 {
		f.fired.Store(true)
		return true
	}
	return false
}
func (f rootFS) Mkdir(p string, m fs.FileMode) error {
	if f.hit() {
		return errRootIO
	}
	return f.FullFS.Mkdir(p, m)
}
func (f rootFS) MkdirAll(p string, m fs.FileMode) error {
	if f.hit() {
		return errRootIO
	}
	return f.FullFS.MkdirAll(p, m)
}
func (f rootFS) Mknod(p string, m uint32, d int) error {
	if f.hit() {
		return errRootIO
	}
	return f.FullFS.Mknod(p, m, d)
}
func (f rootFS) Stat(p string) (fs.FileInfo, error) {
	if f.hit() {
		return nil, errRootIO
	}
	return f.FullFS.Stat(p)
}
func (f rootFS) WriteFile(p string, b []byte, m fs.FileMode) error {
	if f.hit() {
		_ = f.FullFS.WriteFile(p, b[:len(b)/2], m)
		return errRootIO
	}
	return f.FullFS.WriteFile(p, b, m)
}
func (f rootFS) Open(p string) (fs.File, error) {
	if f.hit() {
		return nil, errRootIO
	}
	h, err := f.FullFS.Open(p)
	if err != nil {
		return nil, err
	}
	return rootRead{h, f}, nil
}
func (f rootFS) OpenFile(p string, flag int, m fs.FileMode) (apkfs.File, error) {
	if f.hit() {
		return nil, errRootIO
	}
	h, err := f.FullFS.OpenFile(p, flag, m)
	if err != nil {
		return nil, err
	}
	return &rootFile{h, f, p, -1}, nil
}
func (f rootFS) Create(p string) (apkfs.File, error) {
	if f.hit() {
		return nil, errRootIO
	}
	h, err := f.FullFS.Create(p)
	if err != nil {
		return nil, err
	}
	return &rootFile{h, f, p, -1}, nil
}
func (f rootFS) ReadFile(p string) ([]byte, error) {
	if f.hit() {
		return nil, errRootIO
	}
	return f.FullFS.ReadFile(p)
}

func (f rootFS) Remove(p string) error {
	if f.hit() {
		return errRootIO
	}
	return f.FullFS.Remove(p)
}
func (f rootFS) Symlink(o, n string) error {
	if f.hit() {
		return errRootIO
	}
	return f.FullFS.Symlink(o, n)
}
func (f rootFS) Link(o, n string) error {
	if f.hit() {
		return errRootIO
	}
	return f.FullFS.Link(o, n)
}
func (f rootFS) Readlink(n string) (string, error) {
	if f.hit() {
		return "", errRootIO
	}
	return f.FullFS.Readlink(n)
}
func (f rootFS) SetXattr(p, a string, b []byte) error {
	if f.hit() {
		return errRootIO
	}
	return f.FullFS.SetXattr(p, a, b)
}

type rootFile struct {
	apkfs.File
	f    rootFS
	path string
	last int // size of the last write
}

func (h *rootFile) Write(b []byte) (int, error) {
	h.last = len(b)
	if h.f.hit() {
		n, _ := h.File.Write(b[:len(b)/2])
		return n, errRootIO
	}
	return h.File.Write(b)
}
func (h *rootFile) Close() error {
	if h.f.hit() {
		_ = h.File.Close()
		// what was written last did not all get to the disk
		if b, err := h.f.FullFS.ReadFile(h.path); err == nil && h.last > 0 && h.last <= len(b) {
			_ = h.f.FullFS.WriteFile(h.path, b[:len(b)-(h.last+1)/2], 0o644)
		}
		return errRootIO
	}
	return h.File.Close()
}

type rootRead struct {
	fs.File
	f rootFS
}

func (h rootRead) Read(b []byte) (int, error) {
	if h.f.hit() {
		return 0, errRootIO
	}
	return h.File.Read(b)
}

type rootKey struct {
	U    string `json:"u"` // URL, or @D/name for a local file
	Name string `json:"name"`
	Body string `json:"body"`
	How  string `json:"how"` // ok, 404, 500, cut, refused; missing for local files
}

type rootCall struct {
	O     string    `json:"o"`
	Fault int       `json:"fault"`
	L     []string  `json:"l"`
	Vs    []string  `json:"vs"`
	Rel   string    `json:"rel"`    // releases.json
	RelBy string    `json:"relhow"` // ok, 404, cut, refused
	Keys  []rootKey `json:"keys"`
	Extra int       `json:"extra"` // so many of the keys are extra ones
}

type rootNode struct {
	P    string `json:"p"`
	K    string `json:"k"`
	Perm int    `json:"perm"`
	C    string `json:"c"`
	Dev  int    `json:"dev"`
}

func rootView(f apkfs.FullFS, bad *string) []rootNode {
	es, b := fsView(f)
	if b != "" && *bad == "" {
		*bad = b
	}
	r := []rootNode{}
	for _, e := range es {
		n := rootNode{P: e.P, K: e.K, Perm: e.Perm, Dev: e.Dev}
		if e.K == "link" {
			n.C = e.Tg
		}
		if e.K == "file" {
			d := bytesOf(e.Data)
			n.C = string(d)
			if bytes.Equal(d, make([]byte, 1024)) {
				n.C = "EMPTYTAR"
			}
		}
		if n.K != "dev" {
			n.Dev = 0
		}
		r = append(r, n)
	}
	return r
}

func init() {
	caseCmds["root"] = func(raw json.RawMessage) any {
		var c struct {
			Dir    bool       `json:"dir"`
			Arch   string     `json:"arch"`
			Ignore bool       `json:"ignore"`
			Cache  bool       `json:"cache"`
			Pre    []rootNode `json:"pre"`
			Calls  []rootCall `json:"calls"`
		}
		must(json.Unmarshal(raw, &c))
		tmp, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "root-")
		must(err)
		defer func() {
			_ = filepath.WalkDir(tmp, func(p string, d fs.DirEntry, err error) error {
				if d != nil && d.IsDir() {
					os.Chmod(p, 0o700)
				}
				return nil
			})
			os.RemoveAll(tmp)
		}()
		var f apkfs.FullFS
		if c.Dir {
			must(os.Mkdir(filepath.Join(tmp, "base"), 0o755))
			f = apkfs.DirFS(filepath.Join(tmp, "base"))
		} else {
			f = apkfs.NewMemFS()
		}
		for _, n := range c.Pre {
			m := fs.FileMode(n.Perm & 0o777)
			if n.Perm&0o1000 != 0 {
				m |= fs.ModeSticky
			}
			switch n.K {
			case "dir":
				must(f.Mkdir(n.P, m))
			case "link":
				must(f.Symlink(n.C, n.P))
			case "dev":
				must(f.Mknod(n.P, unix.S_IFCHR|uint32(m.Perm()), n.Dev))
			default:
				must(f.WriteFile(n.P, []byte(n.C), m))
			}
		}
		bad := ""
		views := [][]rootNode{rootView(f, &bad)}
		var left atomic.Int64
		var fired atomic.Bool
		sim := &simNet{}
		var cur rootCall
		sim.handle = func(_ *simNet, r simReq, q *http.Request) simResp {
			answer := func(how, body string) simResp {
				s := okBody([]byte(body))
				switch how {
				case "404":
					s.status = 404
				case "500":
					s.status = 500
				case "300", "304", "204", "206":
					s.status, _ = strconv.Atoi(how)
				case "cut":
					s.cut = len(body) / 2
				case "refused":
					return simResp{err: errRefused}
				}
				s.header = map[string]string{"Etag": `"e` + how + `"`}
				return s
			}
			if r.Host == "alpinelinux.org" && strings.HasSuffix(r.Path, "/releases.json") {
				return answer(cur.RelBy, cur.Rel)
			}
			for _, k := range cur.Keys {
				if q.URL.String() == k.U {
					return answer(k.How, k.Body)
				}
			}
			return simResp{status: 404, body: []byte("no"), cut: -1}
		}
		opts := []apk.Option{apk.WithFS(rootFS{f, &left, &fired}), apk.WithArch(c.Arch), apk.WithIgnoreMknodErrors(c.Ignore)}
		if c.Cache {
			must(os.Mkdir(filepath.Join(tmp, "cache"), 0o755))
			opts = append(opts, apk.WithCache(filepath.Join(tmp, "cache"), false))
		}
		a, err := apk.New(opts...)
		must(err)
		a.SetClient(sim.client())
		res := []map[string]any{}
		// a list with something behind its end
		spare := func(l []string) ([]string, []string) {
			full := append(append([]string{}, l...), "zz-behind", "aa-behind")
			return full[:len(l)], full
		}
		for _, call := range c.Calls {
			cur = call
			left.Store(int64(call.Fault))
			fired.Store(false)
			r := map[string]any{"got": []string{}, "list": []rootNode{}, "lines": [][]int{}}
			args := true
			checkArgs := func(fulls ...[]string) func() {
				old := [][]string{}
				for _, x := range fulls {
					old = append(old, append([]string{}, x...))
				}
				return func() { args = reflect.DeepEqual(old, fulls) }
			}
			var err error
			switch call.O {
			case "initdb":
				l, full := spare(call.Vs)
				chk := checkArgs(full)
				err = a.InitDB(quietCtx(), l...)
				chk()
			case "setworld", "setrepos":
				l, full := spare(call.L)
				chk := checkArgs(full)
				if call.O == "setworld" {
					err = a.SetWorld(quietCtx(), l)
				} else {
					err = a.SetRepositories(quietCtx(), l)
				}
				chk()
				p := map[string]string{"setworld": "etc/apk/world", "setrepos": "etc/apk/repositories"}[call.O]
				left.Store(0)
				if b, e := f.ReadFile(p); e == nil {
					ls := [][]int{}
					for _, x := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
						if x != "" {
							ls = append(ls, ints([]byte(x)))
						}
					}
					r["lines"] = ls
				}
			case "getworld":
				var l []string
				if l, err = a.GetWorld(); l != nil {
					r["got"] = l
				}
			case "getrepos":
				var l []string
				if l, err = a.GetRepositories(); l != nil {
					r["got"] = l
				}
			case "keyring":
				us := []string{}
				for _, k := range call.Keys {
					u := k.U
					if strings.HasPrefix(u, "@D") {
						u = filepath.Join(tmp, u[2:])
						if k.How == "ok" {
							must(os.WriteFile(u, []byte(k.Body), 0o644))
						} else {
							os.Remove(u)
						}
					}
					us = append(us, u)
				}
				n := len(us) - call.Extra
				l1, f1 := spare(us[:n])
				l2, f2 := spare(us[n:])
				chk := checkArgs(f1, f2)
				err = a.InitKeyring(quietCtx(), l1, l2)
				chk()
			case "list":
				hs := []rootNode{}
				for _, h := range a.ListInitFiles() {
					k := "?"
					switch h.Typeflag {
					case '5':
						k = "dir"
					case '0', 0:
						k = "file"
					case '3':
						k = "dev"
					}
					hs = append(hs, rootNode{P: strings.TrimPrefix(h.Name, "/"), K: k, Perm: int(h.Mode)})
				}
				r["list"] = hs
			default:
				panic(errors.New("unknown call " + call.O))
			}
			left.Store(0)
			r["ok"], r["fired"], r["args"], r["err"] = err == nil, fired.Load(), args, errStr(err)
			res = append(res, r)
			views = append(views, rootView(f, &bad))
		}
		return map[string]any{"views": views, "calls": res, "bad": bad}
	}
}
