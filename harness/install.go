package main

import (
	"archive/tar"
	"bytes"
	"context"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

// instEnt is an entry of the data section of a package.
type instEnt struct {
	P    []string `json:"p"`
	K    string   `json:"k"` // dir, reg, link, hard, other
	C    string   `json:"c"` // contents, or the target of a link
	Perm int      `json:"perm"`
	Tg   []string `json:"tg"`
	Raw  string   `json:"raw,omitempty"`
	X    string   `json:"x"` // its extended attributes, the same in each of instXattrs
}

var instXattrs = []string{"user.v", "security.capability"}

// instX is the value of all extended attributes of something, or ?half.
func instX(get func(k string) ([]byte, error)) string {
	var s string
	for i, k := range instXattrs {
		b, err := get(k)
		if err != nil && !errors.Is(err, os.ErrNotExist) {
			return "?" + err.Error()
		}
		if i > 0 && s != string(b) {
			return "?half"
		}
		s = string(b)
	}
	return s
}

type instScript struct {
	N string `json:"n"`
	C string `json:"c"`
	T int64  `json:"t"`
}

type instPkg struct {
	Name    string       `json:"name"`
	Ver     string       `json:"ver"`
	Org     string       `json:"org"`
	Repl    []string     `json:"repl"`
	Es      []instEnt    `json:"es"`
	Sc      []instScript `json:"sc"`
	Tr      []string     `json:"tr"`
	Extra   []string     `json:"extra"` // more lines of .PKGINFO
	Info    string       `json:"info"`  // .PKGINFO as it is; @DH is the data hash
	Signed  bool         `json:"signed"`
	Nosum   bool         `json:"nosum"` // no checksums in the data section
	Fmt     string       `json:"fmt"`
	Cut     bool         `json:"cut"` // signature and control sections without end-of-archive blocks
	Infopos int          `json:"infopos"`
	Bad     string       `json:"bad"`
	Local   bool         `json:"local"`
	Nohash  bool         `json:"nohash"` // no datahash
}

// cont expands "ab*3" to "ababab".
func cont(s string) []byte {
	if i := strings.LastIndexByte(s, '*'); i >= 0 {
		n, err := strconv.Atoi(s[i+1:])
		must(err)
		return bytes.Repeat([]byte(s[:i]), n)
	}
	return []byte(s)
}

type builtApk struct {
	sig, ctl, dat []byte // gzip streams
	tar           []byte // the data section, uncompressed
	info          string
	sum           string // Q1...
}

func (b builtApk) all() []byte { return append(append(append([]byte{}, b.sig...), b.ctl...), b.dat...) }

func tarFormat(s string) tar.Format {
	switch s {
	case "ustar":
		return tar.FormatUSTAR
	case "gnu":
		return tar.FormatGNU
	case "pax":
		return tar.FormatPAX
	}
	return tar.FormatUnknown
}

func (p instPkg) dataTar() []byte {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for _, e := range p.Es {
		h := &tar.Header{Name: strings.Join(e.P, "/"), Mode: int64(e.Perm), ModTime: time.Unix(1600000000, 0)}
		if e.Raw != "" {
			h.Name = e.Raw
		}
		var body []byte
		if e.X != "" {
			h.Format = tar.FormatPAX
			h.PAXRecords = map[string]string{}
			for _, k := range instXattrs {
				h.PAXRecords["SCHILY.xattr."+k] = e.X
			}
		}
		switch e.K {
		case "dir":
			h.Typeflag = tar.TypeDir
			if !strings.HasSuffix(h.Name, "/") && e.Raw == "" {
				h.Name += "/"
			}
		case "reg":
			body = cont(e.C)
			h.Typeflag, h.Size = tar.TypeReg, int64(len(body))
			if !p.Nosum {
				s := sha1.Sum(body)
				if p.Bad == "badsum" {
					s[3] ^= 4
				}
				h.Format = tar.FormatPAX
				if h.PAXRecords == nil {
					h.PAXRecords = map[string]string{}
				}
				h.PAXRecords["APK-TOOLS.checksum.SHA1"] = hex.EncodeToString(s[:])
			}
		case "link":
			h.Typeflag, h.Linkname = tar.TypeSymlink, e.C
		case "hard":
			h.Typeflag, h.Linkname = tar.TypeLink, strings.Join(e.Tg, "/")
		default:
			h.Typeflag = tar.TypeFifo
		}
		must(w.WriteHeader(h))
		_, err := w.Write(body)
		must(err)
	}
	must(w.Close())
	return buf.Bytes()
}

func (p instPkg) build() builtApk {
	b := builtApk{tar: p.dataTar()}
	b.dat = gz(b.tar)
	dh := sha256.Sum256(b.dat)
	if p.Bad == "datahash" {
		dh[5] ^= 1
	}
	lines := []string{"# Generated by a test", "pkgname = " + p.Name, "pkgver = " + p.Ver, "arch = x86_64", "size = 77", "pkgdesc = a package", "builddate = 1600000000"}
	if p.Org != "" {
		lines = append(lines, "origin = "+p.Org)
	}
	for _, r := range p.Repl {
		lines = append(lines, "replaces = "+r)
	}
	for _, t := range p.Tr {
		lines = append(lines, "triggers = "+t)
	}
	lines = append(lines, p.Extra...)
	if !p.Nohash {
		lines = append(lines, "datahash = "+hex.EncodeToString(dh[:]))
	}
	b.info = strings.Join(lines, "\n") + "\n"
	if p.Info != "" {
		b.info = strings.ReplaceAll(p.Info, "@DH", hex.EncodeToString(dh[:]))
	}
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	put := func(n string, body []byte, t int64) {
		must(w.WriteHeader(&tar.Header{Name: n, Mode: 0o755, Size: int64(len(body)), Typeflag: tar.TypeReg, Format: tarFormat(p.Fmt), ModTime: time.Unix(t, 0)}))
		_, err := w.Write(body)
		must(err)
	}
	for i := 0; i <= len(p.Sc); i++ {
		if (i == p.Infopos || (p.Infopos > len(p.Sc) && i == len(p.Sc))) && p.Bad != "noinfo" {
			put(".PKGINFO", []byte(b.info), 1600000000)
		}
		if i < len(p.Sc) {
			put(p.Sc[i].N, cont(p.Sc[i].C), p.Sc[i].T)
		}
	}
	if p.Cut {
		must(w.Flush())
	} else {
		must(w.Close())
	}
	b.ctl = gz(buf.Bytes())
	cs := sha1.Sum(b.ctl)
	b.sum = "Q1" + base64.StdEncoding.EncodeToString(cs[:])
	if p.Signed {
		b.sig = gz(rawTar(!p.Cut, tent{name: ".SIGN.RSA.test.rsa.pub", body: bytes.Repeat([]byte{7}, 256)}))
	}
	return b
}

// spoil is what the origin serves for a package that is not all right.
func (b builtApk) spoil(how string) []byte {
	all := b.all()
	switch how {
	case "garbage":
		return []byte("<html>not a package</html>")
	case "flip":
		all[len(all)-6] ^= 0x10 // in the checksum of the last gzip stream
	case "trunc":
		return all[:len(all)-len(b.dat)/2]
	case "nodata":
		return all[:len(all)-len(b.dat)]
	case "empty":
		return nil
	}
	return all
}

// lazyFS takes the headers of packages.
type lazyFS struct {
	apkfs.FullFS
	root map[string]fsEntry
	n    int
	bad  string
}

func (l *lazyFS) WriteHeader(h tar.Header, tfs fs.FS, pkg *apk.Package) (bool, error) {
	l.n++
	p := strings.Join(pathComps(h.Name), "/")
	e := fsEntry{P: p, Perm: unixPerm(h.FileInfo().Mode())}
	e.X = [][]any{{instX(func(k string) ([]byte, error) {
		if v, ok := h.PAXRecords["SCHILY.xattr."+k]; ok {
			return []byte(v), nil
		}
		return nil, os.ErrNotExist
	})}}
	switch h.Typeflag {
	case tar.TypeDir:
		e.K = "dir"
	case tar.TypeReg:
		e.K = "file"
		b, err := fs.ReadFile(tfs, p)
		if err != nil {
			l.bad = "reading " + p + ": " + err.Error()
		}
		e.Data = ints(b)
	case tar.TypeSymlink:
		e.K, e.Tg = "link", h.Linkname
	default:
		return false, fmt.Errorf("unsupported header %s", h.Name)
	}
	l.root[p] = e
	return true, nil
}

type instFile struct {
	P []string `json:"p"`
	D bool     `json:"d"`
	C string   `json:"c"`
}
type instIdb struct {
	Name  string     `json:"name"`
	Ver   string     `json:"ver"`
	Org   string     `json:"org"`
	Sum   string     `json:"sum"`
	Files []instFile `json:"files"`
}
type instOut struct {
	Err   bool         `json:"err"`
	Fired bool         `json:"fired"` // the filesystem failed
	Hang  bool         `json:"hang"`
	Msg   string       `json:"msg"`
	Named [][]string   `json:"named"`
	Root  []instEnt    `json:"root"`
	Idb   []instIdb    `json:"idb"`
	Sc    []instScript `json:"sc"`
	Tr    []string     `json:"tr"`
	Wh    int          `json:"wh"`
	Done  []int        `json:"done"` // order in which fetches were released
	Bad   string       `json:"bad"`  // the results could not be read
}

var instSeq atomic.Int64

type instKnown struct {
	bytes map[string]string // contents -> as written in the case
	sums  map[string]string // Q1 checksum -> contents
}

func (k *instKnown) of(b []byte) string {
	if s, ok := k.bytes[string(b)]; ok {
		return s
	}
	s := sha1.Sum(b)
	return "?" + hex.EncodeToString(s[:4])
}

// instRead reads the state of a root after a call.
func instRead(o *instOut, f apkfs.FullFS, lz *lazyFS, base string, k *instKnown) {
	o.Root, o.Idb, o.Sc, o.Tr, o.Named = []instEnt{}, []instIdb{}, []instScript{}, []string{}, [][]string{}
	var es []fsEntry
	var bad string
	switch {
	case lz != nil:
		for _, e := range lz.root {
			es = append(es, e)
		}
		sort.Slice(es, func(i, j int) bool { return es[i].P < es[j].P })
		bad = lz.bad
		o.Wh = lz.n
	case base != "":
		es, bad = diskView(base)
	default:
		es, bad = fsView(f)
	}
	if bad != "" {
		o.Bad = "root: " + bad
	}
	for _, e := range es {
		if e.P == "lib/apk" || strings.HasPrefix(e.P, "lib/apk/") {
			continue
		}
		x := instEnt{P: strings.Split(e.P, "/"), K: map[string]string{"file": "reg"}[e.K], Perm: e.Perm, Tg: []string{}}
		if x.K == "" {
			x.K = e.K
		}
		switch e.K {
		case "file":
			x.C = k.of(bytesOf(e.Data))
		case "link":
			x.C = e.Tg
		}
		if lz != nil {
			x.X = e.X[0][0].(string)
		} else if e.K != "link" {
			x.X = instX(func(k string) ([]byte, error) { return f.GetXattr(e.P, k) })
		}
		o.Root = append(o.Root, x)
	}
	b, err := f.ReadFile("lib/apk/db/installed")
	if err != nil {
		o.Bad = "idb: " + err.Error()
	}
	var cur *instIdb
	dir := ""
	for _, l := range strings.Split(string(b), "\n") {
		if len(l) < 2 {
			cur = nil
			continue
		}
		if cur == nil {
			o.Idb = append(o.Idb, instIdb{Files: []instFile{}})
			cur = &o.Idb[len(o.Idb)-1]
		}
		v := l[2:]
		switch l[:2] {
		case "P:":
			cur.Name = v
		case "V:":
			cur.Ver = v
		case "o:":
			cur.Org = v
		case "C:":
			cur.Sum = v
		case "F:":
			dir = v
			if v != "" {
				cur.Files = append(cur.Files, instFile{P: pathComps(v), D: true})
			}
		case "R:":
			cur.Files = append(cur.Files, instFile{P: pathComps(dir + "/" + v)})
		case "Z:":
			c, ok := k.sums[v]
			if !ok {
				c = "?" + v
			}
			cur.Files[len(cur.Files)-1].C = c
		}
	}
	b, err = f.ReadFile("lib/apk/db/scripts.tar")
	if err != nil {
		o.Bad = "scripts: " + err.Error()
	}
	tr := tar.NewReader(bytes.NewReader(b))
	for len(b) > 0 {
		h, err := tr.Next()
		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {
			o.Bad = "scripts: " + err.Error()
			break
		}
		body, err := io.ReadAll(tr)
		if err != nil {
			o.Bad = "scripts: " + err.Error()
			break
		}
		o.Sc = append(o.Sc, instScript{h.Name, k.of(body), h.ModTime.Unix()})
	}
	if n := len(b); n%512 != 0 || (n > 0 && (n < 1024 || !bytes.Equal(b[n-1024:], make([]byte, 1024)))) {
		o.Bad = fmt.Sprintf("scripts: the archive of %d bytes does not end as one", n)
	}
	b, err = f.ReadFile("lib/apk/db/triggers")
	if err != nil && !os.IsNotExist(err) {
		o.Bad = "triggers: " + err.Error()
	}
	if s := string(b); s != "" {
		if !strings.HasSuffix(s, "\n") {
			o.Bad = "triggers: unterminated line"
		}
		o.Tr = strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	}
}

func init() {
	caseCmds["install"] = func(raw json.RawMessage) any {
		var c struct {
			Mode  string `json:"mode"` // mem, dir, lazy
			Init  string `json:"init"` // db files: init (InitDB), none (no triggers file, empty scripts file)
			Calls []struct {
				Pk     []instPkg `json:"pk"`
				Order  []int     `json:"order"`
				Sde    int64     `json:"sde"`
				Cancel int       `json:"cancelAt"` // after that many releases; -1 never
				New    bool      `json:"new"`      // a new APK object (and DirFS) for this call
				Fault  int       `json:"fault"`    // which operation on the root's filesystem fails, 0 none
			} `json:"calls"`
		}
		must(json.Unmarshal(raw, &c))
		id := instSeq.Add(1)
		scratch := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("inst%d-%d", os.Getpid(), id))
		must(os.Mkdir(scratch, 0o755))
		defer os.RemoveAll(scratch)
		base := ""
		var f apkfs.FullFS
		var lz *lazyFS
		switch c.Mode {
		case "dir":
			base = filepath.Join(scratch, "root")
			must(os.Mkdir(base, 0o755))
			f = apkfs.DirFS(base)
		case "lazy":
			f = apkfs.NewMemFS()
			lz = &lazyFS{FullFS: f, root: map[string]fsEntry{}}
		default:
			f = apkfs.NewMemFS()
		}
		for _, d := range []string{"lib", "lib/apk", "lib/apk/db"} {
			must(f.Mkdir(d, 0o755))
		}
		must(f.WriteFile("lib/apk/db/installed", nil, 0o644))
		if c.Init == "none" {
			must(f.WriteFile("lib/apk/db/scripts.tar", nil, 0o644))
		} else {
			must(f.WriteFile("lib/apk/db/scripts.tar", make([]byte, 1024), 0o644))
			must(f.WriteFile("lib/apk/db/triggers", nil, 0o644))
		}
		known := &instKnown{map[string]string{}, map[string]string{}}
		var built [][]builtApk
		sums := [][]string{}
		for _, cl := range c.Calls {
			var bs []builtApk
			ss := []string{}
			for _, p := range cl.Pk {
				for _, e := range p.Es {
					if e.K == "reg" {
						b := cont(e.C)
						known.bytes[string(b)] = e.C
						s := sha1.Sum(b)
						known.sums["Q1"+base64.StdEncoding.EncodeToString(s[:])] = e.C
					}
				}
				for _, s := range p.Sc {
					known.bytes[string(cont(s.C))] = s.C
				}
				b := p.build()
				bs = append(bs, b)
				ss = append(ss, b.sum)
			}
			built = append(built, bs)
			sums = append(sums, ss)
		}
		var a *apk.APK
		var cur int
		var mu sync.Mutex
		var left atomic.Int64
		var fired atomic.Bool
		blocked := map[int]chan bool{}
		seen := map[int]bool{}
		event := make(chan bool, 1000)
		sim := &simNet{handle: func(_ *simNet, r simReq, _ *http.Request) simResp {
			var call, i int
			if _, err := fmt.Sscanf(r.Path, "/x86_64/p%d-%d.apk", &call, &i); err != nil || call != cur {
				return simResp{status: 404, cut: -1}
			}
			p := c.Calls[call].Pk[i]
			s := okBody(built[call][i].spoil(p.Bad))
			switch p.Bad {
			case "404":
				s = simResp{status: 404, body: []byte("no such file"), cut: -1}
			case "500":
				s = simResp{status: 500, cut: -1}
			case "conn":
				s = simResp{err: errRefused}
			case "cut":
				s.cut = len(s.body) / 2
				s.ranges = false
			}
			mu.Lock()
			defer mu.Unlock()
			if !seen[i] {
				seen[i] = true
				w := make(chan bool)
				blocked[i] = w
				s.wait = w
				event <- true
			}
			return s
		}}
		outs := []instOut{}
		for ci, cl := range c.Calls {
			if a == nil || cl.New {
				if cl.New && base != "" {
					f = apkfs.DirFS(base)
				}
				var tf apkfs.FullFS = rootFS{f, &left, &fired}
				if lz != nil {
					tf = lz
				}
				var err error
				a, err = apk.New(apk.WithFS(tf), apk.WithArch("x86_64"))
				must(err)
				a.SetClient(sim.client())
			}
			if lz != nil {
				lz.n = 0
			}
			mu.Lock()
			cur, blocked, seen = ci, map[int]chan bool{}, map[int]bool{}
			mu.Unlock()
			pkgs := []apk.InstallablePackage{}
			remote := 0
			for i, p := range cl.Pk {
				u := fmt.Sprintf("https://inst%d.example/x86_64/p%d-%d.apk", id, ci, i)
				if p.Local {
					u = filepath.Join(scratch, fmt.Sprintf("p%d-%d.apk", ci, i))
					if p.Bad != "404" {
						must(os.WriteFile(u, built[ci][i].spoil(p.Bad), 0o644))
					}
				} else {
					remote++
				}
				sum := built[ci][i].sum
				if p.Bad == "othersum" {
					sum = "Q1" + base64.StdEncoding.EncodeToString(make([]byte, 20))
				}
				pkgs = append(pkgs, urlPkg{u, p.Name, sum})
			}
			ctx, cancel := context.WithCancel(quietCtx())
			left.Store(int64(cl.Fault))
			fired.Store(false)
			done := make(chan error, 1)
			go func() {
				defer func() {
					if r := recover(); r != nil {
						done <- fmt.Errorf("panic: %v", r)
					}
				}()
				var sde *time.Time
				if cl.Sde >= 0 {
					t := time.Unix(cl.Sde, 0)
					sde = &t
				}
				done <- a.InstallPackages(ctx, sde, pkgs)
			}()
			o := instOut{Done: []int{}}
			if cl.Cancel == 0 {
				cancel()
			}
			var err error
			hang := time.NewTimer(15 * time.Second)
			for run := true; run; {
				mu.Lock()
				full := len(blocked) >= min(remote-len(o.Done), runtime.GOMAXPROCS(0))
				mu.Unlock()
				quiet := 3 * time.Millisecond
				if full {
					quiet = 0
				}
				select {
				case err = <-done:
					run = false
				case <-hang.C:
					o.Hang = true
					run = false
				case <-event:
				case <-time.After(quiet):
					mu.Lock()
					for _, i := range cl.Order {
						if w, ok := blocked[i]; ok {
							close(w)
							delete(blocked, i)
							o.Done = append(o.Done, i)
							if len(o.Done) == cl.Cancel {
								cancel()
							}
							break
						}
					}
					empty := len(blocked) == 0
					mu.Unlock()
					if empty {
						// let the released one get on with it
						select {
						case err = <-done:
							run = false
						case <-event:
						case <-hang.C:
							o.Hang, run = true, false
						}
					}
				}
			}
			cancel()
			left.Store(0)
			o.Fired = fired.Load()
			o.Err, o.Msg = err != nil, errStr(err)
			if !o.Hang {
				var ff apkfs.FullFS = f
				instRead(&o, ff, lz, base, known)
				if o.Msg != "" {
					for _, p := range cl.Pk {
						for _, e := range p.Es {
							if strings.Contains(o.Msg, strings.Join(e.P, "/")) {
								o.Named = append(o.Named, e.P)
							}
						}
					}
				}
			}
			outs = append(outs, o)
			if o.Hang {
				break
			}
		}
		return map[string]any{"outs": outs, "sums": sums}
	}
}
