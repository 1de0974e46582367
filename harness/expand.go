package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	"github.com/chainguard-dev/go-apk/pkg/expandapk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

// xLayout is how a package archive is written.
type xLayout struct {
	Sgn   bool   `json:"sgn"`
	Ctl   int    `json:"ctl"` // variants of the sections
	Dat   int    `json:"dat"`
	Nd    int    `json:"nd"`    // members of the data section
	Dec   int    `json:"dec"`   // the control section declares the data of this variant; 0: none
	Level int    `json:"level"` // of compression
	Hdr   int    `json:"hdr"`   // fields of the gzip headers: 1 name, 2 comment, 4 extra
	Big   int    `json:"big"`   // size of a file
	Cut   bool   `json:"cut"`   // no end-of-archive blocks
	Fmt   string `json:"fmt"`
	Nosum bool   `json:"nosum"`
	Sig2  bool   `json:"sig2"` // two signatures
	Case  bool   `json:"case"` // data hash in capitals
	Sum   string `json:"sum"`  // a wrong checksum in the data section: "bad"
	Dhx   int    `json:"dhx"`  // another declaration: 1 of other data, behind; 2 in front; 3 the same again
}

type xEdit struct {
	K  string  `json:"k"`
	I  int     `json:"i"`
	At float64 `json:"at"`
}

type xMember struct{ b, raw []byte }

func (l xLayout) member(raw []byte, n int) xMember {
	var buf bytes.Buffer
	w, err := gzip.NewWriterLevel(&buf, l.Level)
	must(err)
	if l.Hdr&1 != 0 {
		w.Name = fmt.Sprintf("stream%d", n)
	}
	if l.Hdr&2 != 0 {
		w.Comment = "a comment"
	}
	if l.Hdr&4 != 0 {
		w.Extra = []byte{1, 2, 3, 4, 5}
	}
	_, err = w.Write(raw)
	must(err)
	must(w.Close())
	return xMember{buf.Bytes(), raw}
}

// files of the data section of variant d.
func (l xLayout) files(d int) map[string]string {
	big := l.Big
	if big == 0 {
		big = 10
	}
	return map[string]string{"a/f": fmt.Sprintf("data %d", d), "a/big": strings.Repeat(fmt.Sprintf("%d.", d), big/2), fmt.Sprintf("v%d", d): "", "same": "same"}
}

func (l xLayout) data(d int) []xMember {
	p := instPkg{Nosum: l.Nosum, Fmt: l.Fmt}
	if l.Sum == "bad" {
		p.Bad = "badsum"
	}
	p.Es = append(p.Es, instEnt{P: []string{"a"}, K: "dir", Perm: 0o755})
	fm := l.files(d)
	for _, n := range []string{"a/f", "a/big", fmt.Sprintf("v%d", d), "same"} {
		p.Es = append(p.Es, instEnt{P: strings.Split(n, "/"), K: "reg", C: fm[n], Perm: 0o644})
	}
	t := p.dataTar()
	if l.Cut {
		t = t[:len(t)-1024]
	}
	ms := []xMember{}
	for i := 0; i < l.Nd; i++ {
		part := t[len(t)*i/l.Nd : len(t)*(i+1)/l.Nd]
		ms = append(ms, l.member(part, 2))
	}
	return ms
}

func xcat(ms []xMember) []byte {
	var b []byte
	for _, m := range ms {
		b = append(b, m.b...)
	}
	return b
}

func (l xLayout) control(c int) xMember {
	info := fmt.Sprintf("# test\npkgname = px\npkgver = %d-r0\narch = x86_64\nsize = 77\nbuilddate = 1600000000\n", c)
	if l.Dec != 0 {
		h := sha256.Sum256(xcat(l.data(l.Dec)))
		s := hex.EncodeToString(h[:])
		if l.Case {
			s = strings.ToUpper(s)
		}
		info += "datahash = " + s + "\n"
		x := sha256.Sum256([]byte("other"))
		o := "datahash = " + hex.EncodeToString(x[:]) + "\n"
		switch l.Dhx {
		case 1:
			info += o
		case 2:
			info = o + info
		case 3:
			info += "datahash = " + s + "\n"
		}
	}
	return l.member(rawTar(!l.Cut, tent{name: ".PKGINFO", body: []byte(info)}, tent{name: ".post-install", body: bytes.Repeat([]byte{'#', byte('0' + c)}, 300)}), 1)
}

func (l xLayout) members() []xMember {
	var ms []xMember
	if l.Sgn {
		es := []tent{{name: ".SIGN.RSA.k.rsa.pub", body: bytes.Repeat([]byte{7}, 256)}}
		if l.Sig2 {
			es = append(es, tent{name: ".SIGN.RSA256.k2.rsa.pub", body: bytes.Repeat([]byte{8}, 512)})
		}
		ms = append(ms, l.member(rawTar(!l.Cut, es...), 0))
	}
	ms = append(ms, l.control(l.Ctl))
	return append(ms, l.data(l.Dat)...)
}

// gzHeader is the length of the header of a gzip member.
func gzHeader(b []byte) int {
	n := 10
	if b[3]&4 != 0 {
		n += 2 + int(b[n]) + int(b[n+1])<<8
	}
	for _, f := range []byte{8, 16} {
		if b[3]&f != 0 {
			n += bytes.IndexByte(b[n:], 0) + 1
		}
	}
	return n
}

func xEdited(ms []xMember, e xEdit) []byte {
	all := xcat(ms)
	cell := func(i int) (int, int) {
		m := (i - 1) / 3
		off := len(xcat(ms[:m]))
		b := ms[m].b
		h := gzHeader(b)
		switch (i - 1) % 3 {
		case 0:
			return off, off + h
		case 1:
			return off + h, off + len(b) - 8
		}
		return off + len(b) - 8, off + len(b)
	}
	switch e.K {
	case "cut":
		lo, hi := cell(e.I)
		return all[:lo+int(e.At*float64(hi-lo))]
	case "bad":
		lo, hi := cell(e.I)
		k := int(e.At * float64(hi-lo) * 8)
		all[lo+k/8] ^= 1 << (k % 8)
	case "junk":
		all = append(all, []byte("\x1f junk, or the start of a member"[int(e.At*20):])...)
	case "zeros":
		all = append(all, make([]byte, 1+int(e.At*600))...)
	case "drop":
		return xcat(append(append([]xMember{}, ms[:e.I-1]...), ms[e.I:]...))
	case "dup":
		return xcat(append(append([]xMember{}, ms[:e.I]...), ms[e.I-1:]...))
	case "swap":
		ms = append([]xMember{}, ms...)
		ms[0], ms[1] = ms[1], ms[0]
		return xcat(ms)
	}
	return all
}

// xRef is what the bytes are, by a reader of our own.
type xRef struct {
	valid        bool // signature, control and data sections
	ctlOK        bool // signature and control sections
	signed       bool
	sig, ctl     []byte
	dat          []byte
	control, tar []byte
	why          string
	sum          string
	declared     []string
	hasInfo      bool
	size         string
	soft         bool // may be refused
}

func refApk(b []byte) (x xRef) {
	r := bytes.NewReader(b)
	fail := func(w string, err error) xRef { x.why = fmt.Sprint(w, ": ", err); return x }
	one := func() (raw, dec []byte, err error) {
		start := len(b) - r.Len()
		z, err := gzip.NewReader(r)
		if err != nil {
			return nil, nil, err
		}
		z.Multistream(false)
		dec, err = io.ReadAll(z)
		return b[start : len(b)-r.Len()], dec, err
	}
	raw, dec, err := one()
	if err != nil {
		return fail("first", err)
	}
	h, err := tar.NewReader(bytes.NewReader(dec)).Next()
	if err != nil {
		return fail("first tar", err)
	}
	if strings.HasPrefix(h.Name, ".SIGN.") {
		x.signed, x.sig = true, raw
		if raw, dec, err = one(); err != nil {
			return fail("control", err)
		}
	}
	x.soft = b[3]&0xe0 != 0 || raw[3]&0xe0 != 0 // reserved bits may be refused
	x.ctl, x.control = raw, dec
	s := sha1.Sum(raw)
	x.sum = "Q1" + base64.StdEncoding.EncodeToString(s[:])
	tr := tar.NewReader(bytes.NewReader(dec))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return fail("control tar", err)
		}
		body, err := io.ReadAll(tr)
		if err != nil {
			return fail("control tar", err)
		}
		if h.Name == ".PKGINFO" && !x.hasInfo {
			x.hasInfo = true
			for _, l := range strings.Split(string(body), "\n") {
				if v, ok := strings.CutPrefix(l, "datahash = "); ok {
					x.declared = append(x.declared, v)
				}
				if v, ok := strings.CutPrefix(l, "size = "); ok {
					x.size = v
				}
			}
		}
	}
	x.ctlOK = true
	x.soft = x.soft || len(x.declared) > 1
	x.dat = b[len(b)-r.Len():]
	for n := 0; n == 0 || r.Len() > 0; n++ {
		off := len(b) - r.Len()
		_, dec, err := one()
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		if n > 0 && errors.Is(err, io.ErrUnexpectedEOF) && dec == nil {
			x.soft = true // whole members, then a header that ends early
			break
		}
		if err != nil {
			return fail("data", err)
		}
		x.soft = x.soft || b[off+3]&0xe0 != 0
		x.tar = append(x.tar, dec...)
	}
	tr = tar.NewReader(bytes.NewReader(x.tar))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return fail("data tar", err)
		}
		body, err := io.ReadAll(tr)
		if err != nil {
			return fail("data tar", err)
		}
		if c := h.PAXRecords["APK-TOOLS.checksum.SHA1"]; c != "" {
			if s := sha1.Sum(body); c != hex.EncodeToString(s[:]) {
				return fail("data tar", errors.New("checksum of "+h.Name))
			}
		}
	}
	x.valid = true
	return x
}

func (x xRef) datMatch() bool {
	h := sha256.Sum256(x.dat)
	for _, d := range x.declared {
		if !strings.EqualFold(d, hex.EncodeToString(h[:])) {
			return false
		}
	}
	return true
}

// xReader delivers bytes in pieces.
type xReader struct {
	b     []byte
	piece int
	with  bool // the end comes with the last bytes
	err   error
}

func (r *xReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	n := len(p)
	if r.piece > 0 && n > r.piece {
		n = r.piece
	}
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && r.with {
		return n, r.err
	}
	return n, nil
}

func init() {
	caseCmds["expand"] = func(raw json.RawMessage) any {
		var c struct {
			Kind  string  `json:"kind"`
			L     xLayout `json:"l"`
			Ed    xEdit   `json:"ed"`
			Piece int     `json:"piece"`
			With  bool    `json:"with"`
			Err   bool    `json:"err"`  // the source fails rather than ends
			Psum  string  `json:"psum"` // the promise is not a whole checksum: prefix, zeros, long
			Pro   int     `json:"pro"`  // the index promises this variant of the control section; 0: nothing
			Cache bool    `json:"cache"`
			Mode  string  `json:"mode"`
			Via   string  `json:"via"`   // http, file
			Mates int     `json:"mates"` // that many good packages are installed after it
			Steps []struct {
				L   *xLayout `json:"l"` // nil: the origin is down
				Ed  xEdit    `json:"ed"`
				Cut int      `json:"cut"` // the connection breaks (for good) after this share of the body, in percent; 0: no
			} `json:"steps"`
		}
		must(json.Unmarshal(raw, &c))
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "xp")
		must(err)
		defer os.RemoveAll(dir)
		ctx := quietCtx()
		if c.Kind == "install" {
			cs := []xStep{}
			for _, s := range c.Steps {
				cs = append(cs, xStep{s.L, s.Ed, s.Cut})
			}
			return expandInstall(ctx, dir, c.L, c.Pro, c.Cache, c.Mode, c.Via, c.Psum, c.Mates, cs)
		}
		b := xEdited(c.L.members(), c.Ed)
		ref := refApk(b)
		src := &xReader{b: append([]byte{}, b...), piece: c.Piece, with: c.With, err: io.EOF}
		if c.Err {
			src.err = errCut
			ref.valid = false
		}
		out := map[string]any{"kind": c.Kind, "why": ref.why}
		wrong := []string{}
		bad := func(what string, ok bool) {
			if !ok {
				wrong = append(wrong, what)
			}
		}
		ctlh := sha1.Sum(ref.ctl)
		dath := sha256.Sum256(ref.dat)
		valid, must_ := ref.valid, ref.valid && !ref.soft
		switch c.Kind {
		case "expand":
			exp, err := expandapk.ExpandApk(ctx, src, dir)
			out["ok"] = err == nil
			if err != nil {
				out["msg"] = err.Error()
			} else {
				read := func(n string) []byte {
					if n == "" {
						return nil
					}
					b, err := os.ReadFile(n)
					if err != nil {
						wrong = append(wrong, err.Error())
					}
					return b
				}
				bad("signature", bytes.Equal(read(exp.SignatureFile), ref.sig))
				bad("control", bytes.Equal(read(exp.ControlFile), ref.ctl))
				bad("data", bytes.Equal(read(exp.PackageFile), ref.dat))
				bad("tar", bytes.Equal(read(exp.TarFile), ref.tar))
				bad("signed", exp.Signed == ref.signed)
				bad("size", exp.Size == int64(len(b)))
				bad("control hash", bytes.Equal(exp.ControlHash, ctlh[:]))
				bad("data hash", bytes.Equal(exp.PackageHash, dath[:]))
				cd, err := exp.ControlData()
				bad("control contents", err == nil && bytes.Equal(cd, ref.control))
				for i := 0; i < 2; i++ {
					pd, err := exp.PackageData()
					if bad("data contents", err == nil); err == nil {
						x, err := io.ReadAll(pd)
						bad("data contents", err == nil && bytes.Equal(x, ref.tar))
						pd.Close()
					}
					if c.Piece%2 == 1 {
						os.Remove(exp.TarFile) // as in old caches
					}
				}
				rc, err := exp.APK()
				if bad("whole", err == nil); err == nil {
					x, err := io.ReadAll(rc)
					bad("whole", err == nil && bytes.Equal(x, b))
					rc.Close()
				}
				x, err := fs.ReadFile(exp.ControlFS, ".PKGINFO")
				bad("info", (err == nil) == ref.hasInfo && (err != nil || bytes.Contains(ref.control, x)))
				for n, want := range c.L.files(c.L.Dat) {
					if ref.valid && c.Ed.K == "none" && c.L.Nd == 1 {
						x, err := fs.ReadFile(exp.TarFS, n)
						bad("file", err == nil && string(x) == want)
					}
				}
				must(exp.Close())
			}
		case "parse":
			tmp := os.Getenv("TMPDIR")
			_ = tmp
			p, err := apk.ParsePackage(ctx, src)
			out["ok"] = err == nil
			valid = valid && ref.hasInfo
			must_ = valid && !ref.soft
			if err != nil {
				out["msg"] = err.Error()
			} else {
				bad("name", p.Name == "px" && p.Version == fmt.Sprintf("%d-r0", c.L.Ctl))
				bad("checksum", bytes.Equal(p.Checksum, ctlh[:]))
				bad("size", p.Size == uint64(len(b)))
				bad("installed size", p.InstalledSize == 77)
				bad("data hash", len(ref.declared) == 0 && p.DataHash == "" || len(ref.declared) == 1 && p.DataHash == ref.declared[0] || len(ref.declared) > 1)
			}
		case "resolve", "calc":
			valid = ref.ctlOK && ref.hasInfo && len(ref.declared) == 1
			must_ = ref.valid && valid && !ref.soft
			var x *apk.APKResolved
			var err error
			if c.Kind == "resolve" {
				x, err = apk.ResolveApk(ctx, src)
			} else {
				net := &simNet{handle: func(_ *simNet, r simReq, _ *http.Request) simResp {
					s := okBody(b)
					s.chunk = c.Piece
					if c.Err {
						s.body, s.cut = append(append([]byte{}, b...), 0), len(b)
					}
					return s
				}}
				a, nerr := apk.New(apk.WithFS(apkfs.NewMemFS()), apk.WithArch("x86_64"))
				must(nerr)
				a.SetClient(net.client())
				rp := apk.NewRepositoryPackage(&apk.Package{Name: "px", Version: "1-r0"}, (&apk.Repository{URI: "https://calc.example/x86_64"}).WithIndex(&apk.APKIndex{}))
				var xs []*apk.APKResolved
				xs, err = a.CalculateWorld(ctx, []*apk.RepositoryPackage{rp})
				if err == nil {
					bad("count", len(xs) == 1)
					x = xs[0]
					bad("package", x.Package == rp)
				}
			}
			out["ok"] = err == nil
			if err != nil {
				out["msg"] = err.Error()
			} else {
				sigh := sha1.Sum(ref.sig)
				bad("signature size", x.SignatureSize == len(ref.sig))
				if ref.signed {
					bad("signature hash", bytes.Equal(x.SignatureHash, sigh[:]))
				} else {
					bad("signature hash", len(x.SignatureHash) == 0)
				}
				bad("control end", x.ControlSize == len(ref.sig)+len(ref.ctl))
				bad("control hash", bytes.Equal(x.ControlHash, ctlh[:]))
				bad("data size", fmt.Sprint(x.DataSize) == ref.size)
				bad("data hash", len(ref.declared) == 1 && strings.EqualFold(hex.EncodeToString(x.DataHash), ref.declared[0]))
			}
		}
		es, err := os.ReadDir(dir)
		must(err)
		out["left"] = len(es)
		out["wrong"] = wrong
		out["valid"] = valid
		out["must"] = must_
		return out
	}
}

func mate(n string) builtApk {
	return instPkg{Name: n, Ver: "1-r0", Es: []instEnt{{P: []string{n}, K: "reg", C: n, Perm: 0o644}}}.build()
}

type xStep struct {
	L   *xLayout
	Ed  xEdit
	Cut int
}

// expandInstall installs a package again and again, each time into a new root.
func expandInstall(ctx context.Context, dir string, l xLayout, pro int, cache bool, mode, via, psum string, mates int, steps []xStep) any {
	outs := []map[string]any{}
	id := instSeq.Add(1)
	u := fmt.Sprintf("https://x%d-%d.example/x86_64/px.apk", os.Getpid(), id)
	file := filepath.Join(dir, "px.apk")
	if via == "file" {
		u = file
	}
	sum := ""
	if pro != 0 {
		s := sha1.Sum(l.control(pro).b)
		sum = "Q1" + base64.StdEncoding.EncodeToString(s[:])
		switch psum {
		case "prefix":
			sum = "Q1" + base64.StdEncoding.EncodeToString(s[:10])
		case "zeros":
			sum = "Q1AAAAAAA="
		case "long":
			sum = "Q1" + base64.StdEncoding.EncodeToString(append(s[:], 7))
		}
	}
	for n, s := range steps {
		var b []byte
		var ref xRef
		if s.L != nil {
			b = xEdited(s.L.members(), s.Ed)
			ref = refApk(b)
		}
		cut := -1
		if s.Cut > 0 && via != "file" {
			cut = len(b) * s.Cut / 101
			ref.soft = true
			if s.Cut%2 == 0 {
				ref = xRef{}
			}
		}
		os.Remove(file)
		if s.L != nil {
			must(os.WriteFile(file, b, 0o644))
		}
		net := &simNet{handle: func(_ *simNet, r simReq, _ *http.Request) simResp {
			if m, ok := strings.CutPrefix(r.Path, "/mate/"); ok {
				return okBody(mate(strings.TrimSuffix(m, ".apk")).all())
			}
			if s.L == nil {
				return simResp{err: errRefused}
			}
			x := okBody(b)
			x.cut, x.ranges = cut, s.Cut%2 == 1
			return x
		}}
		base := filepath.Join(dir, fmt.Sprintf("root%d", n))
		var f apkfs.FullFS = apkfs.NewMemFS()
		if mode == "dir" {
			must(os.Mkdir(base, 0o755))
			f = apkfs.DirFS(base)
		} else {
			base = ""
		}
		for _, d := range []string{"lib", "lib/apk", "lib/apk/db"} {
			must(f.Mkdir(d, 0o755))
		}
		must(f.WriteFile("lib/apk/db/installed", nil, 0o644))
		must(f.WriteFile("lib/apk/db/scripts.tar", make([]byte, 1024), 0o644))
		must(f.WriteFile("lib/apk/db/triggers", nil, 0o644))
		opts := []apk.Option{apk.WithFS(f), apk.WithArch("x86_64")}
		if cache {
			opts = append(opts, apk.WithCache(filepath.Join(dir, "cache"), false))
		}
		a, err := apk.New(opts...)
		must(err)
		a.SetClient(net.client())
		ips := []apk.InstallablePackage{urlPkg{u, "px", sum}}
		for m := 0; m < mates; m++ {
			ips = append(ips, urlPkg{fmt.Sprintf("https://x%d-%d.example/mate/mate%d.apk", os.Getpid(), id, m), fmt.Sprintf("mate%d", m), mate(fmt.Sprintf("mate%d", m)).sum})
		}
		cctx, cancel := context.WithTimeout(ctx, 15*time.Second)
		err = a.InstallPackages(cctx, nil, ips)
		cancel()
		o := map[string]any{"ok": err == nil, "msg": ""}
		if err != nil {
			o["msg"] = err.Error()
		}
		var x instOut
		instRead(&x, f, nil, base, &instKnown{map[string]string{}, map[string]string{}})
		data := func(ents map[string]string) string {
			j, _ := json.Marshal(ents)
			s := sha1.Sum(j)
			return hex.EncodeToString(s[:6])
		}
		got := map[string]string{}
		for _, e := range x.Root {
			if strings.HasPrefix(e.P[0], ".") || strings.HasPrefix(e.P[0], "mate") {
				continue
			}
			if e.K == "reg" {
				b, err := f.ReadFile(strings.Join(e.P, "/"))
				if err != nil {
					x.Bad = err.Error()
				}
				got[strings.Join(e.P, "/")] = string(b)
			} else if e.K != "dir" {
				got[strings.Join(e.P, "/")] = e.K
			}
		}
		o["data"] = data(got) + x.Bad
		o["sum"] = ""
		listed := false
		for _, p := range x.Idb {
			if p.Name == "px" {
				o["sum"], listed = p.Sum, true
			}
		}
		o["traces"] = len(got) > 0 || listed || len(x.Sc) > 0 || len(x.Tr) > 0
		sv := map[string]any{"valid": ref.valid && ref.hasInfo, "ctlmatch": sum == "" || ref.sum == sum, "datmatch": ref.datMatch(), "must": !ref.soft, "data": "", "sum": ref.sum, "why": ref.why}
		if ref.valid {
			want := map[string]string{}
			tr := tar.NewReader(bytes.NewReader(ref.tar))
			for {
				h, err := tr.Next()
				if err != nil {
					break
				}
				b, _ := io.ReadAll(tr)
				if h.Typeflag == tar.TypeReg && !strings.HasPrefix(h.Name, ".") {
					want[h.Name] = string(b)
				}
			}
			sv["data"] = data(want)
		}
		o["served"] = sv
		outs = append(outs, o)
	}
	return map[string]any{"kind": "install", "cached": cache, "steps": outs}
}
