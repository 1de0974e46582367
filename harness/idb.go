package main

import (
	"archive/tar"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

type idbHeader struct {
	P    []string `json:"p"`
	D    bool     `json:"d"`
	UID  int      `json:"uid"`
	GID  int      `json:"gid"`
	Perm int64    `json:"perm"`
	Raw  string   `json:"raw,omitempty"` // the name as it is in the archive
	Type string   `json:"type,omitempty"`
	Sum  string   `json:"sum,omitempty"`
}

type idbPkg struct {
	Pk    map[string]any `json:"pk"`
	Files []idbHeader    `json:"files"`
}

func pathComps(s string) []string {
	c := []string{}
	for _, x := range strings.Split(s, "/") {
		if x != "" && x != "." {
			c = append(c, x)
		}
	}
	return c
}

func idbGot(ps []*apk.InstalledPackage) []idbPkg {
	out := []idbPkg{}
	for _, p := range ps {
		m := map[string]any{}
		must(json.Unmarshal([]byte(js(fromPkg(&p.Package))), &m))
		m["repl"] = nn(p.Replaces)
		files := []idbHeader{}
		for _, h := range p.Files {
			files = append(files, idbHeader{P: pathComps(h.Name), D: h.Typeflag == tar.TypeDir, UID: h.Uid, GID: h.Gid, Perm: h.Mode})
		}
		out = append(out, idbPkg{m, files})
	}
	return out
}

func init() {
	caseCmds["idb"] = func(raw json.RawMessage) any {
		var c struct {
			Kind string `json:"kind"`
			FS   string `json:"fs"`
			Text string `json:"text"`
			Long int    `json:"long"`
			Log  []struct {
				Pk jPkg        `json:"pk"`
				HS []idbHeader `json:"hs"`
			} `json:"log"`
			Reopen int `json:"reopen"` // a new APK object (and a new DirFS) before that package
		}
		must(json.Unmarshal(raw, &c))
		out := map[string]any{"ok": false, "got": []idbPkg{}, "text": "", "addok": true, "err": ""}
		if c.Kind == "parse" {
			t := c.Text
			if c.Long > 0 {
				t = strings.ReplaceAll(t, "@LONG@", strings.Repeat("x", c.Long))
			}
			ps, err := apk.ParseInstalled(strings.NewReader(t))
			out["ok"], out["err"] = err == nil, errStr(err)
			if err == nil {
				got := idbGot(ps)
				b := js(got)
				if c.Long > 0 {
					b = strings.ReplaceAll(b, strings.Repeat("x", c.Long), "@LONG@")
				}
				out["got"] = json.RawMessage(b)
			}
			return out
		}
		var f apkfs.FullFS
		base := ""
		if c.FS == "dir" {
			base = filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("idb%d", fsSeq.Add(1)))
			must(os.Mkdir(base, 0o755))
			defer os.RemoveAll(base)
			f = apkfs.DirFS(base)
		} else {
			f = apkfs.NewMemFS()
		}
		must(f.MkdirAll("lib/apk/db", 0o755))
		must(f.WriteFile("lib/apk/db/installed", nil, 0o644))
		a, err := apk.New(apk.WithFS(f), apk.WithArch("x86_64"))
		must(err)
		for i, l := range c.Log {
			if i == c.Reopen {
				if base != "" {
					f = apkfs.DirFS(base)
				}
				a, err = apk.New(apk.WithFS(f), apk.WithArch("x86_64"))
				must(err)
			}
			var hs []tar.Header
			for _, h := range l.HS {
				t := tar.Header{Name: strings.Join(h.P, "/"), Mode: h.Perm, Uid: h.UID, Gid: h.GID, Typeflag: tar.TypeReg}
				if h.D {
					t.Typeflag = tar.TypeDir
				}
				switch h.Type {
				case "link":
					t.Typeflag, t.Linkname = tar.TypeSymlink, "x"
				case "fifo":
					t.Typeflag = tar.TypeFifo
				case "hard":
					t.Typeflag, t.Linkname = tar.TypeLink, "x"
				}
				if h.Raw != "" {
					t.Name = h.Raw
				}
				if h.Sum != "" {
					t.PAXRecords = map[string]string{"APK-TOOLS.checksum.SHA1": h.Sum}
				}
				hs = append(hs, t)
			}
			before := js(hs)
			if err := a.AddInstalledPackage(l.Pk.toPkg(), hs); err != nil {
				out["addok"], out["err"] = false, errStr(err)
				return out
			}
			if js(hs) != before {
				out["err"] = "the caller's headers were changed"
			}
		}
		h, err := f.Open("lib/apk/db/installed")
		must(err)
		b, err := io.ReadAll(h.(fs.File))
		must(err)
		h.Close()
		out["text"] = string(b)
		ps, err := a.GetInstalled()
		out["ok"] = err == nil
		if err != nil {
			out["err"] = errStr(err)
		} else {
			out["got"] = idbGot(ps)
		}
		return out
	}
}
