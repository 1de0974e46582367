package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"io"
	"strconv"
	"strings"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

type jPkg struct {
	Name   string   `json:"name"`
	Ver    string   `json:"ver"`
	Arch   string   `json:"arch"`
	Desc   string   `json:"desc"`
	Lic    string   `json:"lic"`
	Org    string   `json:"org"`
	Maint  string   `json:"maint"`
	URL    string   `json:"url"`
	Sum    string   `json:"sum"`
	Deps   []string `json:"deps"`
	Prov   []string `json:"prov"`
	Iif    []string `json:"iif"`
	Repl   []string `json:"repl,omitempty"`
	Size   string   `json:"size"`
	ISize  string   `json:"isize"`
	Prio   string   `json:"prio"`
	T      string   `json:"t"`
	Commit string   `json:"commit"`
}

func u64(s string) uint64 {
	if s == "" {
		return 0
	}
	n, err := strconv.ParseUint(s, 10, 64)
	must(err)
	return n
}

func (j jPkg) toPkg() *apk.Package {
	p := &apk.Package{Name: j.Name, Version: j.Ver, Arch: j.Arch, Description: j.Desc, License: j.Lic, Origin: j.Org, Maintainer: j.Maint,
		URL: j.URL, Dependencies: j.Deps, Provides: j.Prov, InstallIf: j.Iif, Replaces: j.Repl, Size: u64(j.Size), InstalledSize: u64(j.ISize),
		ProviderPriority: u64(j.Prio), RepoCommit: j.Commit}
	if j.Sum != "" {
		b, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(j.Sum, "Q1"))
		must(err)
		p.Checksum = b
	}
	if j.T != "" {
		n, err := strconv.ParseInt(j.T, 10, 64)
		must(err)
		p.BuildDate = n
		p.BuildTime = time.Unix(n, 0).UTC()
	}
	return p
}

func nn(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func fromPkg(p *apk.Package) jPkg {
	j := jPkg{Name: p.Name, Ver: p.Version, Arch: p.Arch, Desc: p.Description, Lic: p.License, Org: p.Origin, Maint: p.Maintainer, URL: p.URL,
		Deps: nn(p.Dependencies), Prov: nn(p.Provides), Iif: nn(p.InstallIf), Size: strconv.FormatUint(p.Size, 10), ISize: strconv.FormatUint(p.InstalledSize, 10),
		Prio: strconv.FormatUint(p.ProviderPriority, 10), Commit: p.RepoCommit}
	if len(p.Checksum) > 0 {
		j.Sum = p.ChecksumString()
	}
	if !p.BuildTime.IsZero() {
		j.T = strconv.FormatInt(p.BuildTime.Unix(), 10)
	}
	return j
}

func fromPkgs(ps []*apk.Package) []jPkg {
	out := []jPkg{}
	for _, p := range ps {
		out = append(out, fromPkg(p))
	}
	return out
}

func init() {
	caseCmds["index"] = func(raw json.RawMessage) any {
		var c struct {
			Kind string   `json:"kind"`
			Pkgs []jPkg   `json:"pkgs"`
			Desc string   `json:"desc"`
			Text string   `json:"text"`
			Cut  int      `json:"cut"`  // arc: keep that many per mille of the archive
			Flip int      `json:"flip"` // arc: flip a bit of the byte at that per mille
			Sig  string   `json:"sig"`  // rt: prepend a signature section with these contents
			Long int      `json:"long"` // parse: insert a provides line of that length
			_    struct{} `json:"-"`
		}
		must(json.Unmarshal(raw, &c))
		switch c.Kind {
		case "rt", "arc":
			idx := &apk.APKIndex{Description: c.Desc}
			for _, p := range c.Pkgs {
				idx.Packages = append(idx.Packages, p.toPkg())
			}
			r, err := apk.ArchiveFromIndex(idx)
			if err != nil {
				return map[string]any{"ok": false, "err": errStr(err)}
			}
			b, err := io.ReadAll(r)
			must(err)
			if c.Kind == "arc" {
				if c.Flip >= 0 {
					k := c.Flip * len(b) / 1000
					b[k] ^= 1 << (c.Flip % 8)
				} else {
					b = b[:c.Cut*len(b)/1000]
				}
				got, err := apk.IndexFromArchive(io.NopCloser(bytes.NewReader(b)))
				if err != nil {
					return map[string]any{"ok": false, "err": errStr(err)}
				}
				return map[string]any{"ok": true, "got": fromPkgs(got.Packages)}
			}
			gz, err := gzip.NewReader(bytes.NewReader(b))
			must(err)
			tr := tar.NewReader(gz)
			text := ""
			for {
				h, err := tr.Next()
				if err == io.EOF {
					break
				}
				must(err)
				x, err := io.ReadAll(tr)
				must(err)
				if h.Name == "APKINDEX" {
					text = string(x)
				}
			}
			if c.Sig != "" {
				var sb bytes.Buffer
				zw := gzip.NewWriter(&sb)
				tw := tar.NewWriter(zw)
				must(tw.WriteHeader(&tar.Header{Name: ".SIGN.RSA.key.rsa.pub", Mode: 0o644, Size: int64(len(c.Sig))}))
				_, err := tw.Write([]byte(c.Sig))
				must(err)
				must(tw.Flush()) // no end-of-archive marker
				must(zw.Close())
				b = append(sb.Bytes(), b...)
			}
			got, err := apk.IndexFromArchive(io.NopCloser(bytes.NewReader(b)))
			if err != nil {
				return map[string]any{"ok": false, "err": errStr(err)}
			}
			return map[string]any{"ok": true, "got": fromPkgs(got.Packages), "gotdesc": got.Description, "text": text, "gotsig": string(got.Signature)}
		case "parse":
			text := c.Text
			if c.Long > 0 {
				text = strings.ReplaceAll(text, "@LONG@", strings.Repeat("x", c.Long))
			}
			got, err := apk.ParsePackageIndex(strings.NewReader(text))
			if err != nil {
				return map[string]any{"ok": false, "got": []jPkg{}, "err": errStr(err)}
			}
			out := fromPkgs(got)
			if c.Long > 0 {
				b, err := json.Marshal(out)
				must(err)
				b = bytes.ReplaceAll(b, bytes.Repeat([]byte("x"), c.Long), []byte("@LONG@"))
				return map[string]any{"ok": true, "got": json.RawMessage(b)}
			}
			return map[string]any{"ok": true, "got": out}
		}
		return nil
	}
}
