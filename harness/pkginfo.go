package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"sync/atomic"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

var pkgInfoSeq atomic.Int64

type pkgInfoGot struct {
	Text map[string]string   `json:"text"`
	List map[string][]string `json:"list"`
	Num  map[string]string   `json:"num"`
}

func pkgInfoOf(p *apk.Package, dh string) pkgInfoGot {
	l := func(x []string) []string { return append([]string{}, x...) }
	d := p.DataHash
	if dh != "" && d == dh {
		d = "@DH"
	}
	return pkgInfoGot{
		Text: map[string]string{"pkgname": p.Name, "pkgver": p.Version, "arch": p.Arch, "pkgdesc": p.Description, "license": p.License, "origin": p.Origin, "maintainer": p.Maintainer, "url": p.URL, "commit": p.RepoCommit, "datahash": d},
		List: map[string][]string{"depend": l(p.Dependencies), "provides": l(p.Provides), "replaces": l(p.Replaces), "install_if": l(p.InstallIf)},
		Num:  map[string]string{"size": fmt.Sprint(p.InstalledSize), "provider_priority": fmt.Sprint(p.ProviderPriority), "builddate": fmt.Sprint(p.BuildTime.Unix())},
	}
}

func init() {
	caseCmds["pkginfo"] = func(raw json.RawMessage) any {
		var c struct {
			Info   string `json:"info"`
			Signed bool   `json:"signed"`
			Inst   bool   `json:"inst"`
			Name   string `json:"name"`
		}
		must(json.Unmarshal(raw, &c))
		pk := instPkg{Name: c.Name, Info: c.Info, Signed: c.Signed, Es: []instEnt{{P: []string{"f"}, K: "reg", C: "x", Perm: 0o644}}}
		b := pk.build()
		var dh string
		if i := strings.Index(b.info, "datahash = "); i >= 0 {
			dh, _, _ = strings.Cut(b.info[i+11:], "\n")
			dh = strings.TrimSpace(dh)
		}
		p, err := apk.ParsePackage(quietCtx(), bytes.NewReader(b.all()))
		r := map[string]any{"ok": err == nil, "err": errStr(err), "iok": false}
		if err == nil {
			r["got"] = pkgInfoOf(p, dh)
		}
		if c.Inst {
			sim := &simNet{handle: func(*simNet, simReq, *http.Request) simResp { return okBody(b.all()) }}
			a, err := apk.New(apk.WithFS(apkfs.NewMemFS()), apk.WithArch("x86_64"), apk.WithIgnoreMknodErrors(true))
			must(err)
			must(a.InitDB(quietCtx()))
			a.SetClient(sim.client())
			err = a.InstallPackages(quietCtx(), nil, []apk.InstallablePackage{urlPkg{fmt.Sprintf("https://pi%d.example/r/x86_64/p.apk", pkgInfoSeq.Add(1)), c.Name, b.sum}})
			r["ierr"] = errStr(err)
			if err == nil {
				ps, err := a.GetInstalled()
				if r["ierr"] = errStr(err); err == nil && len(ps) == 1 {
					r["iok"], r["igot"] = true, pkgInfoOf(&ps[0].Package, dh)
				}
			}
		}
		return r
	}
}
