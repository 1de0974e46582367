package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

type authLink struct {
	H   string `json:"h"`
	Emb string `json:"emb"`
}

var authSeq atomic.Int64

func init() {
	caseCmds["auth"] = func(raw json.RawMessage) any {
		var c struct {
			Cfg     map[string]string `json:"cfg"`
			Kind    string            `json:"kind"` // index, indexd, key, fetch, install
			Targets [][]authLink      `json:"targets"`
			Fail    []string          `json:"fail"`  // per target, at the end of the chain
			Cache   string            `json:"cache"` // "", online, offline
			Times   int               `json:"times"`
			Odd     bool              `json:"odd"`
			Http    bool              `json:"http"`
			Tag     bool              `json:"tag"`
			Code    int               `json:"code"`
		}
		must(json.Unmarshal(raw, &c))
		id := authSeq.Add(1)
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "auth-")
		must(err)
		defer os.RemoveAll(dir)
		host := func(h string) string {
			p := ""
			if i := strings.IndexByte(h, ':'); i >= 0 {
				h, p = h[:i], h[i:]
			}
			return fmt.Sprintf("%s.au%d.example%s", h, id, p)
		}
		type up struct{ u, p string }
		creds := map[up]string{{"", ""}: "empty"}
		secrets, given := []string{}, []string{}
		mk := func(name, shape string) up {
			n := len(creds)
			x := up{fmt.Sprintf("usr%dq%d", id, n), fmt.Sprintf("pwd%dq%dz", id, n)}
			if c.Odd {
				x = up{fmt.Sprintf("usr%d q%d@ä", id, n), fmt.Sprintf("pwd%d/q%d:@%% z", id, n)}
			}
			switch shape {
			case "u":
				x.p = ""
			case "p":
				x.u = ""
			}
			creds[x] = name
			before := len(secrets)
			if x.p != "" {
				secrets = append(secrets, x.p, url.QueryEscape(x.p), url.PathEscape(x.p), strings.SplitN(url.UserPassword("x", x.p).String(), ":", 2)[1])
			}
			secrets = append(secrets, base64.StdEncoding.EncodeToString([]byte(x.u+":"+x.p)))
			if strings.HasPrefix(name, "cfg") || name == "emb:1" {
				given = append(given, secrets[before:]...) // not invented by a server
			}
			return x
		}
		scheme := "https"
		if c.Http {
			scheme = "http"
		}
		var opts []apk.Option
		var iopts []apk.IndexOption
		for _, h := range []string{"a", "s.a", "a:8443", "b", "xa", "b:8443"} {
			if s := c.Cfg[h]; s != "none" && s != "" {
				x := mk("cfg:"+h, s)
				opts = append(opts, apk.WithAuth(host(h), x.u, x.p))
				iopts = append(iopts, apk.WithIndexAuth(host(h), x.u, x.p))
			}
		}
		urls := make([][]string, len(c.Targets))
		var pkgs []builtApk
		for t, chain := range c.Targets {
			for k, l := range chain {
				u := url.URL{Scheme: scheme, Host: host(l.H)}
				if l.Emb != "none" {
					x := mk(fmt.Sprintf("emb:%d", k+1), l.Emb)
					u.User = url.UserPassword(x.u, x.p)
					if l.Emb == "u" && t%2 == 0 {
						u.User = url.User(x.u)
					}
				}
				urls[t] = append(urls[t], fmt.Sprintf("%s/t%d/k%d", u.String(), t+1, k+1))
			}
			pkgs = append(pkgs, instPkg{Name: fmt.Sprintf("pk%d", t), Ver: "1-r0", Es: []instEnt{{P: []string{fmt.Sprintf("f%d", t)}, K: "reg", C: "x", Perm: 0o644}}}.build())
		}
		rest := map[string]string{"index": "/x86_64/APKINDEX.tar.gz", "indexd": "/x86_64/APKINDEX.tar.gz", "key": "/K.rsa.pub", "fetch": "/x86_64/p.apk", "install": "/x86_64/p.apk"}[c.Kind]
		var mu sync.Mutex
		reqs := []map[string]any{}
		hdrleak := ""
		net := &simNet{}
		net.handle = func(_ *simNet, r simReq, req *http.Request) simResp {
			var t, k int
			if n, _ := fmt.Sscanf(r.Path, "/t%d/k%d/", &t, &k); n != 2 || t > len(c.Targets) || k > len(c.Targets[t-1]) {
				return simResp{status: 404}
			}
			name := "none"
			if r.HasAuth {
				var ok bool
				if name, ok = creds[up{r.User, r.Pass}]; !ok {
					name = "?"
				}
			} else if r.AuthRaw != "" {
				name = "?"
			}
			ch := c.Targets[t-1]
			mu.Lock()
			if host(ch[k-1].H) != r.Host {
				name = "?host"
			}
			reqs = append(reqs, map[string]any{"t": t, "k": k, "cred": name, "m": r.Method})
			for hn, vs := range req.Header {
				for _, v := range vs {
					for _, s := range secrets {
						if hn != "Authorization" && strings.Contains(v, s) {
							hdrleak = hn
						}
					}
				}
			}
			mu.Unlock()
			if k < len(ch) {
				return simResp{status: c.Code, header: map[string]string{"Location": urls[t-1][k] + rest}, cut: -1}
			}
			var body []byte
			switch c.Kind {
			case "index", "indexd":
				body = contentIndex(t)
			case "key":
				body = []byte(fmt.Sprintf("key %d", t))
			default:
				body = pkgs[t-1].all()
			}
			s := okBody(body)
			if c.Tag {
				s.header = map[string]string{"Etag": `"tag"`}
			}
			switch f := c.Fail[t-1]; f {
			case "":
			case "conn":
				return simResp{err: errRefused}
			case "cut":
				s.cut, s.ranges = len(body)/2, k%2 == 0
			case "garbage":
				s = okBody([]byte("nothing of use"))
			case "loop":
				return simResp{status: 302, header: map[string]string{"Location": fmt.Sprintf("%s://%s/t%d/k%d%s", scheme, r.Host, t, k, rest)}, cut: -1}
			default:
				var n int
				fmt.Sscan(f, &n)
				return simResp{status: n, cut: -1, body: []byte("x")}
			}
			return s
		}
		errs := []string{}
		for n := 0; n < c.Times; n++ {
			o := opts
			if c.Cache != "" {
				o = append(append([]apk.Option{}, opts...), apk.WithCache(filepath.Join(dir, "cache"), c.Cache == "offline" && n > 0))
			}
			fsys := apkfs.NewMemFS()
			a, err := apk.New(append(o, apk.WithFS(fsys), apk.WithArch("x86_64"))...)
			must(err)
			a.SetClient(net.client())
			must(fsys.MkdirAll("etc/apk/keys", 0o755))
			must(fsys.MkdirAll("lib/apk/db", 0o755))
			must(fsys.WriteFile("lib/apk/db/installed", nil, 0o644))
			must(fsys.WriteFile("lib/apk/db/scripts.tar", nil, 0o644))
			must(fsys.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
			var us []string
			var ips []apk.InstallablePackage
			for t := range c.Targets {
				us = append(us, urls[t][0])
				ips = append(ips, urlPkg{urls[t][0] + rest, fmt.Sprintf("pk%d", t), pkgs[t].sum})
			}
			ctx := quietCtx()
			switch c.Kind {
			case "index":
				must(a.SetRepositories(ctx, us))
				_, err = a.GetRepositoryIndexes(ctx, true)
			case "indexd":
				_, err = apk.GetRepositoryIndexes(ctx, us, nil, "x86_64", append(iopts, apk.WithIgnoreSignatures(true), apk.WithHTTPClient(net.client()))...)
			case "key":
				for i := range us {
					us[i] += rest
				}
				err = a.InitKeyring(ctx, us[:len(us)/2], us[len(us)/2:])
			case "fetch":
				for _, p := range ips {
					rc, ferr := a.FetchPackage(ctx, p)
					if ferr == nil {
						_, ferr = io.ReadAll(rc)
						rc.Close()
					}
					if ferr != nil {
						err = ferr
						errs = append(errs, errStr(ferr))
					}
				}
			case "install":
				err = a.InstallPackages(ctx, nil, ips)
			}
			if err != nil {
				errs = append(errs, errStr(err))
			}
		}
		leak := func(s string, secrets []string) bool {
			for _, x := range secrets {
				if strings.Contains(s, x) {
					return true
				}
			}
			return false
		}
		errleak, diskleak := "", ""
		for _, e := range errs {
			if leak(e, given) {
				errleak = e
			}
		}
		_ = filepath.WalkDir(filepath.Join(dir, "cache"), func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return nil
			}
			if leak(strings.TrimPrefix(p, dir), secrets) {
				diskleak = p
			}
			if d.Type().IsRegular() {
				if b, err := os.ReadFile(p); err == nil && leak(string(b), secrets) {
					diskleak = p
				}
			}
			return nil
		})
		mu.Lock()
		defer mu.Unlock()
		return map[string]any{"reqs": reqs, "errs": errs, "errleak": errleak, "diskleak": diskleak, "hdrleak": hdrleak}
	}
}
