package main

import (
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

type syncBuild struct {
	P    instPkg `json:"p"`
	Repo int     `json:"repo"`
	Arch string  `json:"arch"`
	Deps string  `json:"deps"`
	Prov string  `json:"prov"`
	Prio int     `json:"prio"`
}

var syncSeq atomic.Int64

func init() {
	caseCmds["sync"] = func(raw json.RawMessage) any {
		var c struct {
			Repos []struct {
				Local bool   `json:"local"`
				Tag   string `json:"tag"`
			} `json:"repos"`
			Builds []syncBuild `json:"builds"`
			Cache  bool        `json:"cache"`
			Mode   string      `json:"mode"`
			Arch   string      `json:"arch"`
			Steps  []struct {
				Pub    []int          `json:"pub"` // builds offered now
				Repos  []int          `json:"repos"`
				World  []string       `json:"world"`
				Fault  map[string]int `json:"fault"`  // build -> what is served instead: another build, -1 nothing, -2 half of it, -3 an error
				Down   []int          `json:"down"`   // repositories without an index
				Reopen bool           `json:"reopen"` // a new APK object
				Order  string         `json:"order"`
			} `json:"steps"`
		}
		must(json.Unmarshal(raw, &c))
		id := syncSeq.Add(1)
		scratch, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "sync-")
		must(err)
		defer os.RemoveAll(scratch)
		built := make([]builtApk, len(c.Builds))
		bySum := map[string]int{}
		for i, b := range c.Builds {
			built[i] = b.P.build()
			bySum[built[i].sum] = i + 1
		}
		repoURL := func(r int) string {
			if c.Repos[r].Local {
				return filepath.Join(scratch, fmt.Sprintf("r%d", r))
			}
			return fmt.Sprintf("https://sync%d.example/r%d", id, r)
		}
		fileOf := func(i int) string { return fmt.Sprintf("%s-%s.apk", c.Builds[i].P.Name, c.Builds[i].P.Ver) }
		index := func(r int, pub []int) []byte {
			var s strings.Builder
			for _, i := range pub {
				b := c.Builds[i-1]
				if b.Repo != r {
					continue
				}
				fmt.Fprintf(&s, "C:%s\nP:%s\nV:%s\nA:%s\nS:%d\nI:77\nT:t\n", built[i-1].sum, b.P.Name, b.P.Ver, b.Arch, len(built[i-1].all()))
				if b.P.Org != "" {
					fmt.Fprintf(&s, "o:%s\n", b.P.Org)
				}
				if b.Deps != "" {
					fmt.Fprintf(&s, "D:%s\n", b.Deps)
				}
				if b.Prov != "" {
					fmt.Fprintf(&s, "p:%s\n", b.Prov)
				}
				if b.Prio != 0 {
					fmt.Fprintf(&s, "k:%d\n", b.Prio)
				}
				s.WriteString("\n")
			}
			data := gz(rawTar(true, tent{name: "DESCRIPTION", body: []byte("d")}, tent{name: "APKINDEX", body: []byte(s.String())}))
			return append(sigSection(data, 1, "k1.rsa.pub"), data...)
		}
		// what is served as build i (from 0); nil: nothing
		serve := func(fault map[string]int, i int) (b []byte, srv int) {
			f, ok := fault[fmt.Sprint(i+1)]
			switch {
			case !ok:
				return built[i].all(), i + 1
			case f > 0:
				return built[f-1].all(), f
			case f == -2:
				b := built[i].all()
				return b[:len(b)-len(built[i].dat)/2], i + 1
			}
			return nil, 0
		}
		var mu sync.Mutex
		cur, opened, closed := 0, 0, 0
		var reqs []int
		sim := &simNet{handle: func(_ *simNet, r simReq, _ *http.Request) simResp {
			mu.Lock()
			defer mu.Unlock()
			st := c.Steps[cur]
			var s simResp
			for k := range c.Repos {
				dir := fmt.Sprintf("/r%d/%s/", k, c.Arch)
				if c.Repos[k].Local || !strings.HasPrefix(r.Path, dir) {
					continue
				}
				name := strings.TrimPrefix(r.Path, dir)
				if name == "APKINDEX.tar.gz" {
					for _, d := range st.Down {
						if d == k {
							return simResp{status: 404, cut: -1}
						}
					}
					s = okBody(index(k, st.Pub))
				}
				for _, i := range st.Pub {
					if c.Builds[i-1].Repo == k && fileOf(i-1) == name {
						if r.Method == http.MethodGet {
							reqs = append(reqs, i)
						}
						b, _ := serve(st.Fault, i-1)
						switch st.Fault[fmt.Sprint(i)] {
						case -1:
							return simResp{status: 404, cut: -1}
						case -3:
							return simResp{err: errRefused}
						}
						s = okBody(b)
					}
				}
			}
			if s.status == 0 {
				reqs = append(reqs, 0)
				return simResp{status: 404, cut: -1}
			}
			if r.Method == http.MethodGet {
				opened++
				s.close_ = func() { mu.Lock(); closed++; mu.Unlock() }
			}
			sum := sha1.Sum(s.body)
			s.header = map[string]string{"ETag": fmt.Sprintf("\"%x\"", sum[:8])}
			return s
		}}
		base := ""
		var f apkfs.FullFS = apkfs.NewMemFS()
		if c.Mode == "dir" {
			base = filepath.Join(scratch, "root")
			must(os.Mkdir(base, 0o755))
			f = apkfs.DirFS(base)
		}
		view := func() string {
			var es []fsEntry
			var bad string
			if base != "" {
				es, bad = diskView(base)
			} else {
				es, bad = fsView(f)
			}
			for i := range es { // the lists are set by the case
				if strings.HasPrefix(es[i].P, "etc/apk/") {
					es[i].Data = nil
				}
			}
			return bad + js(es)
		}
		newAPK := func() *apk.APK {
			if base != "" {
				f = apkfs.DirFS(base)
			}
			opts := []apk.Option{apk.WithFS(f), apk.WithArch(c.Arch), apk.WithIgnoreMknodErrors(true)}
			if c.Cache {
				opts = append(opts, apk.WithCache(filepath.Join(scratch, "cache"), false))
			}
			a, err := apk.New(opts...)
			must(err)
			a.SetClient(sim.client())
			return a
		}
		a := newAPK()
		must(a.InitDB(quietCtx()))
		must(f.MkdirAll("etc/apk/keys", 0o755))
		must(f.WriteFile("etc/apk/keys/k1.rsa.pub", pubBytes(1), 0o644))
		idb := func() []int {
			ids := []int{}
			b, err := f.ReadFile("lib/apk/db/installed")
			if err != nil {
				return []int{0}
			}
			for _, blk := range strings.Split(string(b), "\n\n") {
				var n, v, s string
				for _, l := range strings.Split(blk, "\n") {
					switch {
					case strings.HasPrefix(l, "P:"):
						n = l[2:]
					case strings.HasPrefix(l, "V:"):
						v = l[2:]
					case strings.HasPrefix(l, "C:"):
						s = l[2:]
					}
				}
				if n == "" && strings.TrimSpace(blk) == "" {
					continue
				}
				if i := bySum[s]; i > 0 && c.Builds[i-1].P.Name == n && c.Builds[i-1].P.Ver == v {
					ids = append(ids, i)
				} else {
					ids = append(ids, 0)
				}
			}
			return ids
		}
		ident := func(p *apk.RepositoryPackage) int {
			i := bySum[p.ChecksumString()]
			if i == 0 {
				return 0
			}
			b := c.Builds[i-1]
			if p.URL() != fmt.Sprintf("%s/%s/%s", repoURL(b.Repo), c.Arch, fileOf(i-1)) || p.Name != b.P.Name || p.Version != b.P.Ver {
				return 0
			}
			return i
		}
		mtime := time.Unix(1700000000, 0)
		var out []any
		for si, st := range c.Steps {
			mu.Lock()
			cur, opened, closed, reqs = si, 0, 0, nil
			mu.Unlock()
			mtime = mtime.Add(time.Second)
			for k := range c.Repos {
				if !c.Repos[k].Local {
					continue
				}
				dir := filepath.Join(repoURL(k), c.Arch)
				must(os.RemoveAll(dir))
				must(os.MkdirAll(dir, 0o755))
				x := filepath.Join(dir, "APKINDEX.tar.gz")
				must(os.WriteFile(x, index(k, st.Pub), 0o644))
				must(os.Chtimes(x, mtime, mtime))
				for _, i := range st.Pub {
					if c.Builds[i-1].Repo == k {
						if b, _ := serve(st.Fault, i-1); b != nil {
							must(os.WriteFile(filepath.Join(dir, fileOf(i-1)), b, 0o644))
						}
					}
				}
			}
			if st.Reopen {
				a = newAPK()
			}
			var lines []string
			for _, k := range st.Repos {
				l := repoURL(k)
				if c.Repos[k].Tag != "" {
					l = "@" + c.Repos[k].Tag + " " + l
				}
				lines = append(lines, l)
			}
			if err := a.SetRepositories(quietCtx(), lines); err != nil {
				return map[string]any{"setup": err.Error()}
			}
			if err := a.SetWorld(quietCtx(), st.World); err != nil {
				return map[string]any{"setup": err.Error()}
			}
			o := map[string]any{"before": idb(), "clean": true}
			start := view()
			var res []*apk.RepositoryPackage
			for _, op := range st.Order {
				v := view()
				switch op {
				case 'r':
					ps, _, err := a.ResolveWorld(quietCtx())
					if res = ps; err != nil {
						res = nil
					}
					ids := []int{}
					for _, p := range ps {
						if err == nil {
							ids = append(ids, ident(p))
						}
					}
					o["rok"], o["rerr"], o["res"] = err == nil, errStr(err), ids
				case 'c', 'C':
					var rs []*apk.APKResolved
					var err error
					if op == 'C' && res != nil {
						rs, err = a.CalculateWorld(quietCtx(), res)
					} else {
						rs, err = a.ResolveAndCalculateWorld(quietCtx())
					}
					ids := []int{}
					for _, r := range rs {
						n := 0
						if r != nil && r.Package != nil {
							n = ident(r.Package)
						}
						if n > 0 {
							_, srv := serve(st.Fault, n-1)
							if srv == 0 {
								n = 0
							} else {
								b := built[srv-1]
								cs, ds := sha1.Sum(b.ctl), sha256.Sum256(b.dat)
								if base64.StdEncoding.EncodeToString(r.ControlHash) != base64.StdEncoding.EncodeToString(cs[:]) || string(r.DataHash) != string(ds[:]) ||
									r.ControlSize != len(b.sig)+len(b.ctl) || r.SignatureSize != len(b.sig) {
									n = 0
								}
							}
						}
						ids = append(ids, n)
					}
					o["cok"], o["cerr"], o["calc"] = err == nil, errStr(err), ids
				case 'f':
					mu.Lock()
					reqs = nil
					mu.Unlock()
					err := a.FixateWorld(quietCtx(), nil)
					o["fok"], o["ferr"], o["after"] = err == nil, errStr(err), idb()
					mu.Lock()
					rq := map[int]bool{}
					for _, i := range reqs {
						rq[i] = true
					}
					mu.Unlock()
					l := []int{}
					for i := range rq {
						l = append(l, i)
					}
					sort.Ints(l)
					o["reqs"] = l
					o["same"] = view() == start
					// the files, in the order of the database
					fs := []int{}
					for _, i := range o["after"].([]int) {
						n := 0
						if i > 0 {
							b, err := f.ReadFile("usr/share/" + c.Builds[i-1].P.Name)
							if err == nil && string(b) == c.Builds[i-1].P.Es[len(c.Builds[i-1].P.Es)-1].C {
								n = i
							}
						}
						fs = append(fs, n)
					}
					o["files"] = fs
					// what is there besides
					extra := []string{}
					des, _ := f.ReadDir("usr/share")
					for _, de := range des {
						if !slices.ContainsFunc(o["after"].([]int), func(i int) bool { return i > 0 && c.Builds[i-1].P.Name == de.Name() }) {
							extra = append(extra, de.Name())
						}
					}
					o["extra"] = extra
				}
				if op != 'f' && view() != v {
					o["clean"] = false
				}
			}
			mu.Lock()
			o["open"] = opened - closed
			mu.Unlock()
			out = append(out, o)
		}
		return map[string]any{"steps": out}
	}
}
