package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

// Histories of the cache for indexes and keys, one process at a time.
type hcEvent struct {
	E  string `json:"e"`
	C  int    `json:"c"`
	U  int    `json:"u"`
	M  string `json:"m"`
	O  string `json:"o"`
	V  int    `json:"v"`
	T  bool   `json:"t"`
	Ok bool   `json:"ok"`
	Bu int    `json:"bu"`
	Bv int    `json:"bv"`
	// for people
	Err string `json:"err"`
}

type hcPending struct {
	u    int
	m    string
	gate chan simResp
}

type hcRun struct {
	mu      sync.Mutex
	act     chan struct{} // something happened
	ev      []hcEvent
	pending []*hcPending
	org     []struct {
		V   int  `json:"v"`
		Tag bool `json:"tag"`
	}
	kind    string
	style   string
	size    int
	running int
	half    bool
}

func (h *hcRun) log(e hcEvent) { h.ev = append(h.ev, e) }

func (h *hcRun) poke() {
	select {
	case h.act <- struct{}{}:
	default:
	}
}

// settle waits until nothing has happened for a moment.
func (h *hcRun) settle(quiet time.Duration) {
	for {
		select {
		case <-h.act:
		case <-time.After(quiet):
			return
		}
	}
}

func hcBody(kind string, u, v, size int) []byte {
	if kind == "index" {
		name := fmt.Sprintf("p%dx%d", u, v)
		var s strings.Builder
		for i := 0; i < 1+size/200; i++ {
			fmt.Fprintf(&s, "C:Q1%s=\nP:%s\nV:1.%d-r0\nA:x86_64\nS:1\nI:1\nT:index %s\n\n", strings.Repeat("A", 27), name, i, name)
		}
		return gz(rawTar(true, tent{name: "DESCRIPTION", body: []byte(name)}, tent{name: "APKINDEX", body: []byte(s.String())}))
	}
	s := fmt.Appendf(nil, "body %d %d ", u, v)
	for len(s) < size {
		s = fmt.Appendf(s, "%d.%d.%d ", u, v, len(s))
	}
	return append(s, "end"...)
}

// Different versions have different tags.
func hcTag(style string, v int) string {
	switch style {
	case "weak":
		return fmt.Sprintf(`W/"t%d"`, v)
	case "dots":
		return []string{`".."`, `"."`, `"../../../t"`, `"../t"`}[v%4]
	case "slash":
		return []string{`"a/b"`, `"a%2Fb"`, `"a_b"`, `"a b"`}[v%4]
	case "case":
		return []string{`"abc"`, `"ABC"`, `"aBc"`, `"abc "`}[v%4]
	case "long":
		return `"` + strings.Repeat("x", 300) + fmt.Sprint(v) + `"`
	case "bare":
		return fmt.Sprintf("t%d", v)
	case "tmp":
		return []string{`"a.tmp"`, `"tmp"`, `".tmp"`, `"a"`}[v%4]
	case "abs":
		return []string{`"/etc/x"`, `"/"`, `"//"`, `"\\"`}[v%4]
	}
	return fmt.Sprintf(`"t%d"`, v)
}

func (h *hcRun) respond(p *hcPending, out string) {
	g := h.org[p.u-1]
	if h.kind == "index" && !g.Tag && (out == "cut" || out == "half") {
		out = "conn"
	}
	if p.m == "HEAD" && (out == "cut" || out == "half") {
		out = "conn"
	}
	h.log(hcEvent{E: "serve", U: p.u, M: p.m, O: out, V: g.V, T: g.Tag})
	r := okBody(hcBody(h.kind, p.u, g.V, h.size))
	r.header = map[string]string{}
	if g.Tag {
		r.header["Etag"] = hcTag(h.style, g.V)
	}
	switch out {
	case "ok":
	case "cut":
		r.cut = len(r.body) * g.V / 5
	case "half":
		r.cut = len(r.body) / 2
		r.block = make(chan bool)
		h.half = true
	case "conn":
		r = simResp{err: errRefused}
	default:
		var n int
		fmt.Sscan(out, &n)
		r.status = n
	}
	p.gate <- r
}

func init() {
	caseCmds["httpcache"] = func(raw json.RawMessage) any {
		var c struct {
			Id   string   `json:"id"`
			Dir  string   `json:"dir"`
			Kind string   `json:"kind"`
			Urls []string `json:"urls"`
			Org  []struct {
				V   int  `json:"v"`
				Tag bool `json:"tag"`
			} `json:"org"`
			Style string `json:"style"`
			Size  int    `json:"size"`
			Off   bool   `json:"off"`
			Drain bool   `json:"drain"`
			Steps []struct {
				A string `json:"a"`
				C int    `json:"c"`
				U int    `json:"u"`
				O string `json:"o"`
				V int    `json:"v"`
				T bool   `json:"t"`
			} `json:"steps"`
		}
		must(json.Unmarshal(raw, &c))
		h := &hcRun{org: c.Org, kind: c.Kind, style: c.Style, size: c.Size, act: make(chan struct{}, 1)}
		must(os.MkdirAll(c.Dir, 0o755))
		which := map[string]int{}
		for i, u := range c.Urls {
			if c.Kind == "index" {
				u += "/x86_64/APKINDEX.tar.gz"
			}
			req, err := http.NewRequest("GET", u, nil)
			must(err)
			req.URL.User = nil
			which[req.URL.String()] = i + 1
		}
		net := &simNet{}
		net.handle = func(_ *simNet, r simReq, req *http.Request) simResp {
			u2 := *req.URL
			u2.User = nil
			u := which[u2.String()]
			if u == 0 {
				return simResp{status: 418}
			}
			p := &hcPending{u: u, m: req.Method, gate: make(chan simResp, 1)}
			h.mu.Lock()
			h.pending = append(h.pending, p)
			h.mu.Unlock()
			h.poke()
			select {
			case r := <-p.gate:
				return r
			case <-req.Context().Done():
				h.mu.Lock()
				for i, q := range h.pending {
					if q == p {
						h.pending = append(h.pending[:i:i], h.pending[i+1:]...)
					}
				}
				h.mu.Unlock()
				return simResp{err: req.Context().Err()}
			}
		}
		cancels := map[int]context.CancelFunc{}
		gids := map[int]int{}
		var wg sync.WaitGroup
		start := func(cl, u int) {
			gid := len(cancels) + 1
			ctx, cancel := context.WithCancel(quietCtx())
			cancels[gid], gids[cl] = cancel, gid
			fsys := apkfs.NewMemFS()
			a, err := apk.New(apk.WithFS(fsys), apk.WithArch("x86_64"), apk.WithCache(c.Dir, c.Off))
			must(err)
			a.SetClient(net.client())
			must(fsys.MkdirAll("etc/apk/keys", 0o755))
			must(fsys.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
			h.mu.Lock()
			h.log(hcEvent{E: "start", C: gid, U: u})
			h.running++
			h.mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				e := hcEvent{E: "end", C: gid, U: u}
				res := runCase(func(json.RawMessage) any {
					if c.Kind == "index" {
						err = a.SetRepositories(ctx, []string{c.Urls[u-1]})
						must(err)
						var ixs []apk.NamedIndex
						ixs, err = a.GetRepositoryIndexes(ctx, true)
						if err == nil && len(ixs) == 1 {
							ps := ixs[0].Packages()
							for i, p := range ps {
								var bu, bv int
								fmt.Sscanf(p.Name, "p%dx%d", &bu, &bv)
								if i == 0 {
									e.Bu, e.Bv = bu, bv
								}
								if bu != e.Bu || bv != e.Bv || len(ps) != 1+c.Size/200 {
									e.Bu, e.Bv = 0, 0
									break
								}
							}
						}
					} else {
						err = a.InitKeyring(ctx, []string{c.Urls[u-1]}, nil)
						if err == nil {
							des, derr := fsys.ReadDir("etc/apk/keys")
							must(derr)
							if len(des) == 1 {
								b, rerr := fsys.ReadFile(filepath.Join("etc/apk/keys", des[0].Name()))
								must(rerr)
								fmt.Sscanf(string(b), "body %d %d ", &e.Bu, &e.Bv)
								if string(b) != string(hcBody("key", e.Bu, e.Bv, c.Size)) {
									e.Bu, e.Bv = 0, 0
								}
							}
						}
					}
					return nil
				}, nil)
				if res != nil {
					err = fmt.Errorf("%v", res)
					e.Bu = -1
				}
				e.Ok, e.Err = err == nil, errStr(err)
				h.mu.Lock()
				h.log(e)
				h.running--
				h.mu.Unlock()
				h.poke()
			}()
			h.settle(4 * time.Millisecond)
		}
		serve := func(u int, out string, wait time.Duration) bool {
			for end := time.Now().Add(wait); ; {
				h.mu.Lock()
				for i, p := range h.pending {
					if p.u == u || u == 0 {
						h.pending = append(h.pending[:i:i], h.pending[i+1:]...)
						h.respond(p, out)
						h.mu.Unlock()
						h.settle(4 * time.Millisecond)
						return true
					}
				}
				h.mu.Unlock()
				if !time.Now().Before(end) {
					return false
				}
				select {
				case <-h.act:
				case <-time.After(2 * time.Millisecond):
				}
			}
		}
		cancel := func(gid int) {
			if f := cancels[gid]; f != nil {
				h.mu.Lock()
				h.log(hcEvent{E: "cancel", C: gid})
				h.mu.Unlock()
				f()
				h.settle(4 * time.Millisecond)
			}
		}
		for _, s := range c.Steps {
			switch s.A {
			case "start":
				start(s.C, s.U)
			case "serve":
				serve(s.U, s.O, 20*time.Millisecond)
			case "cancel":
				cancel(gids[s.C])
			case "change":
				h.mu.Lock()
				h.org[s.U-1].V, h.org[s.U-1].Tag = s.V, s.T
				h.mu.Unlock()
			case "clean":
				h.mu.Lock()
				h.log(hcEvent{E: "clean"})
				h.mu.Unlock()
				des, err := os.ReadDir(c.Dir)
				must(err)
				for _, d := range des {
					os.RemoveAll(filepath.Join(c.Dir, d.Name()))
				}
				h.mu.Lock()
				h.log(hcEvent{E: "clean"})
				h.mu.Unlock()
			}
		}
		hang := false
		if c.Drain {
			deadline := time.Now().Add(40 * time.Second)
			idle := 0
			for {
				h.mu.Lock()
				n, half := h.running, h.half
				h.mu.Unlock()
				if n == 0 {
					break
				}
				if serve(0, "ok", 5*time.Millisecond) {
					idle = 0
					continue
				}
				if idle++; idle > 10 && half {
					for g := range cancels {
						cancel(g)
					}
				}
				if time.Now().After(deadline) {
					hang = true
					break
				}
			}
		}
		h.mu.Lock()
		defer h.mu.Unlock()
		out := append([]hcEvent{}, h.ev...)
		org := append(c.Org[:0:0], h.org...)
		h.ev = nil
		return map[string]any{"ev": out, "org": org, "hang": hang}
	}
}
