package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

type tArch struct {
	Content int    `json:"content"`
	Signer  int    `json:"signer"`
	Covers  int    `json:"covers"`
	Shape   string `json:"shape"`
	Other   int    `json:"other"`
	How     int    `json:"how"` // damaged: position per mille; plain: naming of the signature entry
}

// contentIndex is index number i: one package p<i>, recognisable from what is returned.
func contentIndex(i int) []byte {
	return gz(rawTar(true, tent{name: "DESCRIPTION", body: []byte(fmt.Sprintf("d%d", i))},
		tent{name: "APKINDEX", body: []byte(fmt.Sprintf("C:Q1%s=\nP:p%d\nV:1.%d-r0\nA:x86_64\nS:1\nI:1\nT:index %d\n\n", strings.Repeat("A", 27), i, i, i))}))
}

func (a tArch) bytes() []byte {
	data := contentIndex(a.Content)
	if a.Signer == 0 && a.Shape == "plain" {
		return data
	}
	covers := data
	if a.Covers != a.Content {
		covers = contentIndex(a.Covers)
	}
	name := fmt.Sprintf("k%d.rsa.pub", a.Signer)
	switch a.How % 4 {
	case 1:
		name = "k1.rsa.pub"
	case 2:
		name = "unknown-key.rsa.pub"
	}
	signer := a.Signer
	if signer == 0 {
		signer = 1
	}
	sig := sigSection(covers, signer, name)
	switch a.Shape {
	case "plain":
		return append(sig, data...)
	case "inside":
		// the signature section itself carries another index
		sec := gunz(sig)
		extra := rawTar(a.How%3 != 0, tent{name: "DESCRIPTION", body: []byte("evil")}, tent{name: "APKINDEX", body: []byte(fmt.Sprintf("C:Q1%s=\nP:p%d\nV:1.%d-r0\nA:x86_64\n\n", strings.Repeat("A", 27), a.Other, a.Other))})
		return append(gz(append(sec, extra...)), data...)
	case "closed":
		// the signature section is a complete tar archive
		return append(gz(append(gunz(sig), make([]byte, 1024)...)), data...)
	case "append":
		return append(append(sig, data...), contentIndex(a.Other)...)
	case "front":
		return append(append(contentIndex(a.Other), sig...), data...)
	case "damaged":
		b := append(sig, data...)
		if a.How%2 == 0 {
			return b[:len(b)*(a.How%1000)/1000]
		}
		// change the signature or the data: any bit of the part after the gzip headers' free fields
		i := len(sig) + 10 + (a.How%1000)*(len(data)-11)/1000
		b[i] ^= 1 << (a.How % 8)
		return b
	}
	panic("shape " + a.Shape)
}

var trustSeq atomic.Int64

func init() {
	caseCmds["trust"] = func(raw json.RawMessage) any {
		var c struct {
			Archives []tArch `json:"archives"`
			Local    []bool  `json:"local"` // per url: a directory on disk
			Steps    []struct {
				Set []struct {
					U   int    `json:"u"`
					A   int    `json:"a"`
					Net string `json:"net"`
				} `json:"set"`
				Calls []struct {
					Urls   []int  `json:"urls"`
					Keys   []int  `json:"keys"`
					Fill   string `json:"fill"` // what the key names that hold no key contain: "" (not there), empty, junk, pem
					Rot    bool   `json:"rot"`  // every key under the name of another
					Nil    bool   `json:"nil"`
					Ignore bool   `json:"ignore"`
					Exempt []int  `json:"exempt"`
					Decoy  bool   `json:"decoy"` // exemptions for similar but different repositories
					Via    string `json:"via"`
					Cancel bool   `json:"cancel"`
					Tag    bool   `json:"tag"`
				} `json:"calls"`
			} `json:"steps"`
		}
		must(json.Unmarshal(raw, &c))
		id := trustSeq.Add(1)
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "trust-")
		must(err)
		defer os.RemoveAll(dir)
		blobs := make([][]byte, len(c.Archives))
		for i, a := range c.Archives {
			blobs[i] = a.bytes()
		}
		url := func(u int) string {
			if u-1 < len(c.Local) && c.Local[u-1] {
				return filepath.Join(dir, fmt.Sprintf("r%d", u))
			}
			return fmt.Sprintf("https://trust%d.example/r%d", id, u)
		}
		type st struct {
			a   int
			net string
		}
		var mu sync.Mutex
		cur := map[int]st{}
		var cancels sync.Map
		net := &simNet{}
		net.handle = func(_ *simNet, r simReq, req *http.Request) simResp {
			var u int
			fmt.Sscanf(r.Path, "/r%d/", &u)
			mu.Lock()
			s := cur[u]
			mu.Unlock()
			if r.Path != fmt.Sprintf("/r%d/x86_64/APKINDEX.tar.gz", u) || s.a == 0 {
				return simResp{status: 404}
			}
			resp := okBody(blobs[s.a-1])
			switch s.net {
			case "err":
				resp.err = errRefused
			case "404", "missing":
				return simResp{status: 404}
			case "500":
				return simResp{status: 500, body: blobs[s.a-1], cut: -1}
			case "cut":
				resp.cut = len(resp.body) / 3
			case "cancel":
				if f, ok := cancels.Load(req.Context().Value(cancelKey{})); ok {
					f.(context.CancelFunc)()
				}
				resp.cut = len(resp.body) / 2
			}
			return resp
		}
		mtime := time.Unix(1700000000, 0)
		var out []any
		for si, step := range c.Steps {
			for _, s := range step.Set {
				mu.Lock()
				cur[s.U] = st{s.A, s.Net}
				mu.Unlock()
				if s.U-1 < len(c.Local) && c.Local[s.U-1] {
					f := filepath.Join(url(s.U), "x86_64", "APKINDEX.tar.gz")
					must(os.RemoveAll(filepath.Dir(f)))
					if s.Net == "notdir" {
						must(os.MkdirAll(url(s.U), 0o755))
						must(os.WriteFile(filepath.Dir(f), nil, 0o644))
						continue
					}
					must(os.MkdirAll(filepath.Dir(f), 0o755))
					if s.Net == "loop" {
						must(os.Symlink(filepath.Base(f), f))
						continue
					}
					if s.Net != "missing" {
						must(os.WriteFile(f, blobs[s.A-1], 0o644))
						mtime = mtime.Add(time.Duration(si+1) * time.Second)
						must(os.Chtimes(f, mtime, mtime))
					}
				}
			}
			calls := make([]any, len(step.Calls))
			var wg sync.WaitGroup
			for ci, call := range step.Calls {
				ci, call := ci, call
				wg.Add(1)
				go func() {
					defer wg.Done()
					calls[ci] = runCase(func(json.RawMessage) any {
						ctx, cancel := context.WithCancel(context.WithValue(quietCtx(), cancelKey{}, [2]int{si, ci}))
						defer cancel()
						cancels.Store([2]int{si, ci}, cancel)
						if call.Cancel {
							cancel()
						}
						var repos, exempt []string
						for _, u := range call.Urls {
							r := url(u)
							if call.Tag {
								r = "@edge " + r
							}
							repos = append(repos, r)
						}
						for _, u := range call.Exempt {
							exempt = append(exempt, url(u))
						}
						if call.Decoy {
							for _, u := range call.Urls {
								if s := url(u); len(call.Exempt) == 0 {
									exempt = append(exempt, s[:len(s)-1], s+"/x86_64", s+"0", strings.ToUpper(s), s+"/", "@edge "+s, "")
								}
							}
						}
						keys := map[string][]byte{}
						for _, k := range call.Keys {
							n := k
							if call.Rot {
								n = k%3 + 1
							}
							keys[fmt.Sprintf("k%d.rsa.pub", n)] = pubBytes(k)
						}
						if b, ok := map[string]string{"empty": "", "junk": "not a key", "pem": "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n"}[call.Fill]; ok {
							for _, n := range []string{"k1.rsa.pub", "k2.rsa.pub", "k3.rsa.pub", "unknown-key.rsa.pub"} {
								if _, ok := keys[n]; !ok {
									keys[n] = []byte(b)
								}
							}
						}
						var ixs []apk.NamedIndex
						var err error
						if call.Via == "apk" {
							fsys := apkfs.NewMemFS()
							a, aerr := apk.New(apk.WithFS(fsys), apk.WithArch("x86_64"), apk.WithNoSignatureIndexes(exempt...))
							must(aerr)
							a.SetClient(net.client())
							must(fsys.MkdirAll("etc/apk/keys", 0o755))
							for n, b := range keys {
								must(fsys.WriteFile("etc/apk/keys/"+n, b, 0o644))
							}
							must(fsys.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
							must(a.SetRepositories(ctx, repos))
							ixs, err = a.GetRepositoryIndexes(ctx, call.Ignore)
						} else {
							if call.Nil {
								keys = nil
							}
							ixs, err = apk.GetRepositoryIndexes(ctx, repos, keys, "x86_64", apk.WithIgnoreSignatures(call.Ignore),
								apk.WithIgnoreSignatureForIndexes(exempt...), apk.WithHTTPClient(net.client()))
						}
						got := []any{}
						for _, ix := range ixs {
							n, u := 98, 0
							for _, w := range call.Urls {
								if ix.Source() == url(w)+"/x86_64/APKINDEX.tar.gz" {
									u = w
								}
							}
							if ps := ix.Packages(); len(ps) == 1 {
								if _, e := fmt.Sscanf(ps[0].Name, "p%d", &n); e != nil {
									n = 97
								}
							}
							got = append(got, map[string]any{"u": u, "content": n})
						}
						return map[string]any{"ok": err == nil, "err": errStr(err), "got": got}
					}, nil)
				}()
			}
			wg.Wait()
			out = append(out, calls)
		}
		return map[string]any{"steps": out}
	}
}

type cancelKey struct{}
