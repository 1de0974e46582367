package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

// urlPkg is an apk.InstallablePackage.
type urlPkg struct {
	u, name, sum string
}

func (p urlPkg) URL() string            { return p.u }
func (p urlPkg) PackageName() string    { return p.name }
func (p urlPkg) ChecksumString() string { return p.sum }
func (p urlPkg) String() string         { return p.name }

type rangeAns struct {
	Kind string `json:"kind"`
	Cut  int    `json:"cut"` // the body fails after that many blocks (more than the size: never)
}

type rangeReq struct {
	At   int    `json:"at"`
	From int    `json:"from"`
	Kind string `json:"kind"`
	Cut  int    `json:"cut"`
}

var rangeSeq atomic.Int64

func init() {
	caseCmds["range"] = func(raw json.RawMessage) any {
		var c struct {
			Via     string     `json:"via"` // pkg, index
			TCP     bool       `json:"tcp"`
			Cache   bool       `json:"cache"`
			N       int        `json:"n"`     // blocks
			Block   int        `json:"block"` // bytes per block
			Answers []rangeAns `json:"answers"`
			Then    string     `json:"then"` // answers after those: full, range
			Buf     []int      `json:"buf"`  // sizes of the reads, repeated
			CutN    bool       `json:"cutn"`
			Chunk   int        `json:"chunk"`
			Chunked bool       `json:"chunked"`
			NoCR    bool       `json:"nocr"`   // 206 answers do not declare their range (never with wrong)
			Cancel  int        `json:"cancel"` // cancel when that many bytes were delivered (-1 never)
		}
		must(json.Unmarshal(raw, &c))
		size := c.N * c.Block
		res := make([]byte, size)
		for i := range res {
			res[i] = byte(i*7 + i>>8*13 + 1)
		}
		if c.Via == "index" {
			res = contentIndex(c.N)
			size = len(res)
			c.Block = (size + c.N - 1) / c.N
		}
		var mu sync.Mutex
		var delivered atomic.Int64
		reqs := []rangeReq{}
		// what the server does with request number k that asks for "from"
		plan := func(from int, auth string) (kind string, start, end, cut int, status int) {
			mu.Lock()
			defer mu.Unlock()
			a := rangeAns{Kind: c.Then, Cut: 1 << 20}
			if len(reqs) < len(c.Answers) {
				a = c.Answers[len(reqs)]
			}
			if from == 0 && (a.Kind == "range" || a.Kind == "wrong" || a.Kind == "short") {
				a.Kind = "full"
			}
			cut = a.Cut * c.Block
			start, end, status = 0, size, 200
			switch a.Kind {
			case "full":
				if cut >= size {
					cut = -1
				}
			case "range", "short":
				start, status = from, 206
				if from >= size {
					a.Kind, status, cut = "status", 416, -1
					break
				}
				if a.Kind == "short" {
					end = from + (size-from+1)/2
					cut = -1
				} else if start+cut >= size {
					cut = -1
				}
			case "wrong":
				start, status, cut = (from+c.Block)%size, 206, -1
				if d := from*10 + a.Cut%10; a.Cut%2 == 0 && d < size {
					start = d // its number starts like the right one
				}
				if start == from {
					start = (from + 1) % size
				}
			case "stub": // all of something shorter than what was delivered before
				cut = -1
				if from > 0 {
					end = from / 2
				} else {
					a.Kind = "full"
				}
			case "status":
				status = 503
			}
			q := rangeReq{At: int(delivered.Load()), From: from, Kind: a.Kind, Cut: cut}
			if cut < 0 {
				q.Cut = size
			}
			reqs = append(reqs, q)
			return a.Kind, start, end, cut, status
		}
		from := func(h string) int {
			if !strings.HasPrefix(h, "bytes=") {
				if h != "" {
					return -1
				}
				return 0
			}
			n, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(h, "bytes="), "-"))
			if err != nil {
				return -1
			}
			return n
		}
		var client *http.Client
		host := fmt.Sprintf("http://range%d.example", rangeSeq.Add(1))
		if c.TCP {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			must(err)
			srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				kind, start, end, cut, status := plan(from(r.Header.Get("Range")), "")
				if kind == "refused" {
					panic(http.ErrAbortHandler)
				}
				if kind == "status" {
					w.WriteHeader(status)
					return
				}
				if status == 206 && !c.NoCR {
					w.Header().Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", start, end-1, size))
				}
				if !c.Chunked {
					w.Header().Set("Content-Length", strconv.Itoa(end-start))
				}
				w.WriteHeader(status)
				b := res[start:end]
				if cut >= 0 {
					b = b[:cut]
				}
				w.Write(b)
				if cut >= 0 {
					w.(http.Flusher).Flush()
					panic(http.ErrAbortHandler)
				}
			})}
			srv.ErrorLog = nil
			srv.ErrorLog = quietLog()
			go srv.Serve(l)
			defer srv.Close()
			host = fmt.Sprintf("http://%s/u%d", l.Addr(), rangeSeq.Add(1)) // ports are reused, the index cache is not
			tr := &http.Transport{DisableKeepAlives: true, DisableCompression: true}
			defer tr.CloseIdleConnections()
			client = &http.Client{Transport: tr}
		} else {
			n := &simNet{}
			n.handle = func(_ *simNet, r simReq, req *http.Request) simResp {
				kind, start, end, cut, status := plan(from(r.Range), "")
				s := simResp{status: status, cut: cut, cutN: c.CutN, chunk: c.Chunk, chunked: c.Chunked}
				switch kind {
				case "refused":
					s.err = errRefused
					return s
				case "status":
					s.cut = -1
					s.body = []byte("sorry")
				default:
					s.body = res[start:end]
					if status == 206 && !c.NoCR {
						s.header = map[string]string{"Content-Range": fmt.Sprintf("bytes %d-%d/%d", start, end-1, size)}
					}
				}
				return s
			}
			client = n.client()
		}
		ctx, cancel := context.WithCancel(quietCtx())
		defer cancel()
		opts := []apk.Option{apk.WithFS(apkfs.NewMemFS()), apk.WithArch("x86_64")}
		if c.Cache {
			dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "range-")
			must(err)
			defer os.RemoveAll(dir)
			opts = append(opts, apk.WithCache(dir, false))
		}
		out := map[string]any{"size": size, "cancelled": false, "prefix": true}
		nreads, total, end, prefix := 0, 0, "", true
		errText := ""
		if c.Via == "index" {
			ixs, err := apk.GetRepositoryIndexes(ctx, []string{host}, nil, "x86_64", apk.WithIgnoreSignatures(true), apk.WithHTTPClient(client))
			nreads = 1 << 20
			errText = errStr(err)
			if err != nil {
				end = "error"
			} else {
				end, total = "eof", size
				prefix = len(ixs) == 1 && ixs[0].Count() == 1 && ixs[0].Packages()[0].Name == fmt.Sprintf("p%d", c.N)
			}
			for i := range reqs { // how much was read is not visible here
				reqs[i].At = max(reqs[i].From, 0)
			}
		} else {
			a, err := apk.New(opts...)
			must(err)
			a.SetClient(client)
			rc, err := a.FetchPackage(ctx, urlPkg{u: host + "/x86_64/p-1.0-r0.apk", name: "p", sum: "Q1AAAAAAAAAAAAAAAAAAAAAAAAAAA="})
			if err != nil {
				end, errText = "error", errStr(err)
			} else {
				got := make([]byte, 0, size)
				for k := 0; end == "" && nreads < 4*size+100; k++ {
					if c.Cancel >= 0 && total >= c.Cancel {
						cancel()
						out["cancelled"] = true
					}
					buf := make([]byte, c.Buf[k%len(c.Buf)])
					n, err := rc.Read(buf)
					nreads++
					got = append(got, buf[:n]...)
					total += n
					delivered.Store(int64(total))
					if err == io.EOF {
						end = "eof"
					} else if err != nil {
						end, errText = "error", errStr(err)
					}
				}
				prefix = total <= size && bytes.Equal(got, res[:total])
				rc.Close()
			}
		}
		if end == "" {
			end = "endless"
		}
		mu.Lock()
		defer mu.Unlock()
		out["reqs"], out["nreads"], out["total"], out["end"], out["prefix"], out["err"] = reqs, nreads, total, end, prefix, errText
		return out
	}
}
