package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"sync"
)

// simNet is the network: an http.RoundTripper whose origin is a function of the request.
type simReq struct {
	Method, Scheme, Host, Path, Query, Range string
	User, Pass                               string
	HasAuth                                  bool
	AuthRaw                                  string
	Seq                                      int
}

type simResp struct {
	status  int
	header  map[string]string
	body    []byte
	err     error       // transport error instead of a response
	cut     int         // >=0: the body fails after that many bytes
	cutErr  error       // with this error (default errCut)
	cutN    bool        // the failing Read also returns the last bytes
	chunk   int         // >0: at most that many bytes per Read
	chunked bool        // no Content-Length
	wait    <-chan bool // wait before answering (or for the request's cancellation)
	block   <-chan bool // wait inside the body, at the cut
	hook    func(n int) // called on every Read with the bytes so far
	ranges  bool        // honour Range
	close_  func()      // called when the body is closed
}

var errCut = errors.New("connection reset by peer")
var errRefused = errors.New("connection refused")

type simNet struct {
	mu     sync.Mutex
	log    []simReq
	handle func(n *simNet, r simReq, req *http.Request) simResp
}

func (n *simNet) client() *http.Client { return &http.Client{Transport: n} }

func (n *simNet) reqs() []simReq {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]simReq{}, n.log...)
}

type simBody struct {
	r     *http.Request
	s     simResp
	off   int
	end   int
	close bool
}

func (b *simBody) Read(p []byte) (int, error) {
	if err := b.r.Context().Err(); err != nil {
		return 0, err
	}
	if b.close {
		return 0, errors.New("http: read on closed response body")
	}
	if b.s.hook != nil {
		b.s.hook(b.off)
	}
	cutErr := b.s.cutErr
	if cutErr == nil {
		cutErr = errCut
	}
	limit := len(b.s.body)
	cutting := b.s.cut >= 0 && b.s.cut < limit
	if cutting {
		limit = b.s.cut
	}
	if len(p) == 0 {
		return 0, nil
	}
	if b.off >= limit {
		if cutting {
			if b.s.block != nil {
				select {
				case <-b.s.block:
				case <-b.r.Context().Done():
					return 0, b.r.Context().Err()
				}
			}
			return 0, cutErr
		}
		return 0, io.EOF
	}
	n := limit - b.off
	if n > len(p) {
		n = len(p)
	}
	if b.s.chunk > 0 && n > b.s.chunk {
		n = b.s.chunk
	}
	copy(p, b.s.body[b.off:b.off+n])
	b.off += n
	if b.off == limit && b.s.cutN {
		if cutting {
			return n, cutErr
		}
		return n, io.EOF
	}
	return n, nil
}

func (b *simBody) Close() error {
	if !b.close && b.s.close_ != nil {
		b.s.close_()
	}
	b.close = true
	return nil
}

func (n *simNet) RoundTrip(req *http.Request) (*http.Response, error) {
	r := simReq{Method: req.Method, Scheme: req.URL.Scheme, Host: req.URL.Host, Path: req.URL.Path, Query: req.URL.RawQuery, Range: req.Header.Get("Range"), AuthRaw: req.Header.Get("Authorization")}
	r.User, r.Pass, r.HasAuth = req.BasicAuth()
	n.mu.Lock()
	r.Seq = len(n.log)
	n.log = append(n.log, r)
	n.mu.Unlock()
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	s := n.handle(n, r, req)
	if s.wait != nil {
		select {
		case <-s.wait:
		case <-req.Context().Done():
			return nil, req.Context().Err()
		}
	}
	if s.err != nil {
		return nil, s.err
	}
	if s.status == 0 {
		s.status = 200
	}
	resp := &http.Response{Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req}
	for k, v := range s.header {
		resp.Header.Set(k, v)
	}
	if s.ranges && s.status == 200 && strings.HasPrefix(r.Range, "bytes=") {
		from, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(r.Range, "bytes="), "-"))
		if err == nil {
			if from >= len(s.body) {
				s.status = 416
				s.body = nil
			} else {
				resp.Header.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", from, len(s.body)-1, len(s.body)))
				s.body = s.body[from:]
				s.status = 206
			}
		}
	}
	resp.StatusCode = s.status
	resp.Status = fmt.Sprintf("%d %s", s.status, http.StatusText(s.status))
	resp.ContentLength = int64(len(s.body))
	if s.chunked {
		resp.ContentLength = -1
	} else {
		resp.Header.Set("Content-Length", strconv.Itoa(len(s.body)))
	}
	if req.Method == http.MethodHead {
		resp.Body = http.NoBody
		return resp, nil
	}
	resp.Body = &simBody{r: req, s: s}
	return resp, nil
}

func okBody(b []byte) simResp { return simResp{status: 200, body: b, cut: -1, ranges: true} }

var _ = bytes.NewReader
