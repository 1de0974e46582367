package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io/fs"
	"net/http"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

// One installation by one process.
type pcInstall struct {
	Pk     []int  `json:"pk"`
	Serve  []int  `json:"serve"` // what the origin has for each of them: a package, -1 nothing
	Down   bool   `json:"down"`
	Off    bool   `json:"off"`
	Objs   int    `json:"objs"`  // that many APK objects at a time
	Fault  string `json:"fault"` // none, kill, bytes, cap, capign, cancel, cut
	Sys    string `json:"sys"`
	N      int    `json:"n"`
	Dir    int    `json:"dir"`
	Layout string `json:"layout"` // of the root: mem, dir
}

type pcPkg struct {
	P   instPkg `json:"p"`
	URL string  `json:"url"`
	Sum string  `json:"sum"` // filled in by the harness
	Pro bool    `json:"pro"` // the index promises a checksum
}

// pcJob is what a child does: installations one after the other.
type pcJob struct {
	Scratch string      `json:"scratch"`
	Dirs    []string    `json:"dirs"`
	Pkgs    []pcPkg     `json:"pkgs"`
	Do      []pcInstall `json:"do"`
}

type pcGot struct {
	Err   string   `json:"err"`
	Parts []string `json:"parts"` // digests of root, database, scripts, triggers of every object
	Reqs  int      `json:"reqs"`
}

func pcDigest(f apkfs.FullFS, base string) string {
	var es []fsEntry
	var bad string
	if base != "" {
		es, bad = diskView(base)
		for i := range es {
			es[i].UID, es[i].GID = 0, 0
		}
	} else {
		es, bad = fsView(f)
	}
	if bad != "" {
		return "unreadable: " + bad
	}
	h := sha256.New()
	for _, e := range es {
		if e.K == "dir" && e.P == "." {
			continue
		}
		b, err := json.Marshal([]any{e.P, e.K, e.Perm, e.Data, e.Tg})
		must(err)
		h.Write(b)
	}
	for _, n := range []string{"lib/apk/db/installed", "lib/apk/db/scripts.tar", "lib/apk/db/triggers"} {
		b, err := f.ReadFile(n)
		fmt.Fprintf(h, "%s %v %d %x", n, err, len(b), sha256.Sum256(b))
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

func pcRoot(layout, scratch string) (apkfs.FullFS, string) {
	var f apkfs.FullFS = apkfs.NewMemFS()
	base := ""
	if layout == "dir" {
		var err error
		base, err = os.MkdirTemp(scratch, "root-")
		must(err)
		f = apkfs.DirFS(base)
	}
	for _, d := range []string{"lib", "lib/apk", "lib/apk/db"} {
		must(f.Mkdir(d, 0o755))
	}
	must(f.WriteFile("lib/apk/db/installed", nil, 0o644))
	must(f.WriteFile("lib/apk/db/scripts.tar", make([]byte, 1024), 0o644))
	must(f.WriteFile("lib/apk/db/triggers", nil, 0o644))
	return f, base
}

// pcDo does one installation; cacheDir "" means without a cache.
func pcDo(j pcJob, in pcInstall, cacheDir string) pcGot {
	var served atomic.Int64
	ctx, cancel := context.WithCancel(quietCtx())
	defer cancel()
	sim := &simNet{handle: func(_ *simNet, r simReq, _ *http.Request) simResp {
		if in.Down {
			return simResp{err: errRefused}
		}
		for k, i := range in.Pk {
			if "https://"+r.Host+r.Path != j.Pkgs[i].URL {
				continue
			}
			s := i
			if k < len(in.Serve) {
				s = in.Serve[k]
			}
			if s < 0 {
				break
			}
			b, err := os.ReadFile(filepath.Join(j.Scratch, fmt.Sprintf("apk-%d", s)))
			must(err)
			x := okBody(b)
			last := 0
			x.chunk = 700
			x.hook = func(off int) {
				if off > last {
					served.Add(int64(off - last))
					last = off
				}
				if int(served.Load()) >= in.N {
					switch in.Fault {
					case "bytes":
						syscall.Kill(os.Getpid(), syscall.SIGKILL)
						select {}
					case "cancel":
						cancel()
					}
				}
			}
			if in.Fault == "cut" {
				x.cut, x.ranges = min(in.N, len(b)), false
			}
			return x
		}
		return simResp{status: 404, cut: -1}
	}}
	pkgs := []apk.InstallablePackage{}
	for _, i := range in.Pk {
		sum := j.Pkgs[i].Sum
		if !j.Pkgs[i].Pro {
			sum = ""
		}
		pkgs = append(pkgs, urlPkg{j.Pkgs[i].URL, j.Pkgs[i].P.Name, sum})
	}
	g := pcGot{Parts: make([]string, max(1, in.Objs))}
	errs := make([]error, len(g.Parts))
	var wg sync.WaitGroup
	for o := range g.Parts {
		wg.Add(1)
		go func() {
			// (not deferred: a panic must not let the others print a result)
			f, base := pcRoot(in.Layout, j.Scratch)
			opts := []apk.Option{apk.WithFS(f), apk.WithArch("x86_64")}
			if cacheDir != "" {
				opts = append(opts, apk.WithCache(cacheDir, in.Off))
			}
			a, err := apk.New(opts...)
			must(err)
			a.SetClient(sim.client())
			if err := a.InstallPackages(ctx, nil, pkgs); err != nil {
				errs[o] = err
			} else {
				g.Parts[o] = pcDigest(f, base)
			}
			if base != "" {
				os.RemoveAll(base)
			}
			wg.Done()
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil && g.Err == "" {
			g.Err = errStr(e)
		}
	}
	g.Reqs = len(sim.reqs())
	return g
}

type pcOut struct {
	Dir   string   `json:"dir"`
	Want  []string `json:"want"`
	Found []string `json:"found"`
	Up    bool     `json:"up"`
	Fault bool     `json:"fault"`
	Ok    bool     `json:"ok"`
	Same  bool     `json:"same"`
	Hang  bool     `json:"hang"`
	Died  string   `json:"died"`
	Msg   string   `json:"msg"`
	Reqs  int      `json:"reqs"`
}

type pcStep struct {
	Clean []string `json:"clean"`
	Runs  []pcOut  `json:"runs"`
}

var pcSeq atomic.Int64

func init() {
	// pkgcache-run JOBFILE: installs in a process of its own, one JSON line per installation
	subCmds["pkgcache-run"] = func(args []string) int {
		b, err := os.ReadFile(args[0])
		must(err)
		var j pcJob
		must(json.Unmarshal(b, &j))
		if f := j.Do[0].Fault; f == "cap" || f == "capign" {
			if f == "capign" {
				signal.Ignore(syscall.SIGXFSZ)
			}
			n := uint64(j.Do[0].N)
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}))
		}
		for _, in := range j.Do {
			out, err := json.Marshal(pcDo(j, in, j.Dirs[in.Dir]))
			must(err)
			fmt.Fprintln(os.Stdout, string(out))
		}
		return 0
	}
	caseCmds["pkgcache"] = func(raw json.RawMessage) any {
		var c struct {
			Pkgs  []pcPkg `json:"pkgs"`
			Dirs  int     `json:"dirs"`
			Steps []struct {
				Clean []int         `json:"clean"` // directories to take files from
				How   string        `json:"how"`   // which: all, tar, some
				Seed  int           `json:"seed"`
				Kids  [][]pcInstall `json:"kids"` // processes beside each other, each with installations in a row
			} `json:"steps"`
		}
		must(json.Unmarshal(raw, &c))
		scratch, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "pc-")
		must(err)
		defer os.RemoveAll(scratch)
		j := pcJob{Scratch: scratch, Pkgs: c.Pkgs}
		for i := range j.Pkgs {
			b := j.Pkgs[i].P.build()
			j.Pkgs[i].Sum = b.sum
			must(os.WriteFile(filepath.Join(scratch, fmt.Sprintf("apk-%d", i)), b.all(), 0o644))
		}
		for i := 0; i < c.Dirs; i++ {
			d := filepath.Join(scratch, fmt.Sprintf("cache%d", i))
			if i%2 == 0 {
				must(os.Mkdir(d, 0o755))
			} // otherwise the code makes it
			j.Dirs = append(j.Dirs, d)
		}
		refs := map[string]pcGot{}
		ref := func(in pcInstall) pcGot {
			// without a promise, what is served is what is to be installed
			x := pcInstall{Layout: "mem", N: -1}
			for k, i := range in.Pk {
				if !c.Pkgs[i].Pro && k < len(in.Serve) && in.Serve[k] >= 0 {
					i = in.Serve[k]
				}
				x.Pk = append(x.Pk, i)
				x.Serve = append(x.Serve, i)
			}
			key := fmt.Sprint(x.Pk)
			if g, ok := refs[key]; ok {
				return g
			}
			jj := j
			jj.Pkgs = append([]pcPkg{}, j.Pkgs...)
			g := pcDo(jj, x, "")
			if g.Err != "" {
				panic("cannot be installed without a cache: " + g.Err)
			}
			refs[key] = g
			return g
		}
		self, _ := os.Executable()
		steps := []pcStep{}
		jobs := 0
		for _, s := range c.Steps {
			st := pcStep{Clean: []string{}, Runs: []pcOut{}}
			for _, d := range s.Clean {
				if pcClean(j.Dirs[d], s.How, s.Seed) {
					st.Clean = append(st.Clean, strconv.Itoa(d))
				}
			}
			outs := make([][]pcOut, len(s.Kids))
			var wg sync.WaitGroup
			for ki, do := range s.Kids {
				jobs++
				jf := filepath.Join(scratch, fmt.Sprintf("job-%d", jobs))
				jj := j
				jj.Do = do
				b, err := json.Marshal(jj)
				must(err)
				must(os.WriteFile(jf, b, 0o644))
				wg.Add(1)
				go func() {
					defer wg.Done()
					args := []string{self, "pkgcache-run", jf}
					if f := do[0]; f.Fault == "kill" {
						args = append([]string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + f.Sys, "-e", fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", f.Sys, f.N)}, args...)
					}
					cctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
					defer cancel()
					cmd := exec.CommandContext(cctx, args[0], args[1:]...)
					var so, se bytes.Buffer
					cmd.Stdout, cmd.Stderr = &so, &se
					err := cmd.Run()
					died := ""
					if err != nil {
						died = err.Error()
					}
					lines := strings.Split(strings.TrimSpace(so.String()), "\n")
					for n, in := range do {
						o := pcOut{Dir: strconv.Itoa(in.Dir), Want: []string{}, Found: []string{}, Up: !in.Down && !in.Off, Fault: do[0].Fault != "none"}
						for k, i := range in.Pk {
							w := fmt.Sprint(c.Pkgs[i].URL, " ", i)
							o.Want = append(o.Want, w)
							if c.Pkgs[i].Pro && !c.Pkgs[i].P.Nohash {
								o.Found = append(o.Found, w)
							}
							if k < len(in.Serve) && (in.Serve[k] < 0 || (in.Serve[k] != i && c.Pkgs[i].Pro)) {
								o.Up = false
							}
						}
						var g pcGot
						if n < len(lines) && json.Unmarshal([]byte(lines[n]), &g) == nil {
							o.Ok, o.Msg, o.Reqs = g.Err == "", g.Err, g.Reqs
							want := ref0(&refMu, ref, in)
							o.Same = true
							for _, p := range g.Parts {
								if o.Ok && (p != want.Parts[0]) {
									o.Same = false
									o.Msg = fmt.Sprintf("digest %s, without a cache %s", p, want.Parts[0])
								}
							}
						} else {
							o.Died = died
							o.Hang = errors.Is(cctx.Err(), context.DeadlineExceeded)
							o.Msg = first(se.String())
						}
						outs[ki] = append(outs[ki], o)
					}
				}()
			}
			wg.Wait()
			// installations of one process are steps of their own
			if len(outs) == 1 {
				for n, o := range outs[0] {
					x := st
					if n > 0 {
						x.Clean = []string{}
					}
					x.Runs = []pcOut{o}
					steps = append(steps, x)
				}
				continue
			}
			for _, os := range outs {
				st.Runs = append(st.Runs, os...)
			}
			steps = append(steps, st)
		}
		runtime.KeepAlive(refs)
		return map[string]any{"steps": steps}
	}
}

var refMu sync.Mutex

func ref0(mu *sync.Mutex, f func(pcInstall) pcGot, in pcInstall) pcGot {
	mu.Lock()
	defer mu.Unlock()
	return f(in)
}

func first(s string) string {
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

// pcClean takes files from a cache directory. Signatures stay: nothing tells that a package had one.
// It reports whether anything went that cannot be made again from the rest.
func pcClean(dir, how string, seed int) bool {
	lost := false
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || strings.Contains(p, ".sig.") {
			return nil
		}
		tar := strings.HasSuffix(p, ".dat.tar")
		h := fnv.New32a()
		fmt.Fprint(h, seed, filepath.Base(p))
		switch how {
		case "tar":
			if !tar {
				return nil
			}
		case "some":
			if h.Sum32()%2 == 0 {
				return nil
			}
		case "all":
		}
		must(os.Remove(p))
		lost = lost || !tar
		return nil
	})
	if err != nil && !os.IsNotExist(err) {
		panic(err)
	}
	return lost
}
