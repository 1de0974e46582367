package main

import (
	"encoding/json"
	"io/fs"
	"strconv"
	"strings"
	"sync/atomic"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"github.com/chainguard-dev/go-apk/pkg/passwd"
)

type pwEntry struct {
	Name    string   `json:"name"`
	Pw      string   `json:"pw"`
	UID     string   `json:"uid,omitempty"`
	GID     string   `json:"gid"`
	Info    string   `json:"info"`
	Home    string   `json:"home"`
	Shell   string   `json:"shell"`
	Members []string `json:"members"`
}

func u32(s string) uint32 {
	n, err := strconv.ParseUint(s, 10, 32)
	must(err)
	return uint32(n)
}

func toLines(b []byte) []string {
	s := string(b)
	if s == "" {
		return []string{}
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

// pwFS is a rootFS whose files opened for reading and writing can also fail to be read.
type pwFS struct{ rootFS }

type pwFile struct {
	apkfs.File
	f rootFS
}

func (h pwFile) Read(b []byte) (int, error) {
	if h.f.hit() {
		return 0, errRootIO
	}
	return h.File.Read(b)
}

func (f pwFS) OpenFile(p string, flag int, m fs.FileMode) (apkfs.File, error) {
	h, err := f.rootFS.OpenFile(p, flag, m)
	if err != nil {
		return nil, err
	}
	return pwFile{h, f.rootFS}, nil
}

func init() {
	caseCmds["passwd"] = func(raw json.RawMessage) any {
		var c struct {
			Group  bool     `json:"group"`
			Lines  []string `json:"lines"`
			NoNL   bool     `json:"nonl"`
			Create bool     `json:"create"`
			Phase  string   `json:"phase"` // load, write: its Fault-th filesystem operation fails
			Fault  int64    `json:"fault"`
			Edits  []struct {
				Op string  `json:"op"`
				I  int     `json:"i"`
				E  pwEntry `json:"e"`
			} `json:"edits"`
		}
		must(json.Unmarshal(raw, &c))
		mem := apkfs.NewMemFS()
		fsys := pwFS{rootFS{mem, &atomic.Int64{}, &atomic.Bool{}}}
		phase := func(s string) {
			fsys.left.Store(1 << 40)
			if s != "" && s == c.Phase {
				fsys.left.Store(c.Fault)
			}
		}
		phase("")
		must(fsys.MkdirAll("etc", 0o755))
		text := strings.Join(c.Lines, "\n")
		if !c.NoNL && len(c.Lines) > 0 {
			text += "\n"
		}
		const f = "etc/file"
		if !(c.Create && len(c.Lines) == 0) {
			must(mem.WriteFile(f, []byte(text), 0o644))
		}
		users := func(es []passwd.UserEntry) any {
			out := []map[string]any{}
			for _, e := range es {
				out = append(out, map[string]any{"name": e.UserName, "pw": e.Password, "uid": strconv.FormatUint(uint64(e.UID), 10), "gid": strconv.FormatUint(uint64(e.GID), 10),
					"info": e.Info, "home": e.HomeDir, "shell": e.Shell})
			}
			return out
		}
		groups := func(es []passwd.GroupEntry) any {
			out := []map[string]any{}
			for _, e := range es {
				out = append(out, map[string]any{"name": e.GroupName, "pw": e.Password, "gid": strconv.FormatUint(uint64(e.GID), 10), "members": nn(e.Members)})
			}
			return out
		}
		// the same entry, parsed into again and again
		reuse := []map[string]any{}
		var ge passwd.GroupEntry
		var ue passwd.UserEntry
		for _, l := range c.Lines {
			var x any
			var err error
			if c.Group {
				err = ge.Parse(l)
				x = groups([]passwd.GroupEntry{ge})
			} else {
				err = ue.Parse(l)
				x = users([]passwd.UserEntry{ue})
			}
			reuse = append(reuse, map[string]any{"ok": err == nil, "e": x})
		}
		fired := func() bool { return fsys.fired.Swap(false) }
		res := map[string]any{"lfired": false, "wfired": false, "reuse": reuse, "ok": false, "loaded": []int{}, "wok": false, "written": []string{}, "rok": false, "again": []int{}}
		if c.Group {
			read := func() (passwd.GroupFile, error) {
				if c.Create {
					return passwd.ReadOrCreateGroupFile(fsys, f)
				}
				return passwd.ReadGroupFile(fsys, f)
			}
			phase("load")
			gf, err := read()
			res["lfired"] = fired()
			phase("")
			if err != nil {
				res["err"] = errStr(err)
				return res
			}
			res["ok"], res["loaded"] = true, groups(gf.Entries)
			for _, o := range c.Edits {
				e := passwd.GroupEntry{}
				if o.Op != "del" {
					e = passwd.GroupEntry{GroupName: o.E.Name, Password: o.E.Pw, GID: u32(o.E.GID), Members: o.E.Members}
				}
				switch o.Op {
				case "append":
					gf.Entries = append(gf.Entries, e)
				case "set":
					gf.Entries[o.I-1] = e
				case "del":
					gf.Entries = append(gf.Entries[:o.I-1], gf.Entries[o.I:]...)
				}
			}
			phase("write")
			err = gf.WriteFile(fsys, f)
			res["wok"], res["wfired"] = err == nil, fired()
			phase("")
			b, _ := mem.ReadFile(f)
			res["written"] = toLines(b)
			if gf, err = read(); err == nil {
				res["rok"], res["again"] = true, groups(gf.Entries)
			}
			return res
		}
		read := func() (passwd.UserFile, error) {
			if c.Create {
				return passwd.ReadOrCreateUserFile(fsys, f)
			}
			return passwd.ReadUserFile(fsys, f)
		}
		phase("load")
		uf, err := read()
		res["lfired"] = fired()
		phase("")
		if err != nil {
			res["err"] = errStr(err)
			return res
		}
		res["ok"], res["loaded"] = true, users(uf.Entries)
		for _, o := range c.Edits {
			e := passwd.UserEntry{}
			if o.Op != "del" {
				e = passwd.UserEntry{UserName: o.E.Name, Password: o.E.Pw, UID: u32(o.E.UID), GID: u32(o.E.GID), Info: o.E.Info, HomeDir: o.E.Home, Shell: o.E.Shell}
			}
			switch o.Op {
			case "append":
				uf.Entries = append(uf.Entries, e)
			case "set":
				uf.Entries[o.I-1] = e
			case "del":
				uf.Entries = append(uf.Entries[:o.I-1], uf.Entries[o.I:]...)
			}
		}
		phase("write")
		err = uf.WriteFile(f)
		res["wok"], res["wfired"] = err == nil, fired()
		phase("")
		b, _ := mem.ReadFile(f)
		res["written"] = toLines(b)
		if uf, err = read(); err == nil {
			res["rok"], res["again"] = true, users(uf.Entries)
		}
		return res
	}
}
