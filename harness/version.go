package main

import (
	"context"
	"encoding/json"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

type versionCase struct {
	Kind    string   `json:"kind"`
	S       string   `json:"s"`
	A       string   `json:"a"`
	B       []string `json:"b"`
	Have    []string `json:"have"`
	Request string   `json:"request"`
}

func init() {
	caseCmds["version"] = func(raw json.RawMessage) any {
		var c versionCase
		must(json.Unmarshal(raw, &c))
		switch c.Kind {
		case "parse":
			_, err := apk.ParseVersion(c.S)
			return map[string]any{"accepted": err == nil}
		case "cmp":
			a, err := apk.ParseVersion(c.A)
			if err != nil {
				return map[string]any{"cmp": []int{}, "err": err.Error()}
			}
			res := make([]int, 0, len(c.B))
			for _, s := range c.B {
				b, err := apk.ParseVersion(s)
				if err != nil {
					res = append(res, 99)
					continue
				}
				res = append(res, apk.CompareVersions(a, b))
			}
			return map[string]any{"cmp": res}
		case "select":
			idx := &apk.APKIndex{}
			for _, v := range c.Have {
				idx.Packages = append(idx.Packages, &apk.Package{Name: "p", Version: v, Arch: "x86_64"})
			}
			repo := apk.Repository{URI: "https://r.example/x86_64"}
			res := apk.NewPkgResolver(context.Background(), []apk.NamedIndex{apk.NewNamedRepositoryWithIndex("", repo.WithIndex(idx))})
			pkgs, err := res.ResolvePackage(c.Request, map[*apk.RepositoryPackage]string{})
			got := []string{}
			for _, p := range pkgs {
				got = append(got, p.Version)
			}
			return map[string]any{"got": got, "err": errStr(err)}
		}
		return nil
	}
}
