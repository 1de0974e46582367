package main

import (
	"encoding/json"
	"fmt"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

type resPkg struct {
	ID   int      `json:"id"`
	Name string   `json:"name"`
	Ver  string   `json:"ver"`
	Prov []string `json:"prov"`
	Deps []string `json:"deps"`
	Org  string   `json:"org"`
	Prio int      `json:"prio"`
	Iif  []string `json:"iif"`
}

type resCase struct {
	Indexes []struct {
		Tag  string   `json:"tag"`
		Pkgs []resPkg `json:"pkgs"`
	} `json:"indexes"`
	Runs []struct {
		World   []string `json:"world"`
		Resolve string   `json:"resolve"`
		Fresh   bool     `json:"fresh"`
		Perm    [][]int  `json:"perm"` // order of the packages inside each index
	} `json:"runs"`
}

func init() {
	caseCmds["resolve"] = func(raw json.RawMessage) any {
		var c resCase
		must(json.Unmarshal(raw, &c))
		ctx := quietCtx()
		ids := map[*apk.Package]int{}
		var res *apk.PkgResolver
		build := func(perm [][]int) *apk.PkgResolver {
			var named []apk.NamedIndex
			for i, ix := range c.Indexes {
				idx := &apk.APKIndex{}
				for k := range ix.Pkgs {
					if perm != nil {
						k = perm[i][k]
					}
					p := ix.Pkgs[k]
					ap := &apk.Package{Name: p.Name, Version: p.Ver, Arch: "x86_64", Origin: p.Org, Provides: p.Prov,
						Dependencies: p.Deps, ProviderPriority: uint64(p.Prio), InstallIf: p.Iif}
					ids[ap] = p.ID
					idx.Packages = append(idx.Packages, ap)
				}
				repo := apk.Repository{URI: fmt.Sprintf("https://r%d.example/x86_64", i)}
				named = append(named, apk.NewNamedRepositoryWithIndex(ix.Tag, repo.WithIndex(idx)))
			}
			return apk.NewPkgResolver(ctx, named)
		}
		out := []any{}
		for _, r := range c.Runs {
			if res == nil || r.Fresh || r.Perm != nil {
				res = build(r.Perm)
			}
			var pkgs []*apk.RepositoryPackage
			var err error
			if r.Resolve != "" {
				pkgs, err = res.ResolvePackage(r.Resolve, map[*apk.RepositoryPackage]string{})
			} else {
				pkgs, _, err = res.GetPackagesWithDependencies(ctx, append([]string{}, r.World...))
			}
			got := []int{}
			if err == nil {
				for _, p := range pkgs {
					got = append(got, ids[p.Package])
				}
			}
			out = append(out, map[string]any{"ok": err == nil, "ids": got, "err": errStr(err)})
		}
		return map[string]any{"runs": out}
	}
}
