From 007c01307d00ebcd8ade459c82994d5b43f34953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 01/55] fix: resolve worlds that contain exclusions (!name)

Exclusions are honoured by disqualifying packages, but they were then also
looked up as packages to install, so any world with one failed to resolve.
---
 pkg/apk/repo.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index b70f1af..3f4dbe1 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -433,6 +433,11 @@ func (p *PkgResolver) constrain(constraints []string, dq map[*RepositoryPackage]
 	return nil
 }
 
+// isExclusion reports whether a constraint excludes packages (!name) rather than requiring one.
+func isExclusion(constraint string) bool {
+	return strings.HasPrefix(constraint, "!")
+}
+
 // GetPackagesWithDependencies get all of the dependencies for the given packages based on the
 // indexes. Does not filter for installed already or not.
 func (p *PkgResolver) GetPackagesWithDependencies(ctx context.Context, packages []string) (toInstall []*RepositoryPackage, conflicts []string, err error) {
@@ -454,6 +459,9 @@ func (p *PkgResolver) GetPackagesWithDependencies(ctx context.Context, packages
 		return nil, nil, fmt.Errorf("constraining initial packages: %w", err)
 	}
 
+	// Exclusions (!name) only disqualify packages, there is nothing to install for them.
+	constraints = slices.DeleteFunc(constraints, isExclusion)
+
 	for len(constraints) != 0 {
 		next, err := p.nextPackage(constraints, dq)
 		if err != nil {
@@ -478,6 +486,9 @@ func (p *PkgResolver) GetPackagesWithDependencies(ctx context.Context, packages
 
 	// now get the dependencies for each package
 	for _, pkgName := range packages {
+		if isExclusion(pkgName) {
+			continue
+		}
 		pkg, deps, confs, err := p.GetPackageWithDependencies(pkgName, dependenciesMap, dq)
 		if err != nil {
 			return toInstall, nil, &ConstraintError{pkgName, err}
-- 
2.43.0


From f35051279edc76ae93335e467767085046c98dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 02/55] fix: make install_if packages deterministic and resolve
 their dependencies

The set of install_if packages depended on map iteration order, their own
dependencies were never installed, and disqualified packages or packages from
tagged repositories could be picked.
---
 pkg/apk/repo.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 3f4dbe1..d429837 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -553,7 +553,11 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 		}
 	}
 	// are there any installIf dependencies?
-	for dep, depPkg := range added {
+	// Walk the growing list rather than the map, so that packages added here are considered as triggers
+	// as well and the result does not depend on map order.
+	for i := 0; i < len(dependencies); i++ {
+		depPkg := dependencies[i]
+		dep := depPkg.Name
 		depPkgList, ok := p.installIfMap[dep]
 		if !ok {
 			depPkgList, ok = p.installIfMap[fmt.Sprintf("%s=%s", dep, depPkg.Version)]
@@ -563,6 +567,12 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 		}
 		// this package "dep" can trigger an installIf. It might not be enough, so check it
 		for _, installIfPkg := range depPkgList {
+			if _, dqed := dq[installIfPkg.RepositoryPackage]; dqed {
+				continue
+			}
+			if installIfPkg.pinnedName != "" && installIfPkg.pinnedName != pin {
+				continue
+			}
 			var matchCount int
 			for _, subDep := range installIfPkg.InstallIf {
 				// two possibilities: package name, or name=version
@@ -582,8 +592,21 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 			if matchCount == len(installIfPkg.InstallIf) {
 				// all dependencies are met, so add it
 				if _, ok := added[installIfPkg.Name]; !ok {
-					dependencies = append(dependencies, installIfPkg.RepositoryPackage)
-					added[installIfPkg.Name] = installIfPkg.RepositoryPackage
+					// It needs its own dependencies as well. If they cannot be had, do not install it.
+					installIfDQ := maps.Clone(dq)
+					p.disqualifyConflicts(installIfPkg.RepositoryPackage, installIfDQ)
+					subDeps, confs, err := p.getPackageDependencies(installIfPkg.RepositoryPackage, pin, true, parents, localExisting, existingOrigins, installIfDQ)
+					if err != nil {
+						continue
+					}
+					maps.Copy(dq, installIfDQ)
+					conflicts = append(conflicts, confs...)
+					for _, add := range append(subDeps, installIfPkg.RepositoryPackage) {
+						if _, ok := added[add.Name]; !ok {
+							dependencies = append(dependencies, add)
+							added[add.Name] = add
+						}
+					}
 				}
 			}
 		}
-- 
2.43.0


From 8ef7dfbfd1481dcc01088768e3e8ec86d96fa68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 03/55] fix: report an error instead of returning an
 unsatisfied package set

The solver is greedy: a dependency or exclusion it meets only after choosing a
package could contradict that choice. The later candidate was then dropped
because a package of that name was already selected, and a set violating the
dependency was returned as a solution.
---
 pkg/apk/repo.go | 80 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 80 insertions(+)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index d429837..02d32fa 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -514,9 +514,89 @@ func (p *PkgResolver) GetPackagesWithDependencies(ctx context.Context, packages
 
 	conflicts = uniqify(conflicts)
 
+	if err := p.verifySolution(packages, toInstall); err != nil {
+		return nil, nil, err
+	}
+
 	return toInstall, conflicts, nil
 }
 
+// verifySolution checks that the packages in solution satisfy all the requested constraints and all of
+// their own dependencies. The solver is greedy and never revisits a choice, so a constraint it only sees
+// after choosing a package may rule that package out again.
+func (p *PkgResolver) verifySolution(constraints []string, solution []*RepositoryPackage) error {
+	byName := make(map[string][]*RepositoryPackage, len(solution))
+	for _, pkg := range solution {
+		names := []string{pkg.Name}
+		for _, prov := range pkg.Provides {
+			names = append(names, p.resolvePackageNameVersionPin(prov).name)
+		}
+		for _, name := range uniqify(names) {
+			byName[name] = append(byName[name], pkg)
+		}
+	}
+
+	check := func(constraint string, self *RepositoryPackage) error {
+		exclusion := isExclusion(constraint)
+		parsed := p.resolvePackageNameVersionPin(strings.TrimPrefix(constraint, "!"))
+		for _, pkg := range byName[parsed.name] {
+			if !p.satisfiesConstraint(pkg, parsed) {
+				continue
+			}
+			if !exclusion {
+				return nil
+			}
+			if pkg != self {
+				return &ConstraintError{constraint, fmt.Errorf("excludes selected package %s", pkg.Filename())}
+			}
+		}
+		if !exclusion {
+			return &ConstraintError{constraint, errors.New("not satisfied by the selected packages")}
+		}
+		return nil
+	}
+
+	for _, constraint := range constraints {
+		if err := check(constraint, nil); err != nil {
+			return err
+		}
+	}
+	for _, pkg := range solution {
+		for _, dep := range pkg.Dependencies {
+			if err := check(dep, pkg); err != nil {
+				return &DepError{pkg, err}
+			}
+		}
+	}
+	return nil
+}
+
+// satisfiesConstraint reports whether pkg, by its name or by something it provides, satisfies the constraint.
+func (p *PkgResolver) satisfiesConstraint(pkg *RepositoryPackage, constraint parsedConstraint) bool {
+	satisfies := func(version string) bool {
+		if constraint.dep == versionAny {
+			return true
+		}
+		required, err := p.parseVersion(constraint.version)
+		if err != nil {
+			return false
+		}
+		actual, err := p.parseVersion(version)
+		return err == nil && constraint.dep.satisfies(actual, required)
+	}
+
+	if pkg.Name == constraint.name && satisfies(pkg.Version) {
+		return true
+	}
+	for _, prov := range pkg.Provides {
+		provided := p.resolvePackageNameVersionPin(prov)
+		if provided.name == constraint.name && satisfies(provided.version) {
+			return true
+		}
+	}
+	return false
+}
+
 // GetPackageWithDependencies get all of the dependencies for a single package as well as looking
 // up the package itself and resolving its version, based on the indexes.
 // Requires the existing set because the logic for resolving dependencies between competing
-- 
2.43.0


From a201c6623b9c42bb41c2ac1e783d41be95bf2ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 04/55] fix: compare a versioned request only with versions of
 the requested name

---
 pkg/apk/repo.go    |  7 ++++---
 pkg/apk/version.go | 43 ++++++++++++++++++++++++++++++++-----------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 02d32fa..a9db345 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -295,7 +295,7 @@ func (p *PkgResolver) disqualifyProviders(constraint string, dq map[*RepositoryP
 		return
 	}
 
-	conflicting := p.filterPackages(providers, dq, withVersion(parsed.version, parsed.dep), withPreferPin(parsed.pin))
+	conflicting := p.filterPackages(providers, dq, withName(parsed.name), withVersion(parsed.version, parsed.dep), withPreferPin(parsed.pin))
 
 	for _, conflict := range conflicting {
 		if _, dqed := dq[conflict.RepositoryPackage]; dqed {
@@ -708,7 +708,7 @@ func (p *PkgResolver) ResolvePackage(pkgName string, dq map[*RepositoryPackage]s
 
 	// pkgsWithVersions contains a map of all versions of the package
 	// get the one that most matches what was requested
-	packages := p.filterPackages(pkgsWithVersions, dq, withVersion(version, compare), withPreferPin(pin))
+	packages := p.filterPackages(pkgsWithVersions, dq, withName(name), withVersion(version, compare), withPreferPin(pin))
 	if len(packages) == 0 {
 		return nil, maybedqerror(pkgName, pkgsWithVersions, dq)
 	}
@@ -735,7 +735,7 @@ func (p *PkgResolver) resolvePackage(pkgName string, dq map[*RepositoryPackage]s
 
 	// pkgsWithVersions contains a map of all versions of the package
 	// get the one that most matches what was requested
-	packages := p.filterPackages(pkgsWithVersions, dq, withVersion(version, compare), withPreferPin(pin))
+	packages := p.filterPackages(pkgsWithVersions, dq, withName(name), withVersion(version, compare), withPreferPin(pin))
 	if len(packages) == 0 {
 		return nil, maybedqerror(pkgName, pkgsWithVersions, dq)
 	}
@@ -840,6 +840,7 @@ func (p *PkgResolver) getPackageDependencies(pkg *RepositoryPackage, allowPin st
 			// get the one that most matches what was requested
 			pkgs := p.filterPackages(depPkgWithVersions,
 				dq,
+				withName(name),
 				withVersion(version, compare),
 				withAllowPin(allowPin),
 				withInstalledPackage(existing[name]),
diff --git a/pkg/apk/version.go b/pkg/apk/version.go
index 089d8a3..a7a2f7a 100644
--- a/pkg/apk/version.go
+++ b/pkg/apk/version.go
@@ -398,6 +398,7 @@ func resolvePackageNameVersionPin(pkgName string) parsedConstraint {
 type filterOptions struct {
 	allowPin  string
 	preferPin string
+	name      string
 	version   string
 	installed *RepositoryPackage
 	compare   versionDependency
@@ -421,12 +422,28 @@ func withVersion(version string, compare versionDependency) filterOption {
 		o.compare = compare
 	}
 }
+
+// withName restricts the version comparison to the versions under which a package offers that name.
+func withName(name string) filterOption {
+	return func(o *filterOptions) {
+		o.name = name
+	}
+}
 func withInstalledPackage(pkg *RepositoryPackage) filterOption {
 	return func(o *filterOptions) {
 		o.installed = pkg
 	}
 }
 
+func (p *PkgResolver) providesUnversioned(pkg *repositoryPackage, name string) bool {
+	for _, prov := range pkg.Provides {
+		if provided := p.resolvePackageNameVersionPin(prov); provided.name == name && provided.version == "" {
+			return true
+		}
+	}
+	return false
+}
+
 func (p *PkgResolver) filterPackages(pkgs []*repositoryPackage, dq map[*RepositoryPackage]string, opts ...filterOption) []*repositoryPackage {
 	o := &filterOptions{
 		compare: versionAny,
@@ -467,24 +484,28 @@ func (p *PkgResolver) filterPackages(pkgs []*repositoryPackage, dq map[*Reposito
 			return nil
 		}
 
-		actualVersion, err := p.parseVersion(pkg.Version)
-		// skip invalid ones
-		if err != nil {
-			continue
-		}
+		// The package's own version only counts if the package itself was asked for, or if it provides
+		// what was asked for without saying under which version.
+		if o.name == "" || pkg.Name == o.name || p.providesUnversioned(pkg, o.name) {
+			actualVersion, err := p.parseVersion(pkg.Version)
+			// skip invalid ones
+			if err != nil {
+				continue
+			}
 
-		if o.compare.satisfies(actualVersion, requiredVersion) {
-			passed = append(passed, pkg)
-			continue
+			if o.compare.satisfies(actualVersion, requiredVersion) {
+				passed = append(passed, pkg)
+				continue
+			}
 		}
 
 		for _, prov := range pkg.Provides {
-			version := p.resolvePackageNameVersionPin(prov).version
-			if version == "" {
+			provided := p.resolvePackageNameVersionPin(prov)
+			if provided.version == "" || (o.name != "" && provided.name != o.name) {
 				continue
 			}
 
-			actualVersion, err = p.parseVersion(version)
+			actualVersion, err := p.parseVersion(provided.version)
 			// again, we skip invalid ones
 			if err != nil {
 				continue
-- 
2.43.0


From 21abd7d3301f02363b1cb2278a7c4692e8337819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 05/55] fix: do not let the order of an index decide between
 install_if packages or equal candidates

---
 pkg/apk/repo.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index a9db345..eee48b4 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -252,6 +252,10 @@ func NewPkgResolver(_ context.Context, indexes []NamedIndex) *PkgResolver {
 			}
 		}
 	}
+	// several packages may be triggered by the same one, take the preferred ones first
+	for _, pkgs := range installIfMap {
+		p.sortPackages(pkgs, nil, "", nil, nil, "")
+	}
 	p.nameMap = pkgNameMap
 	p.installIfMap = installIfMap
 	return p
@@ -945,7 +949,7 @@ func (p *PkgResolver) resolvePackageNameVersionPin(pkgName string) parsedConstra
 // are named "a", but others that provided "a". In that case, we should look not at the
 // version of the package, but the version of "a" that the package provides.
 func (p *PkgResolver) sortPackages(pkgs []*repositoryPackage, compare *RepositoryPackage, name string, existing map[string]*RepositoryPackage, existingOrigins map[string]bool, pin string) {
-	slices.SortFunc(pkgs, p.comparePackages(compare, name, existing, existingOrigins, pin))
+	slices.SortStableFunc(pkgs, p.comparePackages(compare, name, existing, existingOrigins, pin))
 }
 
 func (p *PkgResolver) comparePackages(compare *RepositoryPackage, name string, existing map[string]*RepositoryPackage, existingOrigins map[string]bool, pin string) func(a, b *repositoryPackage) int { //nolint:gocyclo
-- 
2.43.0


From 8260a9e7a2a1d8c7f39e956e1257b00e4fa875a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:16 +0000
Subject: [PATCH 06/55] fix: index parser: no panic on one-character lines,
 keep a last package without a final empty line

---
 pkg/apk/apkindex.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/apkindex.go b/pkg/apk/apkindex.go
index 36fc91c..400062d 100644
--- a/pkg/apk/apkindex.go
+++ b/pkg/apk/apkindex.go
@@ -120,7 +120,7 @@ func ParsePackageIndex(apkIndexUnpacked io.Reader) ([]*Package, error) {
 			continue
 		}
 
-		if len(line) > 1 && line[1:2] != ":" {
+		if len(line) < 2 || line[1:2] != ":" {
 			return nil, fmt.Errorf("cannot parse line %d: expected \":\" in not found", linenr)
 		}
 
@@ -190,8 +190,16 @@ func ParsePackageIndex(apkIndexUnpacked io.Reader) ([]*Package, error) {
 
 		linenr++
 	}
+	if err := indexScanner.Err(); err != nil {
+		return nil, err
+	}
+
+	// the last package may not be followed by an empty line
+	if pkg.Name != "" {
+		packages = append(packages, pkg)
+	}
 
-	return packages, indexScanner.Err()
+	return packages, nil
 }
 
 func IndexFromArchive(archive io.ReadCloser) (*APKIndex, error) {
-- 
2.43.0


From b3707e7902d59e42f8857154e5fae647afe9fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:18 +0000
Subject: [PATCH 07/55] fix: write install_if of index entries as a list of
 words

---
 pkg/apk/apkindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apk/apkindex.go b/pkg/apk/apkindex.go
index 400062d..1f5de84 100644
--- a/pkg/apk/apkindex.go
+++ b/pkg/apk/apkindex.go
@@ -62,7 +62,7 @@ var apkIndexTemplate = template.Must(template.New(apkIndexFilename).Funcs(
 		D:{{join .Dependencies}}
 		{{- end}}
 		{{- if .InstallIf}}
-		i:{{.InstallIf}}
+		i:{{join .InstallIf}}
 		{{- end}}
 		{{- if .Provides}}
 		p:{{join .Provides}}
-- 
2.43.0


From 44fedf0c51db5b727c12f84d187230260fdbf130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 08/55] fix: reject passwd and group ids that do not fit
 instead of turning them into other ids

---
 pkg/passwd/group.go  | 2 +-
 pkg/passwd/passwd.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/passwd/group.go b/pkg/passwd/group.go
index 5021f4d..ba0f93e 100644
--- a/pkg/passwd/group.go
+++ b/pkg/passwd/group.go
@@ -129,7 +129,7 @@ func (ge *GroupEntry) Parse(line string) error {
 	ge.GroupName = parts[0]
 	ge.Password = parts[1]
 
-	gid, err := strconv.Atoi(parts[2])
+	gid, err := strconv.ParseUint(parts[2], 10, 32)
 	if err != nil {
 		return fmt.Errorf("failed to parse UID %s", parts[2])
 	}
diff --git a/pkg/passwd/passwd.go b/pkg/passwd/passwd.go
index 0a4a667..1481a23 100644
--- a/pkg/passwd/passwd.go
+++ b/pkg/passwd/passwd.go
@@ -133,13 +133,13 @@ func (ue *UserEntry) Parse(line string) error {
 	ue.UserName = parts[0]
 	ue.Password = parts[1]
 
-	uid, err := strconv.Atoi(parts[2])
+	uid, err := strconv.ParseUint(parts[2], 10, 32)
 	if err != nil {
 		return fmt.Errorf("failed to parse UID %s", parts[2])
 	}
 	ue.UID = uint32(uid)
 
-	gid, err := strconv.Atoi(parts[3])
+	gid, err := strconv.ParseUint(parts[3], 10, 32)
 	if err != nil {
 		return fmt.Errorf("failed to parse GID %s", parts[3])
 	}
-- 
2.43.0


From 1c179e1477d1000a2d36278250c6e94a9ef4052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 09/55] fix: a group without members has no members rather than
 one with an empty name

---
 pkg/passwd/group.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/passwd/group.go b/pkg/passwd/group.go
index ba0f93e..b4bfb0b 100644
--- a/pkg/passwd/group.go
+++ b/pkg/passwd/group.go
@@ -135,7 +135,10 @@ func (ge *GroupEntry) Parse(line string) error {
 	}
 	ge.GID = uint32(gid)
 
-	ge.Members = strings.Split(parts[3], ",")
+	ge.Members = nil
+	if parts[3] != "" {
+		ge.Members = strings.Split(parts[3], ",")
+	}
 
 	return nil
 }
-- 
2.43.0


From 7f702a6bd7934a63feb6338d422788a9fa1f0dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 10/55] fix: UserFile.WriteFile after ReadUserFile no longer
 dereferences a nil filesystem

---
 pkg/passwd/passwd.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/passwd/passwd.go b/pkg/passwd/passwd.go
index 1481a23..7df00ff 100644
--- a/pkg/passwd/passwd.go
+++ b/pkg/passwd/passwd.go
@@ -65,6 +65,10 @@ func ReadOrCreateUserFile(fsys apkfs.FullFS, filePath string) (UserFile, error)
 // If it is missing, returns an error.
 func ReadUserFile(fsys fs.FS, filePath string) (UserFile, error) {
 	uf := UserFile{}
+	// remember where it came from for WriteFile, if that can be written to
+	if fullFS, ok := fsys.(apkfs.FullFS); ok {
+		uf.fsys = fullFS
+	}
 
 	file, err := fsys.Open(filePath)
 	if err != nil {
@@ -101,6 +105,9 @@ func (uf *UserFile) Load(r io.Reader) error {
 
 // WriteFile writes an /etc/passwd file from a UserFile.
 func (uf *UserFile) WriteFile(filePath string) error {
+	if uf.fsys == nil {
+		return fmt.Errorf("unable to open %s for writing: no writable filesystem", filePath)
+	}
 	file, err := uf.fsys.Create(filePath)
 	if err != nil {
 		return fmt.Errorf("unable to open %s for writing: %w", filePath, err)
-- 
2.43.0


From 513edadb88747e3ebcbe93d79224405e124b6a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:25 +0000
Subject: [PATCH 11/55] fix: sign an index by replacing the file, so that a
 failure cannot leave it damaged

---
 pkg/signature/sign.go | 45 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/pkg/signature/sign.go b/pkg/signature/sign.go
index 56852e3..120d46b 100644
--- a/pkg/signature/sign.go
+++ b/pkg/signature/sign.go
@@ -82,22 +82,49 @@ func SignIndex(ctx context.Context, signingKey string, indexFile string) error {
 		return fmt.Errorf("unable to write signature tarball: %w", err)
 	}
 
-	idx, err := os.Create(indexFile)
+	if err := replaceFile(indexFile, sigBuffer.Bytes(), indexData); err != nil {
+		return err
+	}
+
+	log.Infof("signed index %s with key %s", indexFile, signingKey)
+
+	return nil
+}
+
+// replaceFile replaces the contents of filename with the given parts. The file holds either its old or its
+// new contents, even if writing fails or is interrupted.
+func replaceFile(filename string, parts ...[]byte) error {
+	// if it is a symlink, replace the file it points to
+	filename, err := filepath.EvalSymlinks(filename)
 	if err != nil {
 		return fmt.Errorf("unable to open index for writing: %w", err)
 	}
-	defer idx.Close()
-
-	if _, err := io.Copy(idx, &sigBuffer); err != nil {
-		return fmt.Errorf("unable to write index signature: %w", err)
+	fi, err := os.Stat(filename)
+	if err != nil {
+		return fmt.Errorf("unable to open index for writing: %w", err)
 	}
 
-	if _, err := idx.Write(indexData); err != nil {
-		return fmt.Errorf("unable to write index data: %w", err)
+	tmp, err := os.CreateTemp(filepath.Dir(filename), "."+filepath.Base(filename)+".*")
+	if err != nil {
+		return fmt.Errorf("unable to open index for writing: %w", err)
 	}
+	defer os.Remove(tmp.Name())
+	defer tmp.Close()
 
-	log.Infof("signed index %s with key %s", indexFile, signingKey)
-
+	for _, part := range parts {
+		if _, err := tmp.Write(part); err != nil {
+			return fmt.Errorf("unable to write index data: %w", err)
+		}
+	}
+	if err := tmp.Chmod(fi.Mode()); err != nil {
+		return fmt.Errorf("unable to write index: %w", err)
+	}
+	if err := tmp.Close(); err != nil {
+		return fmt.Errorf("unable to write index: %w", err)
+	}
+	if err := os.Rename(tmp.Name(), filename); err != nil {
+		return fmt.Errorf("unable to write index: %w", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From b13323743d53ab78b05a7f43b8acc00e54b5290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 12/55] fix: do not return indexes verified differently, nor
 remembered failures, from the index cache

---
 pkg/apk/index.go | 100 ++++++++++++++++++++++++++---------------------
 1 file changed, 56 insertions(+), 44 deletions(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 9417726..ba7d566 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -18,6 +18,7 @@ import (
 	"archive/tar"
 	"bytes"
 	"context"
+	"crypto/sha256"
 	"errors"
 	"fmt"
 	"io"
@@ -26,6 +27,7 @@ import (
 	"net/url"
 	"os"
 	"regexp"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -42,69 +44,79 @@ var signatureFileRegex = regexp.MustCompile(`^\.SIGN\.RSA\.(.*\.rsa\.pub)$`)
 // This is terrible but simpler than plumbing around a cache for now.
 // We just hold the parsed index in memory rather than re-parsing it every time,
 // which requires gunzipping, which is (somewhat) expensive.
-var globalIndexCache = &indexCache{
-	modtimes: map[string]time.Time{},
-}
+var globalIndexCache = &indexCache{}
 
-type indexResult struct {
+// indexEntry holds an index that was loaded successfully.
+type indexEntry struct {
+	sync.Mutex
 	idx *APKIndex
-	err error
+
+	// For local indexes.
+	modtime time.Time
 }
 
 type indexCache struct {
-	// For remote indexes.
-	onces sync.Map
-
-	// For local indexes.
 	sync.Mutex
-	modtimes map[string]time.Time
 
-	// repoBase -> indexResult
-	indexes sync.Map
+	// Keyed by URL and by how the index was verified, see indexCacheKey.
+	entries map[string]*indexEntry
+}
+
+// indexCacheKey identifies an index together with what was required of its signature: an index that was
+// loaded without verifying it, or that was verified with other keys, must not be returned.
+func indexCacheKey(u string, keys map[string][]byte, arch string, opts *indexOpts) string {
+	if !shouldCheckSignatureForIndex(u, arch, opts) {
+		return u + " unverified"
+	}
+	names := make([]string, 0, len(keys))
+	for name := range keys {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	digest := sha256.New()
+	for _, name := range names {
+		fmt.Fprintf(digest, "%q %q\n", name, keys[name])
+	}
+	return fmt.Sprintf("%s %x", u, digest.Sum(nil))
 }
 
 func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte, arch string, opts *indexOpts) (*APKIndex, error) {
-	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {
-		// We don't want remote indexes to change while we're running.
-		once, _ := i.onces.LoadOrStore(u, &sync.Once{})
-		once.(*sync.Once).Do(func() {
-			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-			i.indexes.Store(u, indexResult{
-				idx: idx,
-				err: err,
-			})
-		})
-	} else {
-		i.Lock()
-		defer i.Unlock()
+	key := indexCacheKey(u, keys, arch, opts)
+	i.Lock()
+	entry, ok := i.entries[key]
+	if !ok {
+		if i.entries == nil {
+			i.entries = map[string]*indexEntry{}
+		}
+		entry = &indexEntry{}
+		i.entries[key] = entry
+	}
+	i.Unlock()
+
+	// Only one load of an index at a time. Failures are not remembered.
+	entry.Lock()
+	defer entry.Unlock()
 
+	var mod time.Time
+	if !strings.HasPrefix(u, "https://") && !strings.HasPrefix(u, "http://") {
 		// We do expect local indexes to change, so we check modtimes.
 		stat, err := os.Stat(u)
 		if err != nil {
 			return nil, nil
 		}
-
-		mod := stat.ModTime()
-		before, ok := i.modtimes[u]
-		if !ok || mod.After(before) {
-			// If this is the first time or it has changed since the last time...
-			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-			i.indexes.Store(u, indexResult{
-				idx: idx,
-				err: err,
-			})
-			i.modtimes[u] = mod
-		}
+		mod = stat.ModTime()
 	}
 
-	v, ok := i.indexes.Load(u)
-	if !ok {
-		asURL, _ := url.Parse(u)
-		panic(fmt.Errorf("did not see index %q after writing it", asURL.Redacted()))
+	// We don't want remote indexes to change while we're running.
+	if entry.idx != nil && mod.Equal(entry.modtime) {
+		return entry.idx, nil
 	}
-	result := v.(indexResult)
-
-	return result.idx, result.err
+	idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
+	if err != nil {
+		return nil, err
+	}
+	entry.idx, entry.modtime = idx, mod
+	return idx, nil
 }
 
 // IndexURL full URL to the index file for the given repo and arch
-- 
2.43.0


From 885fccefdab42182e734657688e3115df3626821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 13/55] fix: read an index only from the bytes its signature
 covers

---
 pkg/apk/index.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index ba7d566..5410c43 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -193,6 +193,8 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		b     []byte
 		asURL *url.URL
 		err   error
+
+		verifiedSignature []byte
 	)
 	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {
 		asURL, err = url.Parse(u)
@@ -318,6 +320,8 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		if !verified {
 			return nil, fmt.Errorf("no key found to verify signature for keyfile %s; tried all other keys as well", matches[1])
 		}
+		// use nothing but what was signed
+		verifiedSignature, b = signature, indexData
 	}
 	// with a valid signature, convert it to an ApkIndex
 	index, err := IndexFromArchive(io.NopCloser(bytes.NewReader(b)))
@@ -325,6 +329,10 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		return nil, fmt.Errorf("unable to read convert repository index bytes to index struct at %s: %w", asURL.Redacted(), err)
 	}
 
+	if verifiedSignature != nil {
+		index.Signature = verifiedSignature
+	}
+
 	return index, err
 }
 
-- 
2.43.0


From 85b7a380163eb45c48d655bedea4635d8415132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 14/55] fix: do not splice another range, nor a short one, into
 a resumed download

---
 pkg/apk/transport.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/apk/transport.go b/pkg/apk/transport.go
index 8f3585f..6643599 100644
--- a/pkg/apk/transport.go
+++ b/pkg/apk/transport.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"strings"
 )
 
 type rangeRetryTransport struct {
@@ -96,6 +97,8 @@ func (r *rangeRetryReader) reset(oerr error) (*http.Response, error) {
 		}
 
 		return resp, fmt.Errorf("%s %s (Range: %s): unexpected status code: %d", req.Method, req.URL.String(), rangeHeader, resp.StatusCode)
+	} else if got := resp.Header.Get("Content-Range"); got != "" && !strings.HasPrefix(got, fmt.Sprintf("bytes %d-", r.progress)) {
+		return resp, fmt.Errorf("%s %s (Range: %s): unexpected content range: %s", req.Method, req.URL.String(), rangeHeader, got)
 	}
 
 	r.body = resp.Body
@@ -112,6 +115,10 @@ func (r *rangeRetryReader) Read(p []byte) (n int, err error) {
 	// If Read() fails, we will reset() 2x.
 	for _, retry := range []bool{true, true, false} {
 		n, err = r.body.Read(p)
+		if errors.Is(err, io.EOF) && r.total > 0 && r.progress+int64(n) < r.total {
+			// The server may have sent less than the rest.
+			err = io.ErrUnexpectedEOF
+		}
 		if err == nil {
 			break
 		}
-- 
2.43.0


From 3d8458dc1a294528bcf755e582bb7dadeda9d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 15/55] fix: resolve paths in the in-memory filesystem
 component by component

Relative symlinks are relative to the directory that really holds them, '..' is the parent directory, Lstat and
Link do not follow a symlink, O_EXCL is honoured, and creating something below a file is an error instead of a panic.
---
 pkg/fs/memfs.go | 410 +++++++++++++++++++++---------------------------
 1 file changed, 178 insertions(+), 232 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index acce239..fa09489 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -57,87 +57,118 @@ func NewMemFS() FullFS {
 // getNode returns the node for the given path. If the path is not found, it
 // returns an error.
 func (m *memFS) getNode(path string) (*node, error) {
-	return m.getNodeCountLinks(path, 0)
-}
-func (m *memFS) getNodeCountLinks(path string, linkDepth int) (*node, error) {
-	if path == "/" || path == "." {
-		return m.tree, nil
+	l, err := m.resolve(path, true)
+	if err != nil {
+		return nil, err
 	}
-	parts := strings.Split(path, pathSep)
-	node := m.tree
-	traversed := make([]string, 0)
-	for _, part := range parts {
-		if part == "" {
+	if l.node == nil {
+		return nil, os.ErrNotExist
+	}
+	return l.node, nil
+}
+
+// location is where a path leads to.
+type location struct {
+	parent *node    // the directory that holds it
+	names  []string // its path from the root, without any symlinks, "." or ".."
+	node   *node    // nil if it does not exist, but could be created in parent
+}
+
+func (l location) base() string {
+	return l.names[len(l.names)-1]
+}
+
+// resolve follows path from the root, one component at a time. Symlinks are resolved relative to the directory
+// that holds them, or to the root if they are absolute. Whether a symlink in the last component is followed as well
+// depends on follow.
+func (m *memFS) resolve(path string, follow bool) (location, error) {
+	var (
+		dirs  = []*node{m.tree} // directories from the root to the current one
+		names []string
+		todo  = strings.Split(path, pathSep)
+		links int
+	)
+	for len(todo) > 0 {
+		part := todo[0]
+		todo = todo[1:]
+		cur := dirs[len(dirs)-1]
+		if part == "" || part == "." {
 			continue
 		}
-		if node.children == nil {
-			return nil, os.ErrNotExist
+		if !cur.dir {
+			return location{}, os.ErrNotExist
 		}
-		var ok bool
-		node.mu.Lock()
-		childNode, ok := node.children[part]
-		// immediately unlock, no need to wait for defer. This is *really* important in the
-		// case of symlinks below
-		node.mu.Unlock()
-		if !ok {
-			return nil, os.ErrNotExist
+		if part == ".." {
+			if len(dirs) > 1 {
+				dirs, names = dirs[:len(dirs)-1], names[:len(names)-1]
+			}
+			continue
+		}
+		last := true
+		for _, p := range todo {
+			last = last && p == ""
 		}
-		// what if it is a symlink?
-		if childNode.mode&os.ModeSymlink != 0 {
-			newDepth := linkDepth + 1
-			if newDepth > maxLinks {
-				return nil, fmt.Errorf("maximum symlink depth exceeded")
+		cur.mu.Lock()
+		child, ok := cur.children[part]
+		cur.mu.Unlock()
+		if !ok {
+			if !last {
+				return location{}, os.ErrNotExist
 			}
-			// getNode requires working on the absolute path, so we just resolve the path to an absolute path,
-			// rather than struggling to clean up the path.
-			// But, we have to make sure that we set it relative to where we are currently, rather than the parent of the path.
-			// For example, /usr/lib64/foo/bar when /usr/lib64 -> lib, we want to resolve to /usr/lib rather than /usr/lib64/foo/lib
-			linkTarget := childNode.linkTarget
-			if !filepath.IsAbs(linkTarget) {
-				linkTarget = filepath.Join(strings.Join(traversed, pathSep), linkTarget)
+			return location{parent: cur, names: append(names, part)}, nil
+		}
+		if child.mode&os.ModeSymlink != 0 && (follow || !last) {
+			links++
+			if links > maxLinks {
+				return location{}, fmt.Errorf("maximum symlink depth exceeded")
 			}
-			// now we have the absolute path, we can get the node
-			// but that absolute path can cause us to try and hit something that is already locked
-			// and since we are recursing, it will not get freed until we return
-			// leading to a deadlock race condition
-			targetNode, err := m.getNodeCountLinks(linkTarget, newDepth)
-			if err != nil {
-				return nil, err
+			if filepath.IsAbs(child.linkTarget) {
+				dirs, names = dirs[:1], nil
 			}
-			childNode = targetNode
+			todo = append(strings.Split(child.linkTarget, pathSep), todo...)
+			continue
 		}
-		node = childNode
-		traversed = append(traversed, part)
+		dirs, names = append(dirs, child), append(names, part)
 	}
-	return node, nil
+	l := location{node: dirs[len(dirs)-1], names: names}
+	if len(dirs) > 1 {
+		l.parent = dirs[len(dirs)-2]
+	}
+	return l, nil
 }
-func (m *memFS) Mkdir(path string, perms fs.FileMode) error {
-	// first see if the parent exists
-	parent := filepath.Dir(path)
-	anode, err := m.getNode(parent)
+
+// create adds the node returned by mk under path, which must not exist yet.
+func (m *memFS) create(path string, mk func(base string) *node) error {
+	l, err := m.resolve(path, false)
 	if err != nil {
 		return err
 	}
-	if anode.mode&fs.ModeDir == 0 {
-		return fmt.Errorf("parent is not a directory")
+	if l.node != nil {
+		return os.ErrExist
 	}
-	// see if it exists
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
-	if _, ok := anode.children[filepath.Base(path)]; ok {
+	l.parent.mu.Lock()
+	defer l.parent.mu.Unlock()
+	if _, ok := l.parent.children[l.base()]; ok {
 		return os.ErrExist
 	}
-	// now create the directory
-	anode.children[filepath.Base(path)] = &node{
-		name:       filepath.Base(path),
-		mode:       fs.ModeDir | perms,
+	l.parent.children[l.base()] = mk(l.base())
+	return nil
+}
+
+func newDir(name string, perm fs.FileMode) *node {
+	return &node{
+		name:       name,
+		mode:       fs.ModeDir | perm,
 		dir:        true,
 		modTime:    time.Now(),
 		createTime: time.Now(),
 		children:   map[string]*node{},
 		xattrs:     map[string][]byte{},
 	}
-	return nil
+}
+
+func (m *memFS) Mkdir(path string, perms fs.FileMode) error {
+	return m.create(path, func(base string) *node { return newDir(base, perms) })
 }
 
 func (m *memFS) Stat(path string) (fs.FileInfo, error) {
@@ -145,69 +176,39 @@ func (m *memFS) Stat(path string) (fs.FileInfo, error) {
 	if err != nil {
 		return nil, err
 	}
-	if node.mode&fs.ModeSymlink != 0 {
-		targetNode, err := m.getNode(node.linkTarget)
-		if err != nil {
-			return nil, err
-		}
-		node = targetNode
-	}
 	return node.fileInfo(path), nil
 }
 
 func (m *memFS) Lstat(path string) (fs.FileInfo, error) {
-	node, err := m.getNode(path)
+	l, err := m.resolve(path, false)
 	if err != nil {
 		return nil, err
 	}
-	return node.fileInfo(path), nil
+	if l.node == nil {
+		return nil, os.ErrNotExist
+	}
+	return l.node.fileInfo(path), nil
 }
 
 func (m *memFS) MkdirAll(path string, perm fs.FileMode) error {
 	parts := strings.Split(path, pathSep)
-	traversed := make([]string, 0)
-	anode := m.tree
-	for _, part := range parts {
-		if part == "" {
+	for i := range parts {
+		dir := strings.Join(parts[:i+1], pathSep)
+		err := m.Mkdir(dir, perm)
+		if err == nil {
 			continue
 		}
-		if anode.children == nil {
-			anode.children = map[string]*node{}
-		}
-		var ok bool
-		anode.mu.Lock()
-		newnode, ok := anode.children[part]
-		if !ok {
-			newnode = &node{
-				name:       part,
-				mode:       fs.ModeDir | perm,
-				dir:        true,
-				modTime:    time.Now(),
-				createTime: time.Now(),
-				children:   map[string]*node{},
-				xattrs:     map[string][]byte{},
-			}
-			anode.children[part] = newnode
+		if !errors.Is(err, os.ErrExist) {
+			return err
 		}
-		anode.mu.Unlock()
-		// what if it is a symlink?
-		if newnode.mode&os.ModeSymlink != 0 {
-			linkTarget := newnode.linkTarget
-			if !filepath.IsAbs(linkTarget) {
-				linkTarget = filepath.Join(strings.Join(traversed, pathSep), linkTarget)
-			}
-
-			targetNode, err := m.getNode(linkTarget)
-			if err != nil {
-				return err
-			}
-			newnode = targetNode
+		// it exists, maybe as a symlink
+		anode, err := m.getNode(dir)
+		if err != nil {
+			return err
 		}
-		if !newnode.dir {
+		if !anode.dir {
 			return fmt.Errorf("path is not a directory")
 		}
-		anode = newnode
-		traversed = append(traversed, part)
 	}
 	return nil
 }
@@ -217,58 +218,40 @@ func (m *memFS) Open(name string) (fs.File, error) {
 }
 
 func (m *memFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error) {
-	return m.openFile(name, flag, perm, 0)
-}
-func (m *memFS) openFile(name string, flag int, perm fs.FileMode, linkCount int) (File, error) {
-	parent := filepath.Dir(name)
-	base := filepath.Base(name)
-	parentAnode, err := m.getNode(parent)
+	excl := flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0
+	l, err := m.resolve(name, !excl)
 	if err != nil {
 		return nil, err
 	}
-	if !parentAnode.dir {
-		return nil, fmt.Errorf("parent is not a directory")
-	}
-	if parentAnode.children == nil {
-		parentAnode.children = map[string]*node{}
+	if l.node == nil {
+		if flag&os.O_CREATE == 0 {
+			return nil, os.ErrNotExist
+		}
+		// create the file
+		l.parent.mu.Lock()
+		anode, ok := l.parent.children[l.base()]
+		if !ok {
+			anode = &node{
+				name:       l.base(),
+				mode:       perm,
+				dir:        false,
+				modTime:    time.Now(),
+				createTime: time.Now(),
+				xattrs:     map[string][]byte{},
+			}
+			l.parent.children[l.base()] = anode
+		}
+		l.parent.mu.Unlock()
+		excl = excl && ok
+		l.node = anode
 	}
-	parentAnode.mu.Lock()
-	anode, ok := parentAnode.children[base]
-	if !ok && flag&os.O_CREATE == 0 {
-		parentAnode.mu.Unlock()
-		return nil, os.ErrNotExist
+	if excl {
+		return nil, os.ErrExist
 	}
-	if anode != nil && anode.dir {
-		parentAnode.mu.Unlock()
+	if l.node.dir {
 		return nil, fmt.Errorf("is a directory")
 	}
-	if flag&os.O_CREATE != 0 && !ok {
-		// create the file
-		anode = &node{
-			name:       base,
-			mode:       perm,
-			dir:        false,
-			modTime:    time.Now(),
-			createTime: time.Now(),
-			xattrs:     map[string][]byte{},
-		}
-		parentAnode.children[base] = anode
-	}
-	parentAnode.mu.Unlock()
-	// what if it is a symlink? Follow the symlink
-	if anode.mode&os.ModeSymlink != 0 {
-		localCount := linkCount + 1
-		if localCount > maxLinks {
-			return nil, fmt.Errorf("too many links")
-		}
-		linkTarget := anode.linkTarget
-		if !filepath.IsAbs(linkTarget) {
-			linkTarget = filepath.Join(parent, linkTarget)
-		}
-		return m.openFile(linkTarget, flag, perm, localCount)
-	}
-
-	return newMemFile(anode, name, m, flag), nil
+	return newMemFile(l.node, name, m, flag), nil
 }
 
 func (m *memFS) ReadFile(name string) ([]byte, error) {
@@ -320,47 +303,31 @@ func (m *memFS) OpenReaderAt(name string) (File, error) {
 }
 
 func (m *memFS) Mknod(path string, mode uint32, dev int) error {
-	parent := filepath.Dir(path)
-	base := filepath.Base(path)
-	anode, err := m.getNode(parent)
-	if err != nil {
-		return err
-	}
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
-	if _, ok := anode.children[base]; ok {
-		return os.ErrExist
-	}
-	anode.children[base] = &node{
-		name:       base,
-		mode:       fs.FileMode(mode) | os.ModeCharDevice | os.ModeDevice,
-		modTime:    time.Now(),
-		createTime: time.Now(),
-		major:      unix.Major(uint64(dev)),
-		minor:      unix.Minor(uint64(dev)),
-		xattrs:     map[string][]byte{},
-	}
-
-	return nil
+	return m.create(path, func(base string) *node {
+		return &node{
+			name:       base,
+			mode:       fs.FileMode(mode) | os.ModeCharDevice | os.ModeDevice,
+			modTime:    time.Now(),
+			createTime: time.Now(),
+			major:      unix.Major(uint64(dev)),
+			minor:      unix.Minor(uint64(dev)),
+			xattrs:     map[string][]byte{},
+		}
+	})
 }
 
 func (m *memFS) Readnod(path string) (dev int, err error) {
-	parent := filepath.Dir(path)
-	base := filepath.Base(path)
-	parentNode, err := m.getNode(parent)
+	l, err := m.resolve(path, false)
 	if err != nil {
 		return 0, err
 	}
-	parentNode.mu.Lock()
-	defer parentNode.mu.Unlock()
-	anode, ok := parentNode.children[base]
-	if !ok {
+	if l.node == nil {
 		return 0, os.ErrNotExist
 	}
-	if anode.mode&os.ModeDevice != os.ModeDevice || anode.mode&os.ModeCharDevice != os.ModeCharDevice {
+	if l.node.mode&os.ModeDevice != os.ModeDevice || l.node.mode&os.ModeCharDevice != os.ModeCharDevice {
 		return 0, fmt.Errorf("not a device")
 	}
-	return int(unix.Mkdev(anode.major, anode.minor)), nil
+	return int(unix.Mkdev(l.node.major, l.node.minor)), nil
 }
 
 func (m *memFS) Chmod(path string, perm fs.FileMode) error {
@@ -387,83 +354,62 @@ func (m *memFS) Create(name string) (File, error) {
 }
 
 func (m *memFS) Symlink(oldname, newname string) error {
-	parent := filepath.Dir(newname)
-	base := filepath.Base(newname)
-	anode, err := m.getNode(parent)
-	if err != nil {
-		return err
-	}
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
-	if _, ok := anode.children[base]; ok {
-		return os.ErrExist
-	}
-	anode.children[base] = &node{
-		name:       base,
-		mode:       0o777 | os.ModeSymlink,
-		modTime:    time.Now(),
-		linkTarget: oldname,
-		xattrs:     map[string][]byte{},
-	}
-	return nil
+	return m.create(newname, func(base string) *node {
+		return &node{
+			name:       base,
+			mode:       0o777 | os.ModeSymlink,
+			modTime:    time.Now(),
+			linkTarget: oldname,
+			xattrs:     map[string][]byte{},
+		}
+	})
 }
 
 func (m *memFS) Link(oldname, newname string) error {
-	parent := filepath.Dir(newname)
-	base := filepath.Base(newname)
-	anode, err := m.getNode(parent)
-	if err != nil {
-		return err
-	}
-	target, err := m.getNode(oldname)
-	if err != nil {
+	target, err := m.resolve(oldname, false)
+	if err != nil || target.node == nil {
 		return os.ErrNotExist
 	}
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
-	if _, ok := anode.children[base]; ok {
-		return os.ErrExist
+	if target.node.dir {
+		return fmt.Errorf("hard link to a directory")
 	}
-	anode.children[base] = target
-	target.linkCount++
-	return nil
+	return m.create(newname, func(string) *node {
+		target.node.linkCount++
+		return target.node
+	})
 }
 
 func (m *memFS) Readlink(name string) (target string, err error) {
-	parent := filepath.Dir(name)
-	base := filepath.Base(name)
-	parentNode, err := m.getNode(parent)
+	l, err := m.resolve(name, false)
 	if err != nil {
 		return "", err
 	}
-	parentNode.mu.Lock()
-	defer parentNode.mu.Unlock()
-	anode, ok := parentNode.children[base]
-	if !ok {
+	if l.node == nil {
 		return "", os.ErrNotExist
 	}
-	if anode.mode&os.ModeSymlink == 0 {
+	if l.node.mode&os.ModeSymlink == 0 {
 		return "", fmt.Errorf("file is not a link")
 	}
-	return anode.linkTarget, nil
+	return l.node.linkTarget, nil
 }
 
 func (m *memFS) Remove(name string) error {
-	parent := filepath.Dir(name)
-	base := filepath.Base(name)
-	anode, err := m.getNode(parent)
+	l, err := m.resolve(name, false)
 	if err != nil {
 		return err
 	}
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
-	if _, ok := anode.children[base]; !ok {
+	if l.node == nil {
 		return os.ErrNotExist
 	}
-	if anode.children[base].linkCount > 0 {
-		anode.children[base].linkCount--
+	if l.parent == nil {
+		return fmt.Errorf("cannot remove the root directory")
+	}
+	l.parent.mu.Lock()
+	defer l.parent.mu.Unlock()
+	if l.node.linkCount > 0 {
+		l.node.linkCount--
 	}
-	delete(anode.children, base)
+	delete(l.parent.children, l.base())
 	return nil
 }
 
-- 
2.43.0


From 47e10094deaea0710a971652316438a4027269fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:05 +0000
Subject: [PATCH 16/55] fix: in-memory files honour how they were opened, and
 where they are read or written

---
 pkg/fs/memfs.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index fa09489..9132eaf 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -36,6 +36,8 @@ const (
 	// maxLinks maximum permitted depths of symlinks, to prevent infinite recursion
 	// matches what Linux kernel does from 4.2 onwards, see https://man7.org/linux/man-pages/man7/path_resolution.7.html
 	maxLinks = 40
+	// accessModes are the bits of the open flags that say whether a file is open for reading, writing, or both
+	accessModes = os.O_RDONLY | os.O_WRONLY | os.O_RDWR
 )
 
 type memFS struct {
@@ -484,9 +486,6 @@ func newMemFile(node *node, name string, memfs *memFS, openMode int) *memFile {
 		name:     name,
 		openMode: openMode,
 	}
-	if openMode&os.O_APPEND != 0 {
-		m.offset = int64(len(node.data))
-	}
 	if openMode&os.O_TRUNC != 0 {
 		node.data = nil
 	}
@@ -497,7 +496,7 @@ func (f *memFile) Stat() (fs.FileInfo, error) {
 	if f.node == nil || f.fs == nil {
 		return nil, os.ErrClosed
 	}
-	return f.fs.Stat(f.name)
+	return f.node.fileInfo(f.name), nil
 }
 
 func (f *memFile) Close() error {
@@ -513,6 +512,9 @@ func (f *memFile) Read(b []byte) (int, error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
+	if f.openMode&accessModes == os.O_WRONLY {
+		return 0, errors.New("file not opened in read mode")
+	}
 	if f.offset >= int64(len(f.node.data)) {
 		return 0, io.EOF
 	}
@@ -525,10 +527,19 @@ func (f *memFile) ReadAt(p []byte, off int64) (n int, err error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
+	if f.openMode&accessModes == os.O_WRONLY {
+		return 0, errors.New("file not opened in read mode")
+	}
+	if off < 0 {
+		return 0, errors.New("negative offset")
+	}
 	if off >= int64(len(f.node.data)) {
 		return 0, io.EOF
 	}
 	n = copy(p, f.node.data[off:])
+	if n < len(p) {
+		return n, io.EOF
+	}
 	return n, nil
 }
 func (f *memFile) Seek(offset int64, whence int) (int64, error) {
@@ -537,14 +548,17 @@ func (f *memFile) Seek(offset int64, whence int) (int64, error) {
 	}
 	switch whence {
 	case io.SeekStart:
-		f.offset = offset
 	case io.SeekCurrent:
-		f.offset += offset
+		offset += f.offset
 	case io.SeekEnd:
-		f.offset = int64(len(f.node.data)) + offset
+		offset += int64(len(f.node.data))
 	default:
 		return 0, errors.New("invalid whence")
 	}
+	if offset < 0 {
+		return 0, errors.New("negative offset")
+	}
+	f.offset = offset
 	return f.offset, nil
 }
 
@@ -552,9 +566,19 @@ func (f *memFile) Write(p []byte) (n int, err error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
-	if f.openMode&os.O_APPEND != 0 && f.openMode&os.O_RDWR != 0 && f.openMode&os.O_WRONLY != 0 {
+	if f.openMode&accessModes == os.O_RDONLY {
 		return 0, errors.New("file not opened in write mode")
 	}
+	if f.openMode&os.O_APPEND != 0 {
+		f.offset = int64(len(f.node.data))
+	}
+	if len(p) == 0 {
+		return 0, nil
+	}
+	if gap := f.offset - int64(len(f.node.data)); gap > 0 {
+		// the file is extended with zeros up to where the data goes
+		f.node.data = append(f.node.data, make([]byte, gap)...)
+	}
 	if f.offset+int64(len(p)) > int64(len(f.node.data)) {
 		f.node.data = append(f.node.data[:f.offset], p...)
 	} else {
-- 
2.43.0


From ed9bfd4bf10ad2ba05eab12b8c0dd063bd9881c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:28 +0000
Subject: [PATCH 17/55] fix: removing an in-memory directory that is not empty
 is an error

---
 pkg/fs/memfs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index 9132eaf..3d6bed9 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -408,6 +408,9 @@ func (m *memFS) Remove(name string) error {
 	}
 	l.parent.mu.Lock()
 	defer l.parent.mu.Unlock()
+	if l.node.dir && len(l.node.children) > 0 {
+		return unix.ENOTEMPTY
+	}
 	if l.node.linkCount > 0 {
 		l.node.linkCount--
 	}
-- 
2.43.0


From ed9944d366d2bdc3dae3956477ef3b30a92c15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 18/55] fix: in-memory entries report their own name, mode and
 attributes

---
 pkg/fs/memfs.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index 3d6bed9..7da876f 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -308,7 +308,7 @@ func (m *memFS) Mknod(path string, mode uint32, dev int) error {
 	return m.create(path, func(base string) *node {
 		return &node{
 			name:       base,
-			mode:       fs.FileMode(mode) | os.ModeCharDevice | os.ModeDevice,
+			mode:       fs.FileMode(mode).Perm() | os.ModeCharDevice | os.ModeDevice,
 			modTime:    time.Now(),
 			createTime: time.Now(),
 			major:      unix.Major(uint64(dev)),
@@ -425,7 +425,7 @@ func (m *memFS) SetXattr(path string, attr string, data []byte) error {
 	}
 	node.mu.Lock()
 	defer node.mu.Unlock()
-	node.xattrs[attr] = data
+	node.xattrs[attr] = bytes.Clone(data)
 	return nil
 }
 func (m *memFS) GetXattr(path string, attr string) ([]byte, error) {
@@ -439,7 +439,7 @@ func (m *memFS) GetXattr(path string, attr string) ([]byte, error) {
 	if !ok {
 		return nil, os.ErrNotExist
 	}
-	return data, nil
+	return bytes.Clone(data), nil
 }
 
 func (m *memFS) RemoveXattr(path string, attr string) error {
@@ -620,7 +620,7 @@ type memFileInfo struct {
 }
 
 func (m *memFileInfo) Name() string {
-	return m.name
+	return filepath.Base(m.name)
 }
 func (m *memFileInfo) Size() int64 {
 	return int64(len(m.data))
-- 
2.43.0


From db768166ac3988e3b11888e4b39a958ccf7d4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:31 +0000
Subject: [PATCH 19/55] fix: locate names within a directory-backed filesystem,
 never following the disk outside of it

Every name is resolved in memory to a path without symlinks or "..", and only that path is used on disk. The
operations that failed after having changed either the disk or memory (MkdirAll, Link, Mknod, Chmod) no longer
leave them different, nor do names that differ in case only.
---
 pkg/fs/memfs.go  |   4 +
 pkg/fs/rwosfs.go | 377 ++++++++++++++++++++++++++---------------------
 2 files changed, 216 insertions(+), 165 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index 7da876f..cb106e6 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -45,6 +45,10 @@ type memFS struct {
 }
 
 func NewMemFS() FullFS {
+	return newMemFS()
+}
+
+func newMemFS() *memFS {
 	return &memFS{
 		tree: &node{
 			dir:      true,
diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 2b659fe..d2aa080 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -66,8 +66,6 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 		}
 	}
 
-	m := NewMemFS()
-
 	// check if the underlying filesystem is case-sensitive
 	fi, err := os.Stat(dir)
 	switch {
@@ -115,7 +113,7 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 	}
 	f := &dirFS{
 		base:      dir,
-		overrides: m,
+		overrides: newMemFS(),
 		caseMap:   caseMap,
 	}
 	// need to populate the overrides with appropriate info
@@ -132,6 +130,9 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 		if err != nil {
 			return err
 		}
+		if caseMap != nil {
+			caseMap[strings.ToLower(path)] = path
+		}
 		mode := fi.Mode()
 		perm := mode.Perm()
 		switch mode.Type() {
@@ -190,7 +191,7 @@ type dirFS struct {
 	// filesystem or operating system limitations.
 	// It will include all directories, but no file contents.
 	// If there are permissions in memory, they override the disk.
-	overrides FullFS
+	overrides *memFS
 	// caseMap if non-nil, underlying filesystem is case-insensitive, so only one variant of each file
 	// can exist on disk. Maps the case-sensitive to the case-insensitive variant
 	caseMap      map[string]string
@@ -217,17 +218,16 @@ func (f *dirFS) Open(name string) (fs.File, error) {
 }
 
 func (f *dirFS) open(name string) (*fileImpl, error) {
-	fullpath, err := f.sanitizePath(name)
+	p, err := f.locate(name, true)
 	if err != nil {
 		return nil, err
 	}
-	baseName := filepath.Base(name)
-	if f.caseSensitiveOnDisk(name) {
+	fullpath := f.diskPath(p)
+	if f.caseSensitiveOnDisk(p) {
 		file, err := os.Open(fullpath)
 		if err == nil {
 			return &fileImpl{
 				file: file,
-				name: baseName,
 			}, nil
 		}
 		if !os.IsPermission(err) {
@@ -249,16 +249,16 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 		perms := fi.Mode()
 		return &fileImpl{
 			file:  file,
-			name:  baseName,
+			path:  fullpath,
 			perms: &perms,
 		}, nil
 	}
 
-	file, err := f.overrides.OpenReaderAt(name)
+	file, err := f.overrides.OpenReaderAt(p)
 	if err != nil {
 		return nil, err
 	}
-	return &fileImpl{file: file, name: baseName}, nil
+	return &fileImpl{file: file}, nil
 }
 
 // Open open a file for reading. Returns fs.File.
@@ -267,34 +267,26 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 // This only works if the user reading the file actually has
 // permissions to change the file permissions.
 func (f *dirFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error) {
-	var (
-		file File
-		err  error
-	)
-	if flag&os.O_CREATE == os.O_CREATE {
-		file, err = f.overrides.OpenFile(name, flag, perm)
-		if err != nil {
-			return nil, err
-		}
-		// do we create it on disk?
-		if f.createOnDisk(name) {
-			_ = file.Close()
-			file, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
-			if err != nil {
-				return nil, err
-			}
-		}
-	} else {
-		if f.caseSensitiveOnDisk(name) {
-			file, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
-		} else {
-			file, err = f.overrides.OpenFile(name, flag, perm)
-		}
-		if err != nil {
-			return nil, err
-		}
+	excl := flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0
+	p, err := f.locate(name, !excl)
+	if err != nil {
+		return nil, err
+	}
+	// do we create it on disk?
+	onDisk := f.caseSensitiveOnDisk(p)
+	if flag&os.O_CREATE != 0 {
+		onDisk = f.createOnDisk(p)
+	}
+	file, err := f.overrides.OpenFile(p, flag, perm)
+	if err != nil {
+		return nil, err
 	}
-	return file, nil
+	if !onDisk {
+		return file, nil
+	}
+	// close the memory one
+	_ = file.Close()
+	return os.OpenFile(f.diskPath(p), flag, perm)
 }
 
 func (f *dirFS) OpenReaderAt(name string) (File, error) {
@@ -302,61 +294,49 @@ func (f *dirFS) OpenReaderAt(name string) (File, error) {
 }
 
 func (f *dirFS) Stat(name string) (fs.FileInfo, error) {
-	var (
-		fi  fs.FileInfo
-		err error
-	)
-	mi, err := f.overrides.Stat(name)
+	return f.stat(name, true)
+}
+func (f *dirFS) Lstat(name string) (fs.FileInfo, error) {
+	return f.stat(name, false)
+}
+
+func (f *dirFS) stat(name string, follow bool) (fs.FileInfo, error) {
+	p, err := f.locate(name, follow)
+	if err != nil {
+		return nil, err
+	}
+	mi, err := f.overrides.Lstat(p)
 	if err != nil {
 		return nil, err
 	}
-	if f.caseSensitiveOnDisk(name) {
-		fi, err = os.Stat(filepath.Join(f.base, name))
+	fi := mi
+	if f.caseSensitiveOnDisk(p) {
+		fi, err = os.Lstat(f.diskPath(p))
 		if err != nil {
 			return nil, err
 		}
-	} else {
-		fi = mi
 	}
 	return &fileInfo{
+		name: filepath.Base(name),
 		file: fi,
 		mem:  mi,
 	}, nil
 }
-func (f *dirFS) Lstat(name string) (fs.FileInfo, error) {
-	return f.overrides.Lstat(name)
-}
 
 func (f *dirFS) Create(name string) (File, error) {
-	// if the underlying filesystem is case-insensitive, check if the file exists and, if so,
-	// do it only in memory.
-	var (
-		file File
-		err  error
-	)
-	file, err = f.overrides.Create(name)
-	if err != nil {
-		return nil, err
-	}
-	// do we create it on disk?
-	if f.createOnDisk(name) {
-		// close the memory one
-		_ = file.Close()
-		file, err = os.Create(filepath.Join(f.base, name))
-		if err != nil {
-			return nil, err
-		}
-	}
-
-	return file, err
+	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
 }
 
 func (f *dirFS) Remove(name string) error {
-	if err := f.overrides.Remove(name); err != nil {
+	p, err := f.locate(name, false)
+	if err != nil {
 		return err
 	}
-	if f.removeOnDisk(name) {
-		return os.Remove(filepath.Join(f.base, name))
+	if err := f.overrides.Remove(p); err != nil {
+		return err
+	}
+	if f.removeOnDisk(p) {
+		return os.Remove(f.diskPath(p))
 	}
 	return nil
 }
@@ -365,16 +345,19 @@ func (f *dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
 	// get those on disk
 	var (
 		onDisk, inMem []fs.DirEntry
-		err           error
 	)
-	if f.caseSensitiveOnDisk(name) {
-		onDisk, err = os.ReadDir(filepath.Join(f.base, name))
+	p, err := f.locate(name, true)
+	if err != nil {
+		return nil, err
+	}
+	if f.caseSensitiveOnDisk(p) {
+		onDisk, err = os.ReadDir(f.diskPath(p))
 		if err != nil {
 			return nil, err
 		}
 	}
 	// get those in memory
-	inMem, err = f.overrides.ReadDir(name)
+	inMem, err = f.overrides.ReadDir(p)
 	if err != nil {
 		return nil, err
 	}
@@ -405,17 +388,25 @@ func (f *dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
 	return dirEntries, nil
 }
 func (f *dirFS) ReadFile(name string) ([]byte, error) {
-	if f.caseSensitiveOnDisk(name) {
-		return os.ReadFile(filepath.Join(f.base, name))
+	p, err := f.locate(name, true)
+	if err != nil {
+		return nil, err
+	}
+	if f.caseSensitiveOnDisk(p) {
+		return os.ReadFile(f.diskPath(p))
 	}
-	return f.overrides.ReadFile(name)
+	return f.overrides.ReadFile(p)
 }
 func (f *dirFS) WriteFile(name string, b []byte, mode fs.FileMode) error {
 	var (
 		memContent []byte
 	)
-	if f.createOnDisk(name) {
-		if err := os.WriteFile(filepath.Join(f.base, name), b, mode); err != nil {
+	p, err := f.locate(name, true)
+	if err != nil {
+		return err
+	}
+	if f.createOnDisk(p) {
+		if err := os.WriteFile(f.diskPath(p), b, mode); err != nil {
 			return err
 		}
 	} else {
@@ -425,95 +416,147 @@ func (f *dirFS) WriteFile(name string, b []byte, mode fs.FileMode) error {
 	// ensure file exists in memory
 	// if this is just a flag for what is on disk, make it with zero size
 	// if it is the actual file because of case sensitivity, then use the actual content
-	return f.overrides.WriteFile(name, memContent, mode)
+	return f.overrides.WriteFile(p, memContent, mode)
 }
 
 func (f *dirFS) Readnod(name string) (dev int, err error) {
-	if f.caseSensitiveOnDisk(name) {
-		_, err = os.Stat(filepath.Join(f.base, name))
+	p, err := f.locate(name, false)
+	if err != nil {
+		return 0, err
+	}
+	if f.caseSensitiveOnDisk(p) {
+		_, err = os.Lstat(f.diskPath(p))
 		if err != nil {
 			return 0, err
 		}
 	}
-	return f.overrides.Readnod(name)
+	return f.overrides.Readnod(p)
 }
 
 func (f *dirFS) Link(oldname, newname string) error {
 	// for hardlink, we cannot take target as is, as it might be outside of the base.
-	// So we must sanitize it. It should point to a file that is within the filesystem.
-	target := filepath.Join(f.base, oldname)
-	target = filepath.Clean(target)
-	if !strings.HasPrefix(target, f.base) {
-		return fmt.Errorf("hardlink target %s is outside of the filesystem", target)
-	}
-	if f.createOnDisk(newname) {
-		if err := os.Link(target, filepath.Join(f.base, newname)); err != nil {
-			return err
-		}
+	// So it is located within the filesystem, as is the new name.
+	target, err := f.locate(oldname, false)
+	if err != nil {
+		return err
+	}
+	p, err := f.locate(newname, false)
+	if err != nil {
+		return err
+	}
+	onDisk := f.caseSensitiveOnDisk(target) && f.createOnDisk(p)
+	if err := f.overrides.Link(target, p); err != nil {
+		return err
+	}
+	if onDisk {
+		return os.Link(f.diskPath(target), f.diskPath(p))
 	}
-	return f.overrides.Link(oldname, newname)
+	return nil
 }
 
 func (f *dirFS) Symlink(oldname, newname string) error {
 	// For symlink, take target as is.
-	// If it is outside of the base, it will be resolved by Readlink.
-	// This enables proper symlink behaviour.
-	if f.createOnDisk(newname) {
-		if err := os.Symlink(oldname, filepath.Join(f.base, newname)); err != nil {
+	// If it is outside of the base, it will be resolved within the base, as are all names.
+	p, err := f.locate(newname, false)
+	if err != nil {
+		return err
+	}
+	if f.createOnDisk(p) {
+		if err := os.Symlink(oldname, f.diskPath(p)); err != nil {
 			return err
 		}
 	}
-	return f.overrides.Symlink(oldname, newname)
+	return f.overrides.Symlink(oldname, p)
 }
 
 func (f *dirFS) MkdirAll(name string, perm fs.FileMode) error {
-	// just in case, because some underlying systems miss this
-	fullPerm := os.ModeDir | perm
-	if f.createOnDisk(name) {
-		if err := os.MkdirAll(filepath.Join(f.base, name), fullPerm); err != nil {
+	parts := strings.Split(name, pathSep)
+	for i := range parts {
+		dir := strings.Join(parts[:i+1], pathSep)
+		if fi, err := f.overrides.Stat(dir); err == nil {
+			if !fi.IsDir() {
+				return fmt.Errorf("path is not a directory: %s", dir)
+			}
+			continue
+		}
+		if err := f.mkdir(dir, perm, true); err != nil {
 			return err
 		}
 	}
-	return f.overrides.MkdirAll(name, fullPerm)
+	return nil
 }
 
 func (f *dirFS) Mkdir(name string, perm fs.FileMode) error {
+	return f.mkdir(name, perm, false)
+}
+
+// mkdir makes one directory. A directory that is on disk only is an error unless adopt is set.
+func (f *dirFS) mkdir(name string, perm fs.FileMode, adopt bool) error {
 	// just in case, because some underlying systems miss this
 	fullPerm := os.ModeDir | perm
-	if f.createOnDisk(name) {
-		if err := os.Mkdir(filepath.Join(f.base, name), fullPerm); err != nil {
-			return err
+	p, err := f.locate(name, false)
+	if err != nil {
+		return err
+	}
+	if f.createOnDisk(p) {
+		if err := os.Mkdir(f.diskPath(p), fullPerm); err != nil {
+			fi, serr := os.Lstat(f.diskPath(p))
+			if !adopt || serr != nil || !fi.IsDir() {
+				return err
+			}
 		}
 	}
-	return f.overrides.Mkdir(name, fullPerm)
+	return f.overrides.Mkdir(p, fullPerm)
 }
 
 func (f *dirFS) Chmod(path string, perm fs.FileMode) error {
-	if f.caseSensitiveOnDisk(path) {
+	p, err := f.locate(path, true)
+	if err != nil {
+		return err
+	}
+	if err := f.overrides.Chmod(p, perm); err != nil {
+		return err
+	}
+	if f.caseSensitiveOnDisk(p) {
 		// ignore error, as we track it in memory anyways, and disk filesystem might not support it
-		_ = os.Chmod(filepath.Join(f.base, path), perm)
+		_ = os.Chmod(f.diskPath(p), perm)
 	}
-	return f.overrides.Chmod(path, perm)
+	return nil
 }
 func (f *dirFS) Chown(path string, uid, gid int) error {
-	if f.caseSensitiveOnDisk(path) {
+	p, err := f.locate(path, true)
+	if err != nil {
+		return err
+	}
+	if err := f.overrides.Chown(p, uid, gid); err != nil {
+		return err
+	}
+	if f.caseSensitiveOnDisk(p) {
 		// ignore error, as we track it in memory anyways, and disk filesystem might not support it
-		_ = os.Chown(filepath.Join(f.base, path), uid, gid)
+		_ = os.Chown(f.diskPath(p), uid, gid)
 	}
-	return f.overrides.Chown(path, uid, gid)
+	return nil
 }
 
 func (f *dirFS) Mknod(name string, mode uint32, dev int) error {
-	if f.caseSensitiveOnDisk(name) {
-		err := unix.Mknod(filepath.Join(f.base, name), mode, dev)
+	p, err := f.locate(name, false)
+	if err != nil {
+		return err
+	}
+	onDisk := f.createOnDisk(p)
+	if err := f.overrides.Mknod(p, mode, dev); err != nil {
+		return err
+	}
+	if onDisk {
+		err := unix.Mknod(f.diskPath(p), mode, dev)
 		// what if we could not create it? Just create a regular file there, and memory will override
 		if err != nil {
-			if err := os.WriteFile(filepath.Join(f.base, name), nil, 0); err != nil {
+			if err := os.WriteFile(f.diskPath(p), nil, 0); err != nil {
 				return err
 			}
 		}
 	}
-	return f.overrides.Mknod(name, mode, dev)
+	return nil
 }
 
 func (f *dirFS) SetXattr(path string, attr string, data []byte) error {
@@ -531,32 +574,35 @@ func (f *dirFS) ListXattrs(path string) (map[string][]byte, error) {
 	return f.overrides.ListXattrs(path)
 }
 
-// sanitize ensures that we never go beyond the root of the filesystem
-func (f *dirFS) sanitizePath(p string) (v string, err error) {
-	return sanitizePath(f.base, p)
-}
-func sanitizePath(base, p string) (v string, err error) {
-	v = filepath.Join(base, p)
-	if strings.HasPrefix(filepath.Clean(v), base) {
-		return v, nil
+// locate returns the path from the root that name leads to, without any symlinks, "." or "..". All directories of that
+// path exist, its last component might not. As it is resolved in memory, where nothing is outside of the root, it
+// never leads beyond the base on disk. Whether a symlink in the last component is followed depends on follow.
+func (f *dirFS) locate(name string, follow bool) (string, error) {
+	l, err := f.overrides.resolve(name, follow)
+	if err != nil {
+		return "", err
 	}
+	return strings.Join(l.names, pathSep), nil
+}
 
-	return "", fmt.Errorf("%s: %s", "content filepath is tainted", p)
+// diskPath is where a path returned by locate is on disk.
+func (f *dirFS) diskPath(p string) string {
+	return filepath.Join(f.base, p)
 }
 
+// caseSensitiveOnDisk whether what is at path p is on disk rather than in memory only.
 func (f *dirFS) caseSensitiveOnDisk(p string) bool {
 	if f.caseMap == nil {
 		return true
 	}
 	f.caseMapMutex.Lock()
 	defer f.caseMapMutex.Unlock()
-	p = standardizePath(p)
-	key := strings.ToLower(p)
-	result, ok := f.caseMap[key]
-	if !ok {
-		return true
-	}
-	return result == p
+	return f.isOnDisk(p)
+}
+
+func (f *dirFS) isOnDisk(p string) bool {
+	result, ok := f.caseMap[strings.ToLower(p)]
+	return p == "" || ok && result == p
 }
 
 // createOnDisk given a path p, determine if it should be created on disk, and, if relevant,
@@ -569,35 +615,42 @@ func (f *dirFS) createOnDisk(p string) bool {
 	}
 	f.caseMapMutex.Lock()
 	defer f.caseMapMutex.Unlock()
-	p = standardizePath(p)
-	key := strings.ToLower(p)
-	result, ok := f.caseMap[key]
-	if !ok {
-		f.caseMap[key] = p
+	if f.isOnDisk(p) {
 		return true
 	}
-	return result == p
+	if _, ok := f.caseMap[strings.ToLower(p)]; ok {
+		return false
+	}
+	// a directory in memory has everything below it in memory, and what is in memory already stays there
+	if parent := filepath.Dir(p); parent != "." && !f.isOnDisk(parent) {
+		return false
+	}
+	if l, err := f.overrides.resolve(p, false); err == nil && l.node != nil {
+		return false
+	}
+	f.caseMap[strings.ToLower(p)] = p
+	return true
 }
 
 // removeOnDisk given a path p, determine if it should be removed from disk, and, if relevant,
 // remove it from the caseMap.
-func (f *dirFS) removeOnDisk(p string) (removeOnDisk bool) {
+func (f *dirFS) removeOnDisk(p string) bool {
+	if f.caseMap == nil {
+		return true
+	}
 	f.caseMapMutex.Lock()
 	defer f.caseMapMutex.Unlock()
-	key := strings.ToLower(p)
-	if f.caseMap == nil {
-		removeOnDisk = true
-	} else if v, ok := f.caseMap[key]; ok && v == p {
-		delete(f.caseMap, key)
-		removeOnDisk = true
+	if !f.isOnDisk(p) {
+		return false
 	}
-	return
+	delete(f.caseMap, strings.ToLower(p))
+	return true
 }
 
 type file File
 type fileImpl struct {
 	file
-	name  string
+	path  string // on disk
 	perms *os.FileMode
 }
 
@@ -606,18 +659,19 @@ func (f fileImpl) Close() error {
 		return err
 	}
 	if f.perms != nil {
-		return os.Chmod(f.name, *f.perms)
+		return os.Chmod(f.path, *f.perms)
 	}
 	return nil
 }
 
 type fileInfo struct {
+	name string
 	file fs.FileInfo
 	mem  fs.FileInfo
 }
 
 func (f *fileInfo) Name() string {
-	return f.file.Name()
+	return f.name
 }
 func (f *fileInfo) Size() int64 {
 	return f.file.Size()
@@ -629,7 +683,7 @@ func (f *fileInfo) ModTime() time.Time {
 	return f.file.ModTime()
 }
 func (f *fileInfo) IsDir() bool {
-	return f.file.IsDir()
+	return f.mem.IsDir()
 }
 func (f *fileInfo) Sys() interface{} {
 	return f.mem.Sys()
@@ -645,7 +699,7 @@ func (d *dirEntry) Name() string {
 }
 
 func (d *dirEntry) IsDir() bool {
-	return d.disk.IsDir()
+	return d.mem.IsDir()
 }
 
 func (d *dirEntry) Type() fs.FileMode {
@@ -661,12 +715,5 @@ func (d *dirEntry) Info() (fs.FileInfo, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &fileInfo{file: diskInfo, mem: memInfo}, nil
-}
-
-func standardizePath(p string) string {
-	if p[0] == '/' {
-		p = p[1:]
-	}
-	return p
+	return &fileInfo{name: d.Name(), file: diskInfo, mem: memInfo}, nil
 }
-- 
2.43.0


From b287251d0c4fc47c57fcbd641beec7ede1b865f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:34 +0000
Subject: [PATCH 20/55] fix: opening a directory again finds its symlinks and
 character devices

---
 pkg/fs/rwosfs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index d2aa080..656951c 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -142,10 +142,10 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 		case fs.ModeSymlink:
 			var target string
 			target, err = os.Readlink(filepath.Join(dir, path))
-			if err != nil {
+			if err == nil {
 				err = f.overrides.Symlink(target, path)
 			}
-		case fs.ModeCharDevice:
+		case fs.ModeDevice | fs.ModeCharDevice:
 			var dev int
 			sys := fi.Sys()
 			st1, ok1 := sys.(*syscall.Stat_t)
@@ -158,7 +158,7 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 			default:
 				return fmt.Errorf("unsupported type %T", sys)
 			}
-			err = f.overrides.Mknod(path, uint32(unix.S_IFCHR|mode), dev)
+			err = f.overrides.Mknod(path, unix.S_IFCHR|uint32(perm), dev)
 		default:
 			var memFile File
 			memFile, err = f.overrides.OpenFile(path, os.O_CREATE, perm)
-- 
2.43.0


From f1c86a1354186e1a28d27a540159b6a748cf0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 21/55] fix: opening a directory again keeps hard links
 together, and setuid, setgid and sticky bits

---
 pkg/fs/rwosfs.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 656951c..bd6dd67 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -118,6 +118,8 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 	}
 	// need to populate the overrides with appropriate info
 	root := os.DirFS(dir)
+	// files with several hard links, by device and inode
+	linked := map[[2]uint64]string{}
 
 	_ = fs.WalkDir(root, ".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
@@ -134,7 +136,14 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 			caseMap[strings.ToLower(path)] = path
 		}
 		mode := fi.Mode()
-		perm := mode.Perm()
+		perm := mode &^ fs.ModeType
+		if st, ok := fi.Sys().(*syscall.Stat_t); ok && st.Nlink > 1 && !mode.IsDir() {
+			inode := [2]uint64{uint64(st.Dev), st.Ino}
+			if first, ok := linked[inode]; ok {
+				return f.overrides.Link(first, path)
+			}
+			linked[inode] = path
+		}
 		switch mode.Type() {
 		case fs.ModeDir:
 			fullPerm := os.ModeDir | perm
-- 
2.43.0


From 3caec8bf64e501e435dd05c4b2393f3221cc251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:49 +0000
Subject: [PATCH 22/55] fix: report failures to complete an archive, whose last
 file may be cut short or whose end may be missing

---
 pkg/tarball/write.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/tarball/write.go b/pkg/tarball/write.go
index 55d0d09..28b19fc 100644
--- a/pkg/tarball/write.go
+++ b/pkg/tarball/write.go
@@ -298,9 +298,14 @@ func (c *Context) WriteTargz(ctx context.Context, dst io.Writer, src fs.FS, user
 	defer span.End()
 
 	gzw := gzip.NewWriter(dst)
-	defer gzw.Close()
-
-	return c.WriteTar(ctx, gzw, src, userinfofs)
+	if err := c.WriteTar(ctx, gzw, src, userinfofs); err != nil {
+		gzw.Close()
+		return err
+	}
+	if err := gzw.Close(); err != nil {
+		return fmt.Errorf("writing TAR archive failed: %w", err)
+	}
+	return nil
 }
 
 // WriteTar writes a tarball to the provided io.Writer from the provided fs.FS.
@@ -313,10 +318,9 @@ func (c *Context) WriteTar(ctx context.Context, dst io.Writer, src fs.FS, userin
 	defer span.End()
 
 	tw := tar.NewWriter(dst)
-	if !c.SkipClose {
-		defer tw.Close()
-	} else {
-		defer tw.Flush()
+	end := tw.Close
+	if c.SkipClose {
+		end = tw.Flush
 	}
 
 	// get the uname and gname maps
@@ -331,6 +335,10 @@ func (c *Context) WriteTar(ctx context.Context, dst io.Writer, src fs.FS, userin
 		groups[int(g.GID)] = g.GroupName
 	}
 	if err := c.writeTar(ctx, tw, src, users, groups); err != nil {
+		_ = end()
+		return fmt.Errorf("writing TAR archive failed: %w", err)
+	}
+	if err := end(); err != nil {
 		return fmt.Errorf("writing TAR archive failed: %w", err)
 	}
 
-- 
2.43.0


From 9960d5721b9e4aa4bc1dd8aba6a164873f131231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:44 +0000
Subject: [PATCH 23/55] fix: find entries of a package archive however their
 names are written, also implied directories and through links

---
 internal/tarfs/tarfs.go | 175 ++++++++++++++++++++++++++--------------
 1 file changed, 115 insertions(+), 60 deletions(-)

diff --git a/internal/tarfs/tarfs.go b/internal/tarfs/tarfs.go
index d202bd6..afc010e 100644
--- a/internal/tarfs/tarfs.go
+++ b/internal/tarfs/tarfs.go
@@ -24,6 +24,7 @@ import (
 	"io/fs"
 	"path"
 	"slices"
+	"strings"
 	"time"
 )
 
@@ -31,8 +32,17 @@ type Entry struct {
 	Header tar.Header
 	Offset int64
 
-	dir string
-	fi  fs.FileInfo
+	name string // as in the index
+	fi   fs.FileInfo
+}
+
+// size is the size of the contents, which only regular files have.
+func (e *Entry) size() int64 {
+	if !e.fi.Mode().IsRegular() {
+		return 0
+	}
+
+	return e.Header.Size
 }
 
 func (e Entry) Name() string {
@@ -44,7 +54,7 @@ func (e Entry) Size() int64 {
 }
 
 func (e Entry) Type() fs.FileMode {
-	return e.fi.Mode()
+	return e.fi.Mode().Type()
 }
 
 func (e Entry) Info() (fs.FileInfo, error) {
@@ -84,18 +94,16 @@ func (f *File) Close() error {
 type FS struct {
 	ra    io.ReaderAt
 	files []*Entry
-	index map[string]int
+	index map[string]*Entry
 	dirs  map[string][]fs.DirEntry
 }
 
 func (fsys *FS) Readlink(name string) (string, error) {
-	i, ok := fsys.index[name]
-	if !ok {
-		return "", fs.ErrNotExist
+	e, err := fsys.resolve(name, false)
+	if err != nil {
+		return "", err
 	}
 
-	e := fsys.files[i]
-
 	switch e.Header.Typeflag {
 	case tar.TypeSymlink, tar.TypeLink:
 		return e.Header.Linkname, nil
@@ -106,42 +114,83 @@ func (fsys *FS) Readlink(name string) (string, error) {
 
 const maxHops = 64
 
-// open follows symlinks up to [maxHops] times.
-func (fsys *FS) open(name string, hops int) (fs.File, error) {
-	if hops > maxHops {
-		return nil, fmt.Errorf("Open(%q): chased too many (%d) symlinks", name, maxHops)
+// clean turns the name of an archive member, or of a file in the archive, into the name it has in the index.
+func clean(name string) string {
+	if name = strings.TrimPrefix(path.Clean("/"+name), "/"); name == "" {
+		return "."
 	}
 
-	i, ok := fsys.index[name]
-	if !ok {
-		return nil, fs.ErrNotExist
+	return name
+}
+
+// resolve finds the entry with the given name, following links in its directories,
+// and at its end if follow is set, up to [maxHops] times.
+func (fsys *FS) resolve(name string, follow bool) (*Entry, error) {
+	isLink := func(e *Entry) bool {
+		return e.Header.Typeflag == tar.TypeSymlink || e.Header.Typeflag == tar.TypeLink
 	}
 
-	e := fsys.files[i]
+	if e, ok := fsys.index[name]; ok && !(follow && isLink(e)) {
+		return e, nil
+	}
 
-	switch e.Header.Typeflag {
-	case tar.TypeSymlink, tar.TypeLink:
-		link := e.Header.Linkname
-		if path.IsAbs(link) {
-			return fsys.open(link, hops+1)
+	e := fsys.index["."]
+	hops := 0
+	for rest := strings.Split(clean(name), "/"); len(rest) != 0; {
+		elem := rest[0]
+		rest = rest[1:]
+		last := true
+		for _, r := range rest {
+			last = last && (r == "" || r == ".")
 		}
 
-		return fsys.open(path.Join(e.dir, link), hops+1)
-	}
+		if elem == "" || elem == "." {
+			continue
+		}
+		if !e.IsDir() {
+			return nil, fs.ErrNotExist
+		}
+		dir := e.name
+		if elem == ".." {
+			e = fsys.index[path.Dir(dir)]
+			continue
+		}
 
-	f := &File{
-		fsys:  fsys,
-		Entry: e,
-	}
+		next, ok := fsys.index[path.Join(dir, elem)]
+		if !ok {
+			return nil, fs.ErrNotExist
+		}
+		if !isLink(next) || (last && !follow) {
+			e = next
+			continue
+		}
 
-	f.sr = io.NewSectionReader(fsys.ra, e.Offset, e.Header.Size)
+		if hops++; hops > maxHops {
+			return nil, fmt.Errorf("Open(%q): chased too many (%d) symlinks", name, maxHops)
+		}
+		// The target of a hard link is the name of another member, whatever the directory of the link.
+		link := next.Header.Linkname
+		if path.IsAbs(link) || next.Header.Typeflag == tar.TypeLink {
+			e = fsys.index["."]
+		}
+		rest = append(strings.Split(link, "/"), rest...)
+	}
 
-	return f, nil
+	return e, nil
 }
 
 // Open implements fs.FS.
 func (fsys *FS) Open(name string) (fs.File, error) {
-	return fsys.open(name, 0)
+	e, err := fsys.resolve(name, true)
+	if err != nil {
+		return nil, err
+	}
+
+	return &File{
+		fsys:  fsys,
+		sr:    io.NewSectionReader(fsys.ra, e.Offset, e.size()),
+		Entry: e,
+	}, nil
 }
 
 func (fsys *FS) Entries() []*Entry {
@@ -157,27 +206,26 @@ func (r root) ModTime() time.Time { return time.Unix(0, 0) }
 func (r root) IsDir() bool        { return true }
 func (r root) Sys() any           { return nil }
 
+// Stat describes the entry with the given name; a link at its end is not followed.
 func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
-	if i, ok := fsys.index[name]; ok {
-		return fsys.files[i].fi, nil
-	}
-
-	// fs.WalkDir expects "." to return a root entry to bootstrap the walk.
-	// If we didn't find it above, synthesize one.
-	if name == "." {
-		return root{}, nil
+	e, err := fsys.resolve(name, false)
+	if err != nil {
+		return nil, err
 	}
 
-	return nil, fs.ErrNotExist
+	return e.fi, nil
 }
 
 func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
-	dirs, ok := fsys.dirs[name]
-	if !ok {
-		return []fs.DirEntry{}, nil
+	e, err := fsys.resolve(name, true)
+	if err != nil {
+		return nil, err
+	}
+	if !e.IsDir() {
+		return nil, fmt.Errorf("ReadDir(%q): not a directory", name)
 	}
 
-	return dirs, nil
+	return append([]fs.DirEntry{}, fsys.dirs[e.name]...), nil
 }
 
 type countReader struct {
@@ -195,13 +243,10 @@ func New(ra io.ReaderAt, size int64) (*FS, error) {
 	fsys := &FS{
 		ra:    ra,
 		files: []*Entry{},
-		index: map[string]int{},
+		index: map[string]*Entry{},
 		dirs:  map[string][]fs.DirEntry{},
 	}
 
-	// Number of entries in a given directory, so we know how large of a slice to allocate.
-	dirCount := map[string]int{}
-
 	// TODO: Consider caching this across builds.
 	r := io.NewSectionReader(ra, 0, size)
 	cr := &countReader{bufio.NewReaderSize(r, 1<<20), 0}
@@ -214,26 +259,36 @@ func New(ra io.ReaderAt, size int64) (*FS, error) {
 		if err != nil {
 			return nil, err
 		}
-		dir := path.Dir(hdr.Name)
-		fsys.index[hdr.Name] = len(fsys.files)
-		fsys.files = append(fsys.files, &Entry{
+		e := &Entry{
 			Header: *hdr,
 			Offset: cr.n,
-			dir:    dir,
+			name:   clean(hdr.Name),
 			fi:     hdr.FileInfo(),
-		})
+		}
+		fsys.files = append(fsys.files, e)
+		fsys.index[e.name] = e
+	}
+
+	// fs.WalkDir expects "." to return a root entry to bootstrap the walk.
+	// If we didn't find it above, synthesize one.
+	if e, ok := fsys.index["."]; !ok || !e.IsDir() {
+		fsys.index["."] = &Entry{Header: tar.Header{Name: ".", Typeflag: tar.TypeDir}, name: ".", fi: root{}}
+	}
 
-		dirCount[dir]++
+	// Likewise the directories of entries, which need not be entries themselves.
+	for _, e := range fsys.files {
+		for dir := path.Dir(e.name); fsys.index[dir] == nil; dir = path.Dir(dir) {
+			hdr := tar.Header{Name: dir + "/", Typeflag: tar.TypeDir, Mode: 0o755}
+			fsys.index[dir] = &Entry{Header: hdr, name: dir, fi: hdr.FileInfo()}
+		}
 	}
 
 	// Pre-generate the results of ReadDir so we don't allocate a ton if fs.WalkDir calls us.
 	// TODO: Consider doing this lazily in a sync.Once the first time we see a ReadDir.
-	for dir, count := range dirCount {
-		fsys.dirs[dir] = make([]fs.DirEntry, 0, count)
-	}
-
-	for _, f := range fsys.files {
-		fsys.dirs[f.dir] = append(fsys.dirs[f.dir], f)
+	for name, e := range fsys.index {
+		if name != "." {
+			fsys.dirs[path.Dir(name)] = append(fsys.dirs[path.Dir(name)], e)
+		}
 	}
 
 	for _, files := range fsys.dirs {
-- 
2.43.0


From 0de7c69a8a89f56a1079a19fe5aae70b16300c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:44 +0000
Subject: [PATCH 24/55] fix: APKFS lists directories exactly, follows links and
 reports modes

---
 pkg/fs/apkfs.go | 181 +++++++++++++++++++++++++++++-------------------
 1 file changed, 109 insertions(+), 72 deletions(-)

diff --git a/pkg/fs/apkfs.go b/pkg/fs/apkfs.go
index 0c8ddc5..5d064eb 100644
--- a/pkg/fs/apkfs.go
+++ b/pkg/fs/apkfs.go
@@ -4,9 +4,12 @@ import (
 	"archive/tar"
 	"compress/gzip"
 	"context"
+	"errors"
 	"io"
 	"io/fs"
 	"os"
+	"path"
+	"sort"
 	"strings"
 	"time"
 
@@ -56,20 +59,12 @@ func (a *APKFS) getTarReader() (*os.File, *tar.Reader, error) {
 	}
 	gzipStream, err := gzip.NewReader(file)
 	if err != nil {
+		file.Close()
 		return nil, nil, err
 	}
 	tr := tar.NewReader(gzipStream)
 	return file, tr, nil
 }
-func correctMode(mode fs.FileMode, header *tar.Header) fs.FileMode {
-	switch header.Typeflag {
-	case tar.TypeSymlink:
-		mode |= fs.ModeSymlink
-	case tar.TypeDir:
-		mode |= fs.ModeDir
-	}
-	return mode
-}
 func NewAPKFS(ctx context.Context, archive string, apkfsType APKFSType) (*APKFS, error) {
 	result := APKFS{archive, make(map[string]*apkFSFile), ctx, nil, apkfsType}
 
@@ -101,7 +96,7 @@ func NewAPKFS(ctx context.Context, archive string, apkfsType APKFSType) (*APKFS,
 	}
 
 	reader := tar.NewReader(gzipStream)
-	for {
+	for index := 0; ; index++ {
 		header, err := reader.Next()
 
 		if err == io.EOF {
@@ -110,11 +105,12 @@ func NewAPKFS(ctx context.Context, archive string, apkfsType APKFSType) (*APKFS,
 			return nil, err
 		}
 
-		currentEntry := apkFSFile{mode: correctMode(fs.FileMode(header.Mode), header), name: "/" + header.Name,
+		name := path.Clean("/" + header.Name)
+		currentEntry := apkFSFile{mode: header.FileInfo().Mode(), tarMode: header.Mode, name: name, index: index,
 			uid: header.Uid, gid: header.Gid,
 			size: uint64(header.Size), modTime: header.ModTime,
 			createTime: header.ChangeTime,
-			linkTarget: header.Linkname, isDir: header.Typeflag == tar.TypeDir,
+			linkTarget: header.Linkname, isDir: header.Typeflag == tar.TypeDir, isHardLink: header.Typeflag == tar.TypeLink,
 			xattrs: make(map[string][]byte), fs: &result}
 		for k, v := range header.PAXRecords {
 			// If this trend continues then it would be wise to move the
@@ -124,21 +120,38 @@ func NewAPKFS(ctx context.Context, archive string, apkfsType APKFSType) (*APKFS,
 				currentEntry.xattrs[attrname] = []byte(v)
 			}
 		}
-		result.files["/"+header.Name] = &currentEntry
+		result.files[name] = &currentEntry
 	}
 
-	result.files["/"] = &apkFSFile{mode: 0777 | fs.ModeDir, name: "/",
-		uid: 0, gid: 0,
-		size: 0, modTime: time.Unix(0, 0),
-		createTime: time.Unix(0, 0),
-		linkTarget: "", isDir: true,
-		xattrs: make(map[string][]byte), fs: &result}
+	if root, ok := result.files["/"]; !ok || !root.isDir {
+		result.files["/"] = result.implicitDir("/", 0777)
+	}
+	names := make([]string, 0, len(result.files))
+	for name := range result.files {
+		names = append(names, name)
+	}
+	for _, name := range names {
+		// Directories need not be entries of the archive themselves.
+		for dir := path.Dir(name); result.files[dir] == nil; dir = path.Dir(dir) {
+			result.files[dir] = result.implicitDir(dir, 0755)
+		}
+	}
 	result.cache, err = result.acquireCache()
 	if err != nil {
 		return nil, err
 	}
 	return &result, nil
 }
+
+// implicitDir is a directory that is not in the archive.
+func (a *APKFS) implicitDir(name string, perm fs.FileMode) *apkFSFile {
+	return &apkFSFile{mode: perm | fs.ModeDir, tarMode: int64(perm), name: name, index: -1,
+		uid: 0, gid: 0,
+		size: 0, modTime: time.Unix(0, 0),
+		createTime: time.Unix(0, 0),
+		linkTarget: "", isDir: true,
+		xattrs: make(map[string][]byte), fs: a}
+}
 func (a *APKFS) Close() error {
 	if a.cache == nil {
 		return nil
@@ -148,6 +161,7 @@ func (a *APKFS) Close() error {
 
 type apkFSFile struct {
 	mode       fs.FileMode
+	tarMode    int64
 	uid, gid   int
 	name       string
 	size       uint64
@@ -157,6 +171,8 @@ type apkFSFile struct {
 	linkCount  int
 	xattrs     map[string][]byte
 	isDir      bool
+	isHardLink bool
+	index      int // position in the archive, -1 if it is not an entry of the archive
 	fs         *APKFS
 	// The following fields are not initialized in the copies held
 	// by the apkfs object.
@@ -167,27 +183,29 @@ type apkFSFile struct {
 // Users of the api should not handle the copies referred to in the
 // filesystem object.
 func (a *apkFSFile) acquireCopy() *apkFSFile {
-	return &apkFSFile{mode: a.mode, uid: a.uid, gid: a.gid, size: a.size,
+	return &apkFSFile{mode: a.mode, tarMode: a.tarMode, uid: a.uid, gid: a.gid, size: a.size,
 		name: a.name, modTime: a.modTime, createTime: a.createTime, linkTarget: a.linkTarget,
-		linkCount: a.linkCount, xattrs: a.xattrs, isDir: a.isDir, fs: a.fs,
+		linkCount: a.linkCount, xattrs: a.xattrs, isDir: a.isDir, isHardLink: a.isHardLink, index: a.index, fs: a.fs,
 		fileDescriptor: nil, tarReader: nil}
 }
 func (a *apkFSFile) seekTo(reader *tar.Reader) error {
-	for {
-		header, err := reader.Next()
-		if err == os.ErrNotExist {
-			break
+	for i := 0; ; i++ {
+		_, err := reader.Next()
+		if err == io.EOF {
+			return os.ErrNotExist
 		} else if err != nil {
 			return err
 		}
-		if header.Name == a.name[1:] {
+		if i == a.index {
 			return nil
 		}
 	}
-	return os.ErrNotExist
 }
 
 func (a *apkFSFile) Read(b []byte) (int, error) {
+	if a.tarReader == nil {
+		return 0, io.EOF
+	}
 	return a.tarReader.Read(b)
 }
 func (a *apkFSFile) Stat() (fs.FileInfo, error) {
@@ -204,74 +222,93 @@ func (a *apkFSFile) Close() error {
 	return nil
 }
 
-func (a *APKFS) Stat(path string) (fs.FileInfo, error) {
-	path = correctApkFSPath(path)
-	file, ok := a.files[path]
-	if !ok {
-		return nil, os.ErrNotExist
+// Stat describes the file with the given name; a link at its end is not followed.
+func (a *APKFS) Stat(name string) (fs.FileInfo, error) {
+	file, err := a.resolve(name, false)
+	if err != nil {
+		return nil, err
 	}
-	onlyName := file.name[strings.LastIndex(file.name, "/"):]
-	info := &apkFSFileInfo{file: file, name: onlyName}
-	return info, nil
+	return &apkFSFileInfo{file: file, name: path.Base(file.name)}, nil
 }
-func correctApkFSPath(path string) string {
-	if path == "." {
-		path = "/"
-	}
-	if len(path) > 3 && path[:2] == "./" {
-		path = path[1:]
-	}
 
-	if len(path) < 1 || path[0:1] != "/" {
-		path = "/" + path
-	}
+const maxAPKFSLinks = 64
 
-	return path
+// resolve finds the file with the given name, following links in its directories, and at its end if follow is set.
+func (a *APKFS) resolve(name string, follow bool) (*apkFSFile, error) {
+	current := a.files["/"]
+	links := 0
+	for rest := strings.Split(path.Clean("/"+name), "/"); len(rest) > 0; {
+		elem := rest[0]
+		rest = rest[1:]
+		if elem == "" || elem == "." {
+			continue
+		}
+		if !current.isDir {
+			return nil, fs.ErrNotExist
+		}
+		if elem == ".." {
+			current = a.files[path.Dir(current.name)]
+			continue
+		}
+		next, ok := a.files[path.Join(current.name, elem)]
+		if !ok {
+			return nil, fs.ErrNotExist
+		}
+		last := true
+		for _, r := range rest {
+			last = last && (r == "" || r == ".")
+		}
+		isLink := next.isHardLink || next.mode&fs.ModeSymlink != 0
+		if !isLink || (last && !follow) {
+			current = next
+			continue
+		}
+		if links++; links > maxAPKFSLinks {
+			return nil, &fs.PathError{Op: "open", Path: name, Err: errors.New("too many links")}
+		}
+		// The target of a hard link is the name of another entry, whatever the directory of the link.
+		if next.isHardLink || path.IsAbs(next.linkTarget) {
+			current = a.files["/"]
+		}
+		rest = append(strings.Split(next.linkTarget, "/"), rest...)
+	}
+	return current, nil
 }
-func (a *APKFS) ReadDir(path string) ([]fs.DirEntry, error) {
-	path = correctApkFSPath(path)
-	file, ok := a.files[path]
-	if !ok {
-		return nil, fs.ErrNotExist
+func (a *APKFS) ReadDir(name string) ([]fs.DirEntry, error) {
+	file, err := a.resolve(name, true)
+	if err != nil {
+		return nil, err
 	}
 	if !file.isDir {
 		return nil, fs.ErrInvalid
 	}
 	results := make([]fs.DirEntry, 0)
 	for currentPath, currentFile := range a.files {
-		if path == currentPath {
-			continue
-		}
-		pathPrefix := path
-		if path != "/" {
-			pathPrefix += "/"
-		}
-		if strings.HasPrefix(currentPath, pathPrefix) {
-			if strings.LastIndex(currentPath, "/") > len(path)+1 {
-				// some sub-sub directory, not yet
-				continue
-			}
-			results = append(results, &apkFSFileInfo{currentFile, currentPath[strings.LastIndex(currentPath, "/"):]})
+		if currentPath != "/" && path.Dir(currentPath) == file.name {
+			results = append(results, &apkFSFileInfo{currentFile, path.Base(currentPath)})
 		}
 	}
+	sort.Slice(results, func(i, j int) bool { return results[i].Name() < results[j].Name() })
 	return results, nil
 }
 
-func (a *APKFS) Open(path string) (fs.File, error) {
-	path = correctApkFSPath(path)
-	file, ok := a.files[path]
-	if !ok {
-		return nil, os.ErrNotExist
+func (a *APKFS) Open(name string) (fs.File, error) {
+	file, err := a.resolve(name, true)
+	if err != nil {
+		return nil, err
 	}
 
 	fileCopy := file.acquireCopy()
-	var err error
+	if file.index < 0 {
+		return fileCopy, nil
+	}
 	fileCopy.fileDescriptor, fileCopy.tarReader, err = a.getTarReader()
 	if err != nil {
 		return nil, err
 	}
 	err = fileCopy.seekTo(fileCopy.tarReader)
 	if err != nil {
+		fileCopy.Close()
 		return nil, err
 	}
 	return fileCopy, nil
@@ -292,7 +329,7 @@ func (a *apkFSFileInfo) Mode() fs.FileMode {
 	return a.file.mode
 }
 func (a *apkFSFileInfo) Type() fs.FileMode {
-	return a.Mode()
+	return a.Mode().Type()
 }
 func (a *apkFSFileInfo) Info() (fs.FileInfo, error) {
 	return a, nil
@@ -305,7 +342,7 @@ func (a *apkFSFileInfo) IsDir() bool {
 }
 func (a *apkFSFileInfo) Sys() any {
 	return &tar.Header{
-		Mode: int64(a.file.mode),
+		Mode: a.file.tarMode,
 		Uid:  a.file.uid,
 		Gid:  a.file.gid,
 	}
-- 
2.43.0


From 6d0cb5d4c675cde164778f58403e13d902c3478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:11 +0000
Subject: [PATCH 25/55] fix: record every file of a package in the installed
 database and read it back completely

---
 pkg/apk/installed.go | 167 +++++++++++++++++++++++++++++--------------
 pkg/apk/package.go   |   2 +-
 2 files changed, 115 insertions(+), 54 deletions(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 141a763..451317a 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -32,6 +32,9 @@ import (
 	"github.com/klauspost/compress/gzip"
 )
 
+// maxInstalledLine is the longest line accepted in the installed database.
+const maxInstalledLine = 64 << 20
+
 type InstalledPackage struct {
 	Package
 	Files []tar.Header
@@ -57,12 +60,15 @@ func (a *APK) AddInstalledPackage(pkg *Package, files []tar.Header) error {
 	defer installedFile.Close()
 
 	// sort the files by directory
-	sortedFiles := sortTarHeaders(files)
+	sortedFiles := sortTarHeaders(withParents(files))
 	// package lines
 	pkgLines := PackageToInstalled(pkg)
-	// file lines
+	// file lines; files in the root directory come first
+	if len(sortedFiles) != 0 && sortedFiles[0].Typeflag != tar.TypeDir {
+		pkgLines = append(pkgLines, "F:")
+	}
 	for _, f := range sortedFiles {
-		perm := f.Mode & 0777
+		perm := f.Mode & 07777
 		user := f.Uid
 		group := f.Gid
 
@@ -238,24 +244,41 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 	packages := []*InstalledPackage{}
 
 	indexScanner := bufio.NewScanner(installed)
+	indexScanner.Buffer(nil, maxInstalledLine)
 
 	pkg := &InstalledPackage{}
-	linenr := 1
-	var lastDir, lastFile *tar.Header
+	linenr := 0
+	inPackage := false
+	// The last directory, which may be the root directory "", and the index in pkg.Files of it and of the last file.
+	var dir *string
+	lastDir, lastFile := -1, -1
+
+	flush := func() error {
+		if inPackage && pkg.Name == "" {
+			return fmt.Errorf("cannot parse package before line %d: it has no name", linenr)
+		}
+		if inPackage {
+			packages = append(packages, pkg)
+		}
+		pkg = &InstalledPackage{}
+		inPackage = false
+		dir = nil
+		lastDir, lastFile = -1, -1
+		return nil
+	}
 
 	for indexScanner.Scan() {
+		linenr++
 		line := indexScanner.Text()
 		if line == "" {
-			if pkg.Name != "" {
-				packages = append(packages, pkg)
+			if err := flush(); err != nil {
+				return nil, err
 			}
-			pkg = &InstalledPackage{}
-			lastDir = nil
-			lastFile = nil
 			continue
 		}
+		inPackage = true
 
-		if len(line) > 1 && line[1:2] != ":" {
+		if len(line) < 2 || line[1:2] != ":" {
 			return nil, fmt.Errorf("cannot parse line %d: expected \":\" in not found", linenr)
 		}
 
@@ -280,11 +303,11 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 		case "U":
 			pkg.URL = val
 		case "D":
-			pkg.Dependencies = strings.Split(val, " ")
+			pkg.Dependencies = strings.Fields(val)
 		case "p":
-			pkg.Provides = strings.Split(val, " ")
+			pkg.Provides = strings.Fields(val)
 		case "r":
-			pkg.Replaces = strings.Split(val, " ")
+			pkg.Replaces = strings.Fields(val)
 		case "c":
 			pkg.RepoCommit = val
 		case "t":
@@ -295,7 +318,7 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 			pkg.BuildDate = i
 			pkg.BuildTime = time.Unix(i, 0).UTC()
 		case "i":
-			pkg.InstallIf = strings.Split(val, " ")
+			pkg.InstallIf = strings.Fields(val)
 		case "S":
 			size, err := strconv.ParseUint(val, 10, 64)
 			if err != nil {
@@ -324,54 +347,70 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 				pkg.Checksum = checksum
 			}
 		case "F":
-			lastDir = &tar.Header{
-				Name:     val,
-				Mode:     0o755,
-				Uid:      0,
-				Gid:      0,
-				Typeflag: tar.TypeDir,
+			dir = &val
+			lastDir, lastFile = -1, -1
+			// The root directory is not a directory of the package.
+			if val != "" {
+				lastDir = len(pkg.Files)
+				pkg.Files = append(pkg.Files, tar.Header{
+					Name:     val,
+					Mode:     0o755,
+					Uid:      0,
+					Gid:      0,
+					Typeflag: tar.TypeDir,
+				})
 			}
-			pkg.Files = append(pkg.Files, *lastDir)
-			lastFile = nil
 		case "M":
 			// directory perms if not 0o755
-			if lastDir == nil {
+			if dir == nil {
 				return nil, fmt.Errorf("cannot parse line %d: no directory specified when setting permissions", linenr)
 			}
 			uid, gid, perms, err := parseInstalledPerms(val)
 			if err != nil {
 				return nil, fmt.Errorf("cannot parse line %d: %w", linenr, err)
 			}
-			lastDir.Uid = uid
-			lastDir.Gid = gid
-			lastDir.Mode = perms
+			if lastDir >= 0 {
+				pkg.Files[lastDir].Uid = uid
+				pkg.Files[lastDir].Gid = gid
+				pkg.Files[lastDir].Mode = perms
+			}
 		case "R":
 			fullpath := val
-			if lastDir != nil {
-				fullpath, _ = sanitizeArchivePath(lastDir.Name, val)
+			if dir != nil && *dir != "" {
+				var err error
+				fullpath, err = sanitizeArchivePath(*dir, val)
+				if err != nil {
+					return nil, fmt.Errorf("cannot parse line %d: %w", linenr, err)
+				}
 			}
-			lastFile = &tar.Header{
+			lastFile = len(pkg.Files)
+			pkg.Files = append(pkg.Files, tar.Header{
 				Name: fullpath,
 				Mode: 0o644,
 				Uid:  0,
 				Gid:  0,
-			}
-			pkg.Files = append(pkg.Files, *lastFile)
+			})
 		case "a":
 			// file perms if not 0o644
-			if lastFile == nil {
+			if lastFile < 0 {
 				return nil, fmt.Errorf("cannot parse line %d: no file specified when setting permissions", linenr)
 			}
 			uid, gid, perms, err := parseInstalledPerms(val)
 			if err != nil {
 				return nil, fmt.Errorf("cannot parse line %d: %w", linenr, err)
 			}
-			lastFile.Uid = uid
-			lastFile.Gid = gid
-			lastFile.Mode = perms
+			pkg.Files[lastFile].Uid = uid
+			pkg.Files[lastFile].Gid = gid
+			pkg.Files[lastFile].Mode = perms
 		}
-
-		linenr++
+	}
+	if err := indexScanner.Err(); err != nil {
+		return nil, fmt.Errorf("cannot parse line %d: %w", linenr+1, err)
+	}
+	// The last package need not be followed by an empty line.
+	linenr++
+	if err := flush(); err != nil {
+		return nil, err
 	}
 
 	return packages, nil
@@ -397,6 +436,28 @@ func parseInstalledPerms(permString string) (uid, gid int, perms int64, err erro
 	return
 }
 
+// withParents returns the headers under their plain names (no leading "./" or "/", no trailing "/"), without the
+// root directory, and with a header for each directory that has entries but none itself.
+func withParents(headers []tar.Header) []tar.Header {
+	seen := map[string]bool{".": true}
+	out := make([]tar.Header, 0, len(headers))
+	for _, header := range headers {
+		header.Name = strings.TrimPrefix(filepath.Clean("/"+header.Name), "/")
+		if header.Name == "" {
+			continue
+		}
+		seen[header.Name] = true
+		out = append(out, header)
+	}
+	for _, header := range out {
+		for dir := filepath.Dir(header.Name); !seen[dir]; dir = filepath.Dir(dir) {
+			seen[dir] = true
+			out = append(out, tar.Header{Name: dir, Mode: 0o755, Typeflag: tar.TypeDir})
+		}
+	}
+	return out
+}
+
 // sortTarHeaders sorts tar headers by name. It ensures that all file children
 // of a directory are listed immediately after the directory itself. This is to
 // support lib/apk/db/installed, which lists full paths for directories, but
@@ -417,30 +478,30 @@ func sortTarHeaders(headers []tar.Header) []tar.Header {
 		cleanedName := filepath.Clean(header.Name)
 
 		dir := filepath.Dir(cleanedName)
-		directoryChildren[dir] = append(directoryChildren[dir], cleanedName)
+		if _, ok := all[cleanedName]; !ok {
+			directoryChildren[dir] = append(directoryChildren[dir], cleanedName)
+		}
 		all[cleanedName] = header
 	}
 
-	// Map the directory entries (the keys in "directoryChildren") to a slice (and
-	// sort them for determinism).
-	var dirEntries = make([]string, 0, len(directoryChildren))
+	// Top-level directories with entries below that cannot be reached from them are left out.
+	unreachable := map[string]bool{}
 	for dir := range directoryChildren {
-		dirEntries = append(dirEntries, dir)
+		if _, ok := all[dir]; !ok && dir != "." {
+			top, _, _ := strings.Cut(dir, "/")
+			unreachable[top] = true
+		}
 	}
-	sort.Strings(dirEntries)
 
-	// We'll start with top-level directories, and then descend into their children
-	// recursively.
-	var topLevelDirs = make([]string, 0, len(dirEntries))
-	for _, dir := range dirEntries {
-		if filepath.Dir(dir) == "." {
-			topLevelDirs = append(topLevelDirs, dir)
+	// We'll start with the top level, and then descend into the children recursively.
+	var topLevel = make([]string, 0, len(directoryChildren["."]))
+	for _, child := range directoryChildren["."] {
+		if len(directoryChildren[child]) != 0 || !unreachable[child] {
+			topLevel = append(topLevel, child)
 		}
 	}
 
-	sort.Strings(topLevelDirs)
-
-	sorted := sortChildrenTarHeaders(directoryChildren, all, topLevelDirs)
+	sorted := sortChildrenTarHeaders(directoryChildren, all, topLevel)
 	return sorted
 }
 
diff --git a/pkg/apk/package.go b/pkg/apk/package.go
index df914de..981d4e4 100644
--- a/pkg/apk/package.go
+++ b/pkg/apk/package.go
@@ -42,7 +42,7 @@ func PackageToInstalled(pkg *Package) (out []string) {
 		out = append(out, fmt.Sprintf("r:%s", strings.Join(pkg.Replaces, " ")))
 	}
 	out = append(out, fmt.Sprintf("c:%s", pkg.RepoCommit))
-	out = append(out, fmt.Sprintf("i:%s", pkg.InstallIf))
+	out = append(out, fmt.Sprintf("i:%s", strings.Join(pkg.InstallIf, " ")))
 	out = append(out, fmt.Sprintf("t:%d", pkg.BuildTime.Unix()))
 	out = append(out, fmt.Sprintf("S:%d", pkg.Size))
 	out = append(out, fmt.Sprintf("I:%d", pkg.InstalledSize))
-- 
2.43.0


From 152c8903f36e1c7d8cb2ef3e61b1d05394afff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 26/55] fix: keep shared files with their first owner, whatever
 their origin and spelling

An identical file of a package without an origin was an error; two packages
without an origin counted as one origin; a name written ./usr/x was not
recognised as usr/x.
---
 pkg/apk/implementation.go |  2 +-
 pkg/apk/install.go        | 21 ++++++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index c105a25..68edff9 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -683,7 +683,7 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 
 		// Remove any files that were overwritten by another package.
 		files = slices.DeleteFunc(files, func(hdr tar.Header) bool {
-			owner, ok := a.installedFiles[hdr.Name]
+			owner, ok := a.installedFiles[installedPath(hdr.Name)]
 			if !ok {
 				// Keep directories, which actually should be duplicated in the idb.
 				return false
diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index b1daadd..0df92be 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -25,6 +25,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path"
 	"strings"
 
 	"go.opentelemetry.io/otel"
@@ -67,6 +68,11 @@ func (a *APK) writeOneFile(header *tar.Header, r io.Reader, allowOverwrite bool)
 	return nil
 }
 
+// installedPath is the path of a file of a package however its name is written in the archive.
+func installedPath(name string) string {
+	return strings.TrimPrefix(path.Clean("/"+name), "/")
+}
+
 // installRegularFile handles the various error modes of writing a regular file
 func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir string, pkg *Package) (bool, error) {
 	checksum, err := checksumFromHeader(header)
@@ -93,6 +99,7 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 		if err != nil {
 			return false, fmt.Errorf("error creating temporary file: %w", err)
 		}
+		defer f.Close()
 
 		if _, err := io.Copy(f, tee); err != nil {
 			return false, fmt.Errorf("error copying file %s: %w", header.Name, err)
@@ -112,7 +119,7 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 	if err := a.writeOneFile(header, r, false); err != nil {
 		// If the error is something other than the file exists, return the error.
 		var fileExistsError FileExistsError
-		if !errors.As(err, &fileExistsError) || pkg.Origin == "" {
+		if !errors.As(err, &fileExistsError) {
 			return false, err
 		}
 
@@ -127,7 +134,7 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 		// 2. The packages are in the same origin.
 
 		// If the existing file's package replaces the package we want to install, we don't need to write this file.
-		pk, ok := a.installedFiles[header.Name]
+		pk, ok := a.installedFiles[installedPath(header.Name)]
 		if !ok {
 			return false, fmt.Errorf("found existing file we did not install (this should never happen): %s", header.Name)
 		}
@@ -140,7 +147,7 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 
 		// Otherwise, we can only overwrite the file if it's in the same origin or if it replaces the existing package.
 		_, isReplaced := replaceMap[pk.Name]
-		if pk.Origin != pkg.Origin && !isReplaced {
+		if (pkg.Origin == "" || pk.Origin != pkg.Origin) && !isReplaced {
 			return false, fmt.Errorf("unable to install file over existing one, different contents: %s", header.Name)
 		}
 
@@ -202,7 +209,7 @@ func (a *APK) installAPKFiles(ctx context.Context, in io.Reader, pkg *Package) (
 		}
 		// if it was a hidden file and not a directory and we have not yet started the data section,
 		// so skip this file
-		if !startedDataSection && header.Name[0] == '.' && !strings.Contains(header.Name, "/") {
+		if !startedDataSection && strings.HasPrefix(header.Name, ".") && !strings.Contains(header.Name, "/") {
 			continue
 		}
 		// whatever it is now, it is in the data section
@@ -241,7 +248,7 @@ func (a *APK) installAPKFiles(ctx context.Context, in io.Reader, pkg *Package) (
 			}
 
 			if installed {
-				a.installedFiles[header.Name] = pkg
+				a.installedFiles[installedPath(header.Name)] = pkg
 			}
 
 		case tar.TypeSymlink:
@@ -317,7 +324,7 @@ func (a *APK) lazilyInstallAPKFiles(ctx context.Context, wh WriteHeaderer, tf *t
 		//  * considered to start the data section of the file.
 		//  * This does not make any sense if the file has v2.0
 		//  * style .PKGINFO
-		if !startedDataSection && file.Header.Name[0] == '.' && !strings.Contains(file.Header.Name, "/") {
+		if !startedDataSection && strings.HasPrefix(file.Header.Name, ".") && !strings.Contains(file.Header.Name, "/") {
 			continue
 		}
 		// whatever it is now, it is in the data section
@@ -329,7 +336,7 @@ func (a *APK) lazilyInstallAPKFiles(ctx context.Context, wh WriteHeaderer, tf *t
 		}
 
 		if installed && file.Header.Typeflag == tar.TypeReg {
-			a.installedFiles[file.Header.Name] = pkg
+			a.installedFiles[installedPath(file.Header.Name)] = pkg
 		}
 
 		files = append(files, file.Header)
-- 
2.43.0


From 8d8f3987e7897adf3174ee3a1b1e03a247f1b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 27/55] fix: record every script and trigger of an installed
 package

A long script name did not fit the format of its header, a trigger line
with a second '=' was dropped, a triggers file created here had no
permissions, and a failure to complete the scripts archive went unnoticed.
---
 pkg/apk/installed.go | 7 ++++++-
 pkg/apk/util.go      | 9 ++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 451317a..0c2e591 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -162,6 +162,8 @@ func (a *APK) updateScriptsTar(pkg *Package, controlTarGz io.Reader, sourceDateE
 
 		origName := header.Name
 		header.Name = fmt.Sprintf("%s-%s.Q1%s%s", pkg.Name, pkg.Version, base64.StdEncoding.EncodeToString(pkg.Checksum), origName)
+		// The longer name may not fit the format of the package's header; USTAR is still used if it fits.
+		header.Format = tar.FormatUnknown
 
 		// zero out timestamps for reproducibility
 		if sourceDateEpoch != nil {
@@ -180,6 +182,9 @@ func (a *APK) updateScriptsTar(pkg *Package, controlTarGz io.Reader, sourceDateE
 			return fmt.Errorf("unable to write content for %s: %w", header.Name, err)
 		}
 	}
+	if err := tw.Close(); err != nil {
+		return fmt.Errorf("unable to complete scripts file %s: %w", scriptsFilePath, err)
+	}
 	return nil
 }
 
@@ -210,7 +215,7 @@ func (a *APK) controlValue(controlTarGz io.Reader, want string) ([]string, error
 
 // updateTriggers insert the triggers into the triggers file
 func (a *APK) updateTriggers(pkg *Package, controlTarGz io.Reader) error {
-	triggers, err := a.fs.OpenFile(triggersFilePath, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0)
+	triggers, err := a.fs.OpenFile(triggersFilePath, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
 	if err != nil {
 		return fmt.Errorf("unable to open triggers file %s: %w", triggersFilePath, err)
 	}
diff --git a/pkg/apk/util.go b/pkg/apk/util.go
index 72e04b2..d68f308 100644
--- a/pkg/apk/util.go
+++ b/pkg/apk/util.go
@@ -62,11 +62,11 @@ func controlValue(controlTar io.Reader, want ...string) (map[string][]string, er
 		}
 		lines := strings.Split(string(b), "\n")
 		for _, line := range lines {
-			parts := strings.Split(line, "=")
-			if len(parts) != 2 {
+			key, value, ok := strings.Cut(line, "=")
+			if !ok {
 				continue
 			}
-			key := strings.TrimSpace(parts[0])
+			key = strings.TrimSpace(key)
 			if !slices.Contains(want, key) {
 				continue
 			}
@@ -76,8 +76,7 @@ func controlValue(controlTar io.Reader, want ...string) (map[string][]string, er
 				values = []string{}
 			}
 
-			value := strings.TrimSpace(parts[1])
-			values = append(values, value)
+			values = append(values, strings.TrimSpace(value))
 
 			mapping[key] = values
 		}
-- 
2.43.0


From 8feebce2a4b98c36c67b039265cd237f52ad4962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 28/55] fix: ExpandApk reports packages that end early and
 cleans up after errors

An empty body crashed, a signed package ending after its control section
was taken for an unsigned one, and the temporary directory was left behind.
---
 pkg/expandapk/expandapk.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index 5f4fc4f..2f6e990 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -325,7 +325,7 @@ func (r *expandApkReader) EnableFastRead() {
 //
 // Returns an APKExpanded struct containing references to the file. You *must* call APKExpanded.Close()
 // when finished to clean up the various files.
-func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpanded, error) {
+func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (_ *APKExpanded, rerr error) {
 	ctx, span := otel.Tracer("go-apk").Start(ctx, "ExpandApk")
 	defer span.End()
 
@@ -333,6 +333,11 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if rerr != nil {
+			os.RemoveAll(dir)
+		}
+	}()
 
 	sw, err := newExpandApkWriter(dir, "stream", "tar.gz")
 	if err != nil {
@@ -413,8 +418,10 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 		}
 	}
 
-	if err := gzi.Close(); err != nil {
-		return nil, fmt.Errorf("expandApk error 6: %w", err)
+	if gzi != nil {
+		if err := gzi.Close(); err != nil {
+			return nil, fmt.Errorf("expandApk error 6: %w", err)
+		}
 	}
 	if err := sw.CloseFile(); err != nil {
 		return nil, fmt.Errorf("expandApk error 7: %w", err)
@@ -432,16 +439,16 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 		totalSize += info.Size()
 	}
 
+	// A signed package that ends after its control section must not pass for an unsigned one.
+	if numGzipStreams != sw.maxStreams {
+		return nil, fmt.Errorf("invalid number of tar streams: %d", numGzipStreams)
+	}
+
 	var signed bool
 	var controlDataIndex int
-	switch numGzipStreams {
-	case 3:
+	if numGzipStreams == 3 {
 		signed = true
 		controlDataIndex = 1
-	case 2:
-		controlDataIndex = 0
-	default:
-		return nil, fmt.Errorf("invalid number of tar streams: %d", numGzipStreams)
 	}
 
 	expanded := APKExpanded{
-- 
2.43.0


From 3426f4e595f36eec9100f05ce68076d25f1280e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 29/55] fix: do not install or cache a package that is not the
 one the index promises

Neither the control section's checksum nor the data hash it declares were
compared with what was fetched.
---
 pkg/apk/implementation.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 68edff9..07efa75 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -992,6 +992,11 @@ func expandPackage(ctx context.Context, a *APK, pkg InstallablePackage) (*expand
 		return nil, fmt.Errorf("expanding %s: %w", pkg.PackageName(), err)
 	}
 
+	if err := verifyPackage(pkg, exp); err != nil {
+		exp.Close()
+		return nil, fmt.Errorf("verifying %s: %w", pkg.PackageName(), err)
+	}
+
 	// If we don't have a cache, we're done.
 	if a.cache == nil {
 		return exp, nil
@@ -1000,6 +1005,36 @@ func expandPackage(ctx context.Context, a *APK, pkg InstallablePackage) (*expand
 	return a.cachePackage(ctx, pkg, exp, cacheDir)
 }
 
+// verifyPackage checks an expanded package against the control checksum its index
+// promises and against the data hash its control section declares.
+func verifyPackage(pkg InstallablePackage, exp *expandapk.APKExpanded) error {
+	if chk, ok := strings.CutPrefix(pkg.ChecksumString(), "Q1"); ok && chk != "" {
+		want, err := base64.StdEncoding.DecodeString(chk)
+		if err != nil {
+			return fmt.Errorf("decoding checksum %q: %w", chk, err)
+		}
+		if !bytes.Equal(want, exp.ControlHash) {
+			return fmt.Errorf("control section checksum is %x, want %x", exp.ControlHash, want)
+		}
+	}
+
+	control, err := exp.ControlData()
+	if err != nil {
+		return err
+	}
+	values, err := controlValue(bytes.NewReader(control), "datahash")
+	if err != nil {
+		return fmt.Errorf("reading datahash from control: %w", err)
+	}
+	for _, want := range values["datahash"] {
+		if got := hex.EncodeToString(exp.PackageHash); want != "" && !strings.EqualFold(want, got) {
+			return fmt.Errorf("data section hash is %s, want %s", got, want)
+		}
+	}
+
+	return nil
+}
+
 func packageAsURI(pkg InstallablePackage) (uri.URI, error) {
 	u := pkg.URL()
 
-- 
2.43.0


From 6b6134dfa1a458aabe34b3e6fc947a185afa6c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 30/55] fix: a cached package is found only once all of its
 files are complete

The control file, which marks a package as cached, was moved into the cache
before the signature, and a missing tar file was written in place, so that a
crash left an incomplete package that was served as if it were good.
---
 pkg/apk/implementation.go  | 24 ++++++++++++++----------
 pkg/expandapk/expandapk.go | 12 +++++++++++-
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 07efa75..f91441b 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -785,20 +785,16 @@ func (a *APK) cachePackage(ctx context.Context, pkg InstallablePackage, exp *exp
 
 	// Rename exp's temp files to content-addressable identifiers in the cache.
 
-	ctlHex := hex.EncodeToString(exp.ControlHash)
-	ctlDst := filepath.Join(cacheDir, ctlHex+".ctl.tar.gz")
+	// The control file comes last: it is what cachedPackage looks for, so whenever it exists
+	// everything else is complete.
 
-	if err := os.Rename(exp.ControlFile, ctlDst); err != nil {
-		return nil, fmt.Errorf("renaming control file: %w", err)
-	}
-
-	exp.ControlFile = ctlDst
+	ctlHex := hex.EncodeToString(exp.ControlHash)
 
 	if exp.SignatureFile != "" {
 		sigDst := filepath.Join(cacheDir, ctlHex+".sig.tar.gz")
 
 		if err := os.Rename(exp.SignatureFile, sigDst); err != nil {
-			return nil, fmt.Errorf("renaming control file: %w", err)
+			return nil, fmt.Errorf("renaming signature file: %w", err)
 		}
 
 		exp.SignatureFile = sigDst
@@ -808,17 +804,25 @@ func (a *APK) cachePackage(ctx context.Context, pkg InstallablePackage, exp *exp
 	datDst := filepath.Join(cacheDir, datHex+".dat.tar.gz")
 
 	if err := os.Rename(exp.PackageFile, datDst); err != nil {
-		return nil, fmt.Errorf("renaming control file: %w", err)
+		return nil, fmt.Errorf("renaming data file: %w", err)
 	}
 
 	exp.PackageFile = datDst
 
 	tarDst := strings.TrimSuffix(exp.PackageFile, ".gz")
 	if err := os.Rename(exp.TarFile, tarDst); err != nil {
-		return nil, fmt.Errorf("renaming control file: %w", err)
+		return nil, fmt.Errorf("renaming tar file: %w", err)
 	}
 	exp.TarFile = tarDst
 
+	ctlDst := filepath.Join(cacheDir, ctlHex+".ctl.tar.gz")
+
+	if err := os.Rename(exp.ControlFile, ctlDst); err != nil {
+		return nil, fmt.Errorf("renaming control file: %w", err)
+	}
+
+	exp.ControlFile = ctlDst
+
 	return exp, nil
 }
 
diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index 2f6e990..aba1bf4 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -119,10 +119,16 @@ func (a *APKExpanded) PackageData() (*os.File, error) {
 		return nil, fmt.Errorf("parsing %q: %w", a.PackageFile, err)
 	}
 
-	uf, err = os.Create(a.TarFile)
+	// Write it aside, so that nobody ever finds it incomplete.
+	uf, err = os.CreateTemp(filepath.Dir(a.TarFile), filepath.Base(a.TarFile)+".*.tmp")
 	if err != nil {
 		return nil, fmt.Errorf("opening tar file %q: %w", a.TarFile, err)
 	}
+	defer os.Remove(uf.Name())
+	defer uf.Close()
+	if err := uf.Chmod(0o644); err != nil {
+		return nil, fmt.Errorf("creating tar file %q: %w", a.TarFile, err)
+	}
 
 	buf := make([]byte, bufSize)
 	if _, err := io.CopyBuffer(uf, zr, buf); err != nil {
@@ -133,6 +139,10 @@ func (a *APKExpanded) PackageData() (*os.File, error) {
 		return nil, fmt.Errorf("closing %q: %w", a.TarFile, err)
 	}
 
+	if err := os.Rename(uf.Name(), a.TarFile); err != nil {
+		return nil, fmt.Errorf("renaming tar file: %w", err)
+	}
+
 	return os.Open(a.TarFile)
 }
 
-- 
2.43.0


From de94c741fcf0183dd8506dcee170b7ac074583c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 31/55] fix: remember expanded packages per cache directory and
 checksum, and no failures

An expanded package was remembered by its URL alone, and a failed or
cancelled download made every later one of that URL fail in this process.
---
 pkg/apk/implementation.go | 53 +++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index f91441b..f45f9e9 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -918,33 +918,48 @@ type apkResult struct {
 	err error
 }
 
+// apkKey identifies what is expanded: the same URL can hold another package later,
+// and its files belong to one cache directory.
+type apkKey struct {
+	cacheDir string
+	url      string
+	checksum string
+}
+
+type apkOnce struct {
+	sync.Once
+	apkResult
+}
+
 type apkCache struct {
-	// url -> *sync.Once
+	// apkKey -> *apkOnce
 	onces sync.Map
-
-	// url -> apkResult
-	resps sync.Map
 }
 
 func (c *apkCache) get(ctx context.Context, a *APK, pkg InstallablePackage) (*expandapk.APKExpanded, error) {
-	u := pkg.URL()
-	// Do all the expensive things inside the once.
-	once, _ := c.onces.LoadOrStore(u, &sync.Once{})
-	once.(*sync.Once).Do(func() {
-		exp, err := expandPackage(ctx, a, pkg)
-		c.resps.Store(u, apkResult{
-			exp: exp,
-			err: err,
+	key := apkKey{a.cache.dir, pkg.URL(), pkg.ChecksumString()}
+	for {
+		v, _ := c.onces.LoadOrStore(key, &apkOnce{})
+		once := v.(*apkOnce)
+
+		// Do all the expensive things inside the once.
+		mine := false
+		once.Do(func() {
+			mine = true
+			once.exp, once.err = expandPackage(ctx, a, pkg)
+			if once.err != nil {
+				// Do not remember failures.
+				c.onces.CompareAndDelete(key, once)
+			}
 		})
-	})
 
-	v, ok := c.resps.Load(u)
-	if !ok {
-		panic(fmt.Errorf("did not see apk %q after writing it", u))
-	}
+		if !mine && ctx.Err() == nil && (errors.Is(once.err, context.Canceled) || errors.Is(once.err, context.DeadlineExceeded)) {
+			// Somebody else was cancelled, we were not.
+			continue
+		}
 
-	result := v.(apkResult)
-	return result.exp, result.err
+		return once.exp, once.err
+	}
 }
 
 func (a *APK) expandPackage(ctx context.Context, pkg InstallablePackage) (*expandapk.APKExpanded, error) {
-- 
2.43.0


From b0412c94da163936c38a80344451b593baccd640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 32/55] fix: resolving a package that ends before its control
 section is an error

It was reported as a package without control section, and the errors for
missing values wrapped nothing.
---
 pkg/apk/resolveapk.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/resolveapk.go b/pkg/apk/resolveapk.go
index 3c4dcb2..d00825c 100644
--- a/pkg/apk/resolveapk.go
+++ b/pkg/apk/resolveapk.go
@@ -119,7 +119,7 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 			}
 
 			if sizes, ok := mapping["size"]; !ok {
-				return nil, fmt.Errorf("reading size from control: %w", err)
+				return nil, fmt.Errorf("no size in control")
 			} else if len(sizes) != 1 {
 				return nil, fmt.Errorf("saw %d size values", len(sizes))
 			} else if size, err := strconv.Atoi(sizes[0]); err != nil {
@@ -129,7 +129,7 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 			}
 
 			if datahashes, ok := mapping["datahash"]; !ok {
-				return nil, fmt.Errorf("reading datahash from control: %w", err)
+				return nil, fmt.Errorf("no datahash in control")
 			} else if len(datahashes) != 1 {
 				return nil, fmt.Errorf("saw %d datahash values", len(datahashes))
 			} else if hash, err := hex.DecodeString(datahashes[0]); err != nil {
@@ -154,6 +154,10 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 		streamId++
 	}
 
+	if streamId <= controlIdx {
+		return nil, fmt.Errorf("invalid number of tar streams: %d", streamId)
+	}
+
 	resolved := &APKResolved{
 		SignatureSize: 0,
 		ControlSize:   gzipStreamSizes[controlIdx],
-- 
2.43.0


From c515a76fee3da20d67f8fac9af2820ce96259334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 33/55] fix: give every URL files of its own inside the cache
 directory

The entity tag was used as a file name as it came from the server, so it
could name any file; keys in one directory with the same tag shared a file;
queries were ignored; and credentials in a URL became a directory name.
---
 pkg/apk/cache.go | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 54e7883..487ebf5 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -15,11 +15,13 @@
 package apk
 
 import (
+	"crypto/sha256"
 	"fmt"
 	"io"
 	"net/http"
 	"net/url"
 	"os"
+	"path"
 	"path/filepath"
 	"strings"
 	"sync"
@@ -229,24 +231,31 @@ func (t *cacheTransport) RoundTrip(request *http.Request) (*http.Response, error
 }
 
 func cacheDirFromFile(cacheFile string) string {
-	if strings.HasSuffix(cacheFile, "APKINDEX.tar.gz") {
+	// Keep all the index files under APKINDEX/.
+	if filepath.Base(cacheFile) == indexFilename {
 		return filepath.Join(filepath.Dir(cacheFile), "APKINDEX")
 	}
 
-	return filepath.Dir(cacheFile)
+	// Everything else has a directory of its own, because different files can have the same etag.
+	return cacheFile + ".etags"
 }
 
-func cacheFileFromEtag(cacheFile, etag string) string {
-	cacheDir := filepath.Dir(cacheFile)
-	ext := ".etag"
+// cacheExt is the extension of the files in cacheDirFromFile(cacheFile).
+func cacheExt(cacheFile string) string {
+	if filepath.Base(cacheFile) == indexFilename {
+		return ".tar.gz"
+	}
+	return ".etag"
+}
 
-	// Keep all the index files under APKINDEX/ with appropriate file extension.
-	if strings.HasSuffix(cacheFile, "APKINDEX.tar.gz") {
-		cacheDir = filepath.Join(cacheDir, "APKINDEX")
-		ext = ".tar.gz"
+func cacheFileFromEtag(cacheFile, etag string) string {
+	// The server chooses the etag; make it a plain file name.
+	name := url.QueryEscape(etag)
+	if len(name) > 200 {
+		name = fmt.Sprintf("sha256-%x", sha256.Sum256([]byte(etag)))
 	}
 
-	return filepath.Join(cacheDir, etag+ext)
+	return filepath.Join(cacheDirFromFile(cacheFile), name+cacheExt(cacheFile))
 }
 
 func etagFromResponse(resp *http.Response) (string, bool) {
@@ -329,10 +338,14 @@ func cachePathFromURL(root string, u url.URL) (string, error) {
 	// the last two levels are what we append. For example https://example.com/foo/bar/x86_64/baz.apk
 	// means we want to append x86_64/baz.apk to our cache root
 	u2 := u
+	u2.User = nil // never write credentials to disk
 	u2.ForceQuery = false
 	u2.RawFragment = ""
 	u2.RawQuery = ""
 	filename := filepath.Base(u2.Path)
+	if filename == "." || filename == ".." || filename == string(filepath.Separator) {
+		return "", fmt.Errorf("no file name in URL %s", u.Redacted())
+	}
 	archDir := filepath.Dir(u2.Path)
 	dir := filepath.Base(archDir)
 	repoDir := filepath.Dir(archDir)
@@ -341,11 +354,15 @@ func cachePathFromURL(root string, u url.URL) (string, error) {
 
 	// url encode it so it can be a single directory
 	repoDir = url.QueryEscape(u2.String())
+	if u.RawQuery != "" || u.RawPath != "" || path.Clean(u.Path) != u.Path {
+		// What follows leaves out something that makes this another URL.
+		repoDir += fmt.Sprintf("?%x", sha256.Sum256([]byte(u.EscapedPath()+"?"+u.RawQuery)))
+	}
 	cacheFile := filepath.Join(root, repoDir, dir, filename)
 	// validate it is within root
 	cacheFile = filepath.Clean(cacheFile)
 	cleanroot := filepath.Clean(root)
-	if !strings.HasPrefix(cacheFile, cleanroot) {
+	if !strings.HasPrefix(cacheFile, strings.TrimSuffix(cleanroot, string(filepath.Separator))+string(filepath.Separator)) {
 		return "", fmt.Errorf("cache file %s is not within root %s", cacheFile, cleanroot)
 	}
 	return cacheFile, nil
-- 
2.43.0


From 7a706e05702d962e64e6afae8ba7eece3b6caf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 34/55] fix: do not remember failed downloads of cached indexes
 and keys

A HEAD or GET that failed, was cancelled by another caller, or returned an
error status was remembered for the rest of the process; a GET with an error
status after a successful HEAD returned neither a response nor an error; a
file removed from the cache made every later request fail; failed downloads
left temporary files behind.
---
 pkg/apk/cache.go | 191 +++++++++++++++++++++++++++--------------------
 1 file changed, 112 insertions(+), 79 deletions(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 487ebf5..b410f41 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -15,9 +15,12 @@
 package apk
 
 import (
+	"context"
 	"crypto/sha256"
+	"errors"
 	"fmt"
 	"io"
+	"io/fs"
 	"net/http"
 	"net/url"
 	"os"
@@ -32,105 +35,130 @@ import (
 // Doing this cuts down on the number of requests we send for index and keys.
 var globalEtagCache = &etagCache{}
 
-type etagResp struct {
-	resp      *http.Response
-	err       error
+type etagKey struct {
+	// The file in the cache, without the etag, and the URL it is for.
+	cacheFile, url string
+}
+
+type etagOnce struct {
+	sync.Once
+
+	// Where the response was cached.
 	cacheFile string
+
+	// If there is no cacheFile: the server does not return etags,
+	noEtag bool
+	// or this response
+	resp *http.Response
+	// or error instead.
+	err error
 }
 
 type etagCache struct {
-	// url -> *sync.Once
-	etags sync.Map
-
-	// url -> etagResp
-	resps sync.Map
+	// etagKey -> *etagOnce
+	onces sync.Map
 }
 
-// get dedupes incoming etag-based requests by url (using a sync.Map[string]sync.Once) and stores the results
-// in a sync.Map[string]etagResp. If we request the same URL multiple times, we will only ever reach out to
-// the internet for the first once and reuse the results for all subsequent calls (unless the response does
-// not have an etag).
+// get dedupes incoming etag-based requests by cache file and url (using a sync.Map of etagOnce) and remembers the
+// results. If we request the same URL multiple times, we will only ever reach out to the internet for the first once
+// and reuse the results for all subsequent calls (unless the response does not have an etag). Failures are not
+// remembered, nor are files that are no longer in the cache.
 func (e *etagCache) get(t *cacheTransport, request *http.Request, cacheFile string) (*http.Response, error) {
-	url := request.URL.String()
-
-	// Do all the expensive things inside the once.
-	once, _ := e.etags.LoadOrStore(url, &sync.Once{})
-	once.(*sync.Once).Do(func() {
-		req := request.Clone(request.Context())
-		req.Method = http.MethodHead
-		resp, rerr := t.wrapped.Do(req)
-		if resp != nil {
-			// We don't expect any body from a HEAD so just always close it to appease the linter.
-			resp.Body.Close()
-		}
-		if rerr != nil || resp.StatusCode != 200 {
-			e.resps.Store(url, etagResp{
-				resp: resp,
-				err:  rerr,
-			})
-			return
-		}
+	key := etagKey{cacheFile, request.URL.String()}
+	ctx := request.Context()
+
+	for {
+		v, _ := e.onces.LoadOrStore(key, &etagOnce{})
+		once := v.(*etagOnce)
+
+		// Do all the expensive things inside the once.
+		mine := false
+		once.Do(func() {
+			mine = true
+			once.fetch(t, request, cacheFile)
+			if once.cacheFile == "" && !once.noEtag {
+				// Do not remember failures.
+				e.onces.CompareAndDelete(key, once)
+			}
+		})
 
-		initialEtag, ok := etagFromResponse(resp)
-		if !ok {
-			return
+		if once.noEtag {
+			// If the server doesn't return etags, and we require them,
+			// then do not cache.
+			return t.wrapped.Do(request)
 		}
 
-		// We simulate content-based addressing with the etag values using an .etag
-		// file extension.
-		etagFile := cacheFileFromEtag(cacheFile, initialEtag)
-		if _, err := os.Stat(etagFile); err == nil {
-			e.resps.Store(url, etagResp{
-				cacheFile: etagFile,
-			})
-			return
+		// If we didn't manage to cache it, return the response and/or error.
+		if once.cacheFile == "" {
+			if !mine && ctx.Err() == nil && (errors.Is(once.err, context.Canceled) || errors.Is(once.err, context.DeadlineExceeded)) {
+				// Somebody else was cancelled, we were not.
+				continue
+			}
+			return once.resp, once.err
 		}
 
-		// Only download the index once.
-		etagFile, err := t.retrieveAndSaveFile(request, func(r *http.Response) (string, error) {
-			// On the etag path, use the etag from the actual response to
-			// compute the final file name.
-			finalEtag, ok := etagFromResponse(r)
-			if !ok {
-				return "", fmt.Errorf("GET response did not contain an etag, but HEAD returned %q", initialEtag)
+		f, err := os.Open(once.cacheFile)
+		if err != nil {
+			e.onces.CompareAndDelete(key, once)
+			if !mine && errors.Is(err, fs.ErrNotExist) {
+				// Somebody removed the file from the cache since.
+				continue
 			}
+			return nil, fmt.Errorf("open(%q): %w", once.cacheFile, err)
+		}
 
-			return cacheFileFromEtag(cacheFile, finalEtag), nil
-		})
-		e.resps.Store(url, etagResp{
-			err:       err,
-			cacheFile: etagFile,
-		})
-	})
+		fi, err := f.Stat()
+		if err != nil {
+			f.Close()
+			return nil, fmt.Errorf("stat(%q): %w", once.cacheFile, err)
+		}
 
-	v, ok := e.resps.Load(url)
-	if !ok {
-		// If the server doesn't return etags, and we require them,
-		// then do not cache.
-		return t.wrapped.Do(request)
+		return &http.Response{
+			StatusCode:    http.StatusOK,
+			Body:          f,
+			ContentLength: fi.Size(),
+		}, nil
 	}
-	resp := v.(etagResp)
+}
 
-	// If we didn't manage to cache it, return the response and/or error.
-	if resp.cacheFile == "" {
-		return resp.resp, resp.err
+func (o *etagOnce) fetch(t *cacheTransport, request *http.Request, cacheFile string) {
+	req := request.Clone(request.Context())
+	req.Method = http.MethodHead
+	resp, rerr := t.wrapped.Do(req)
+	if resp != nil {
+		// We don't expect any body from a HEAD so just always close it to appease the linter.
+		resp.Body.Close()
+	}
+	if rerr != nil || resp.StatusCode != 200 {
+		o.resp, o.err = resp, rerr
+		return
 	}
 
-	f, err := os.Open(resp.cacheFile)
-	if err != nil {
-		return nil, fmt.Errorf("open(%q): %w", resp.cacheFile, err)
+	initialEtag, ok := etagFromResponse(resp)
+	if !ok {
+		o.noEtag = true
+		return
 	}
 
-	fi, err := f.Stat()
-	if err != nil {
-		return nil, fmt.Errorf("stat(%q): %w", resp.cacheFile, err)
+	// We simulate content-based addressing with the etag values using an .etag
+	// file extension.
+	etagFile := cacheFileFromEtag(cacheFile, initialEtag)
+	if _, err := os.Stat(etagFile); err == nil {
+		o.cacheFile = etagFile
+		return
 	}
 
-	return &http.Response{
-		StatusCode:    http.StatusOK,
-		Body:          f,
-		ContentLength: fi.Size(),
-	}, nil
+	// Only download the index once.
+	o.cacheFile, o.err = t.retrieveAndSaveFile(request, func(r *http.Response) (string, error) {
+		// On the etag path, use the etag from the actual response to
+		// compute the final file name.
+		finalEtag, ok := etagFromResponse(r)
+		if !ok {
+			return "", fmt.Errorf("GET response did not contain an etag, but HEAD returned %q", initialEtag)
+		}
+
+		return cacheFileFromEtag(cacheFile, finalEtag), nil
+	})
 }
 
 // cache
@@ -275,9 +303,13 @@ func (t *cacheTransport) retrieveAndSaveFile(request *http.Request, cp cachePlac
 		return "", fmt.Errorf("wrapped client is nil")
 	}
 	resp, err := t.wrapped.Do(request)
-	if err != nil || resp.StatusCode != 200 {
+	if err != nil {
 		return "", err
 	}
+	defer resp.Body.Close()
+	if resp.StatusCode != 200 {
+		return "", fmt.Errorf("unexpected status code %d after a successful HEAD", resp.StatusCode)
+	}
 
 	// Determine the file we will caching stuff in based on the URL/response
 	cacheFile, err := cp(resp)
@@ -297,18 +329,19 @@ func (t *cacheTransport) retrieveAndSaveFile(request *http.Request, cp cachePlac
 	}
 	if err := func() error {
 		defer tmp.Close()
-		defer resp.Body.Close()
 		if _, err := io.Copy(tmp, resp.Body); err != nil {
 			return fmt.Errorf("unable to write to cache file: %w", err)
 		}
-		return nil
+		return tmp.Close()
 	}(); err != nil {
+		os.Remove(tmp.Name())
 		return "", err
 	}
 
 	// Now that we have the file has been written, rename to atomically populate
 	// the cache
 	if err := os.Rename(tmp.Name(), cacheFile); err != nil {
+		os.Remove(tmp.Name())
 		return "", fmt.Errorf("unable to populate cache: %v", err)
 	}
 
-- 
2.43.0


From ec62689f8f499e27b7c66ad05cd26a50a07ff76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 35/55] fix: ignore incomplete downloads in the offline cache

---
 pkg/apk/cache.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index b410f41..2e8a544 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -223,25 +223,28 @@ func (t *cacheTransport) RoundTrip(request *http.Request) (*http.Response, error
 			return nil, fmt.Errorf("listing %q for offline cache: %w", cacheDir, err)
 		}
 
-		if len(des) == 0 {
-			return nil, fmt.Errorf("no offline cached entries for %s", cacheDir)
-		}
-
-		newest, err := des[0].Info()
-		if err != nil {
-			return nil, err
-		}
+		var newest fs.FileInfo
+		for _, de := range des {
+			// Skip what is still being, or was never completely, downloaded.
+			if !de.Type().IsRegular() || filepath.Ext(de.Name()) == ".tmp" {
+				continue
+			}
 
-		for _, de := range des[1:] {
 			fi, err := de.Info()
+			if errors.Is(err, fs.ErrNotExist) {
+				continue
+			}
 			if err != nil {
 				return nil, err
 			}
 
-			if fi.ModTime().After(newest.ModTime()) {
+			if newest == nil || fi.ModTime().After(newest.ModTime()) {
 				newest = fi
 			}
 		}
+		if newest == nil {
+			return nil, fmt.Errorf("no offline cached entries for %s", cacheDir)
+		}
 
 		f, err := os.Open(filepath.Join(cacheDir, newest.Name()))
 		if err != nil {
-- 
2.43.0


From 13b8973627f0f5bc3feb6bf6dbac56f3f5a84531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 36/55] fix: send configured credentials with every fetch, and
 keep them out of messages

Packages and keys were fetched without credentials where the user or the
password is empty, which index downloads do send, and the URLs in package and
retry errors included the password.
---
 pkg/apk/implementation.go | 8 ++++----
 pkg/apk/index.go          | 2 +-
 pkg/apk/transport.go      | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index f45f9e9..68d58bb 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -413,7 +413,7 @@ func (a *APK) InitKeyring(ctx context.Context, keyFiles, extraKeyFiles []string)
 					pass, _ := asURL.User.Password()
 					req.SetBasicAuth(user, pass)
 					req.URL.User = nil
-				} else if a, ok := a.auth[asURL.Host]; ok && a.user != "" && a.pass != "" {
+				} else if a, ok := a.auth[asURL.Host]; ok && (a.user != "" || a.pass != "") {
 					req.SetBasicAuth(a.user, a.pass)
 				}
 
@@ -1106,7 +1106,7 @@ func (a *APK) FetchPackage(ctx context.Context, pkg InstallablePackage) (io.Read
 		if err != nil {
 			return nil, err
 		}
-		if a, ok := a.auth[asURL.Host]; ok && a.user != "" && a.pass != "" {
+		if a, ok := a.auth[asURL.Host]; ok && (a.user != "" || a.pass != "") {
 			req.SetBasicAuth(a.user, a.pass)
 		}
 
@@ -1114,11 +1114,11 @@ func (a *APK) FetchPackage(ctx context.Context, pkg InstallablePackage) (io.Read
 		rrt := newRangeRetryTransport(ctx, client)
 		res, err := rrt.RoundTrip(req)
 		if err != nil {
-			return nil, fmt.Errorf("unable to get package apk at %s: %w", u, err)
+			return nil, fmt.Errorf("unable to get package apk at %s: %w", asURL.Redacted(), err)
 		}
 		if res.StatusCode != http.StatusOK {
 			res.Body.Close()
-			return nil, fmt.Errorf("unable to get package apk at %s: %v", u, res.Status)
+			return nil, fmt.Errorf("unable to get package apk at %s: %v", asURL.Redacted(), res.Status)
 		}
 		return res.Body, nil
 	default:
diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 5410c43..adff7c7 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -227,7 +227,7 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 			user := asURL.User.Username()
 			pass, _ := asURL.User.Password()
 			req.SetBasicAuth(user, pass)
-		} else if a, ok := opts.auth[asURL.Host]; ok && a.user != "" || a.pass != "" {
+		} else if a, ok := opts.auth[asURL.Host]; ok && (a.user != "" || a.pass != "") {
 			req.SetBasicAuth(a.user, a.pass)
 		}
 
diff --git a/pkg/apk/transport.go b/pkg/apk/transport.go
index 6643599..68b1998 100644
--- a/pkg/apk/transport.go
+++ b/pkg/apk/transport.go
@@ -93,12 +93,12 @@ func (r *rangeRetryReader) reset(oerr error) (*http.Response, error) {
 		}
 	} else if resp.StatusCode != http.StatusPartialContent {
 		if oerr != nil {
-			return resp, fmt.Errorf("retrying %w: %s %s (Range: %s): unexpected status code: %d", oerr, req.Method, req.URL.String(), rangeHeader, resp.StatusCode)
+			return resp, fmt.Errorf("retrying %w: %s %s (Range: %s): unexpected status code: %d", oerr, req.Method, req.URL.Redacted(), rangeHeader, resp.StatusCode)
 		}
 
-		return resp, fmt.Errorf("%s %s (Range: %s): unexpected status code: %d", req.Method, req.URL.String(), rangeHeader, resp.StatusCode)
+		return resp, fmt.Errorf("%s %s (Range: %s): unexpected status code: %d", req.Method, req.URL.Redacted(), rangeHeader, resp.StatusCode)
 	} else if got := resp.Header.Get("Content-Range"); got != "" && !strings.HasPrefix(got, fmt.Sprintf("bytes %d-", r.progress)) {
-		return resp, fmt.Errorf("%s %s (Range: %s): unexpected content range: %s", req.Method, req.URL.String(), rangeHeader, got)
+		return resp, fmt.Errorf("%s %s (Range: %s): unexpected content range: %s", req.Method, req.URL.Redacted(), rangeHeader, got)
 	}
 
 	r.body = resp.Body
-- 
2.43.0


From c4d8c69185f5369a003c018ba877d82418849021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 37/55] fix: store only complete Alpine keys, and accept an
 existing /tmp

Whatever came with an error status was stored as a key, and a key replacing a
longer one kept its end. InitDB refused every root with a /tmp, because the
sticky bit is no part of the permissions it compared with.
---
 pkg/apk/implementation.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 68d58bb..0510c56 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -253,7 +253,7 @@ func (a *APK) InitDB(ctx context.Context, alpineVersions ...string) error {
 			return fmt.Errorf("error opening base directory %s: %w", e.path, err)
 		case !stat.IsDir():
 			return fmt.Errorf("base directory %s is not a directory", e.path)
-		case stat.Mode().Perm() != e.perms:
+		case stat.Mode().Perm() != e.perms.Perm():
 			return fmt.Errorf("base directory %s has incorrect permissions: %o", e.path, stat.Mode().Perm())
 		}
 	}
@@ -761,18 +761,20 @@ func (a *APK) fetchAlpineKeys(ctx context.Context, alpineVersions []string) erro
 			return fmt.Errorf("failed to fetch alpine key %s: %w", u, err)
 		}
 		defer res.Body.Close()
+		if res.StatusCode != http.StatusOK {
+			return fmt.Errorf("unable to get alpine key at %s: %v", u, res.Status)
+		}
+		key, err := io.ReadAll(res.Body)
+		if err != nil {
+			return fmt.Errorf("failed to read alpine key %s: %w", u, err)
+		}
 		basefilenameEscape := filepath.Base(u)
 		basefilename, err := url.PathUnescape(basefilenameEscape)
 		if err != nil {
 			return fmt.Errorf("failed to unescape key filename %s: %w", basefilenameEscape, err)
 		}
 		filename := filepath.Join(keysDirPath, basefilename)
-		f, err := a.fs.OpenFile(filename, os.O_CREATE|os.O_WRONLY, 0o644)
-		if err != nil {
-			return fmt.Errorf("failed to open key file %s: %w", filename, err)
-		}
-		defer f.Close()
-		if _, err := io.Copy(f, res.Body); err != nil {
+		if err := a.fs.WriteFile(filename, key, 0o644); err != nil {
 			return fmt.Errorf("failed to write key file %s: %w", filename, err)
 		}
 	}
-- 
2.43.0


From e4d916a5715aa675a51548b7d78dfae318f8e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 38/55] fix: resolve the data section of unsigned packages too

Without a signature the first section is the control section, whose declared
data hash and size were not read.
---
 pkg/apk/resolveapk.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/pkg/apk/resolveapk.go b/pkg/apk/resolveapk.go
index d00825c..086455c 100644
--- a/pkg/apk/resolveapk.go
+++ b/pkg/apk/resolveapk.go
@@ -3,6 +3,7 @@ package apk
 
 import (
 	"archive/tar"
+	"bytes"
 	"context"
 	"crypto/sha1"
 	"encoding/hex"
@@ -101,8 +102,20 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 		}
 		gzi.Multistream(false)
 
+		if streamId > controlIdx {
+			gzi.Close()
+			break
+		}
+
+		section, err := io.ReadAll(gzi)
+		if err != nil {
+			return nil, fmt.Errorf("ResolveApk error 2: %v", err)
+		}
+		hashes[streamId] = h.Sum(nil)
+		gzipStreamSizes[streamId] = cr.bytesWritten
+
 		if streamId == 0 {
-			tr := tar.NewReader(gzi)
+			tr := tar.NewReader(bytes.NewReader(section))
 			hdr, err := tr.Next()
 			if err != nil {
 				return nil, fmt.Errorf("ResolveApk error 1: %v", err)
@@ -112,8 +125,11 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 				controlIdx = 1
 				signed = true
 			}
-		} else if controlIdx == streamId {
-			mapping, err := controlValue(gzi, "datahash", "size")
+		}
+
+		// Without a signature, the first section is the control section.
+		if controlIdx == streamId {
+			mapping, err := controlValue(bytes.NewReader(section), "datahash", "size")
 			if err != nil {
 				return nil, fmt.Errorf("reading datahash and size from control: %w", err)
 			}
@@ -139,18 +155,6 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 			}
 		}
 
-		if streamId <= controlIdx {
-			if _, err := io.Copy(io.Discard, gzi); err != nil {
-				return nil, fmt.Errorf("ResolveApk error 2: %v", err)
-			}
-
-			hashes[streamId] = h.Sum(nil)
-			gzipStreamSizes[streamId] = cr.bytesWritten
-		} else {
-			gzi.Close()
-			break
-		}
-
 		streamId++
 	}
 
-- 
2.43.0


From b61e84cbf5581c197f940dceacab466d4378fd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:05 +0000
Subject: [PATCH 39/55] fix: remove the temporary files of packages that are
 not installed after all

---
 pkg/apk/implementation.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 0510c56..d0d706e 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -595,6 +595,15 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 
 	expanded := make([]*expandapk.APKExpanded, len(allpkgs))
 
+	// Installing a package removes its temporary files, do the same for those that are not installed.
+	defer func() {
+		for _, exp := range expanded {
+			if exp != nil {
+				exp.Close()
+			}
+		}
+	}()
+
 	// Track what files were installed by which packages so we can deduplicate in idb.
 	allFiles := make([][]tar.Header, len(allpkgs))
 	infos := make([]*Package, len(allpkgs))
-- 
2.43.0


From f69d5983854b04e6228ce72b277acb2a04c0a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 40/55] fix: InitDB leaves exactly an empty scripts.tar behind,
 or fails

It was written over what was there before without truncating it, and failures to write it were ignored.
---
 pkg/apk/implementation.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index d0d706e..dd7ad17 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -286,16 +286,13 @@ func (a *APK) InitDB(ctx context.Context, alpineVersions ...string) error {
 	}
 
 	// add scripts.tar with nothing in it
-	scriptsTarPerms := 0o644
-	TarFile, err := a.fs.OpenFile(scriptsFilePath, os.O_CREATE|os.O_WRONLY, fs.FileMode(scriptsTarPerms))
-	if err != nil {
+	var scriptsTar bytes.Buffer
+	if err := tar.NewWriter(&scriptsTar).Close(); err != nil {
+		return fmt.Errorf("failed to create tarball '%s': %w", scriptsFilePath, err)
+	}
+	if err := a.fs.WriteFile(scriptsFilePath, scriptsTar.Bytes(), scriptsTarPerms); err != nil {
 		return fmt.Errorf("could not create tarball file '%s', got error '%w'", scriptsFilePath, err)
 	}
-	defer TarFile.Close()
-	tarWriter := tar.NewWriter(TarFile)
-	defer tarWriter.Close()
-
-	// nothing to add to it; scripts.tar should be empty
 
 	// get the alpine-keys base keys for our usage
 	if len(alpineVersions) > 0 {
-- 
2.43.0


From 04ce0330cee21302f4364f1af07b808996d2949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 41/55] fix: GetRepositories fails when it cannot read all of
 the list

Otherwise the repositories after the failure were silently left out.
---
 pkg/apk/repo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index eee48b4..664f3cb 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -127,6 +127,9 @@ func (a *APK) GetRepositories() (repos []string, err error) {
 	for scanner.Scan() {
 		repos = append(repos, scanner.Text())
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read repositories file: %w", err)
+	}
 	return
 }
 
-- 
2.43.0


From 3e5b3b8751e0fa6deded0bf0c1f0e2021d7d2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 42/55] fix: InitKeyring does not write behind the end of the
 caller's list of keys

Two calls with parts of the same list overwrote each other's keys.
---
 pkg/apk/implementation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index dd7ad17..d2e4bac 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -364,7 +364,8 @@ func (a *APK) InitKeyring(ctx context.Context, keyFiles, extraKeyFiles []string)
 
 	if len(extraKeyFiles) > 0 {
 		log.Debugf("appending %d extra keys to keyring", len(extraKeyFiles))
-		keyFiles = append(keyFiles, extraKeyFiles...)
+		// do not write behind the end of the caller's list
+		keyFiles = append(slices.Clone(keyFiles), extraKeyFiles...)
 	}
 
 	var eg errgroup.Group
-- 
2.43.0


From e992d0e7ad3e855d671006480aa28aee2f662584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 43/55] fix: read .PKGINFO as it is written

It was read as an ini file: values were cut at '#' and ';', lost their quotes, went on after a backslash, and were
expanded; repeated words of lists were dropped, install_if was not read at all, and numbers that do not fit became 0.
---
 pkg/apk/implementation.go | 10 +----
 pkg/apk/package.go        | 81 ++++++++++++++++++++++++++++++++++-----
 2 files changed, 73 insertions(+), 18 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index d2e4bac..006b3e4 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -36,7 +36,6 @@ import (
 
 	"github.com/chainguard-dev/clog"
 	"github.com/chainguard-dev/go-apk/pkg/expandapk"
-	"gopkg.in/ini.v1"
 
 	"go.lsp.dev/uri"
 	"go.opentelemetry.io/otel"
@@ -1146,14 +1145,9 @@ func packageInfo(exp *expandapk.APKExpanded) (*Package, error) {
 	}
 	defer f.Close()
 
-	cfg, err := ini.ShadowLoad(f)
+	pkg, err := parsePkgInfo(f)
 	if err != nil {
-		return nil, fmt.Errorf("ini.ShadowLoad(): %w", err)
-	}
-
-	pkg := new(Package)
-	if err = cfg.MapTo(pkg); err != nil {
-		return nil, fmt.Errorf("cfg.MapTo(): %w", err)
+		return nil, fmt.Errorf("in %s: %w", exp.ControlFile, err)
 	}
 	pkg.BuildTime = time.Unix(pkg.BuildDate, 0).UTC()
 	pkg.InstalledSize = pkg.Size
diff --git a/pkg/apk/package.go b/pkg/apk/package.go
index 981d4e4..87197b1 100644
--- a/pkg/apk/package.go
+++ b/pkg/apk/package.go
@@ -19,11 +19,11 @@ import (
 	"encoding/base64"
 	"fmt"
 	"io"
+	"strconv"
 	"strings"
 	"time"
 
 	"github.com/chainguard-dev/go-apk/pkg/expandapk"
-	"gopkg.in/ini.v1"
 )
 
 // PackageToInstalled takes a Package and returns it as the string representation of lines in a /lib/apk/db/installed file.
@@ -75,8 +75,8 @@ type Package struct {
 	Checksum         []byte
 	Dependencies     []string `ini:"depend,,allowshadow"`
 	Provides         []string `ini:"provides,,allowshadow"`
-	InstallIf        []string
-	Size             uint64 `ini:"size"`
+	InstallIf        []string `ini:"install_if,,allowshadow"`
+	Size             uint64   `ini:"size"`
 	InstalledSize    uint64
 	ProviderPriority uint64 `ini:"provider_priority"`
 	BuildTime        time.Time
@@ -116,14 +116,9 @@ func ParsePackage(ctx context.Context, apkPackage io.Reader) (*Package, error) {
 		return nil, fmt.Errorf("expanded.ControlData(): %v", err)
 	}
 
-	cfg, err := ini.ShadowLoad(r)
+	pkg, err := parsePkgInfo(r)
 	if err != nil {
-		return nil, fmt.Errorf("ini.ShadowLoad(): %w", err)
-	}
-
-	pkg := new(Package)
-	if err = cfg.MapTo(pkg); err != nil {
-		return nil, fmt.Errorf("cfg.MapTo(): %w", err)
+		return nil, err
 	}
 	pkg.BuildTime = time.Unix(pkg.BuildDate, 0).UTC()
 	pkg.InstalledSize = pkg.Size
@@ -132,3 +127,69 @@ func ParsePackage(ctx context.Context, apkPackage io.Reader) (*Package, error) {
 
 	return pkg, nil
 }
+
+// parsePkgInfo parses a .PKGINFO file: lines of the form "key = value", and comments. A value is the rest of its
+// line, whatever characters it has. Keys that are lists are repeated, or have several words.
+func parsePkgInfo(r io.Reader) (*Package, error) {
+	b, err := io.ReadAll(r)
+	if err != nil {
+		return nil, fmt.Errorf("reading .PKGINFO: %w", err)
+	}
+	pkg := new(Package)
+	texts := map[string]*string{
+		"pkgname":    &pkg.Name,
+		"pkgver":     &pkg.Version,
+		"arch":       &pkg.Arch,
+		"pkgdesc":    &pkg.Description,
+		"license":    &pkg.License,
+		"origin":     &pkg.Origin,
+		"maintainer": &pkg.Maintainer,
+		"url":        &pkg.URL,
+		"commit":     &pkg.RepoCommit,
+		"datahash":   &pkg.DataHash,
+	}
+	lists := map[string]*[]string{
+		"depend":     &pkg.Dependencies,
+		"provides":   &pkg.Provides,
+		"replaces":   &pkg.Replaces,
+		"install_if": &pkg.InstallIf,
+	}
+	seen := map[string]bool{}
+	for _, line := range strings.Split(string(b), "\n") {
+		if strings.HasPrefix(line, "#") {
+			continue
+		}
+		key, value, ok := strings.Cut(line, "=")
+		if !ok {
+			continue
+		}
+		key, value = strings.TrimSpace(key), strings.TrimSpace(value)
+		if list, ok := lists[key]; ok {
+			*list = append(*list, strings.Fields(value)...)
+			continue
+		}
+		if seen[key] {
+			continue
+		}
+		seen[key] = true
+		if text, ok := texts[key]; ok {
+			*text = value
+			continue
+		}
+		if value == "" {
+			continue
+		}
+		switch key {
+		case "size":
+			pkg.Size, err = strconv.ParseUint(value, 10, 64)
+		case "provider_priority":
+			pkg.ProviderPriority, err = strconv.ParseUint(value, 10, 64)
+		case "builddate":
+			pkg.BuildDate, err = strconv.ParseInt(value, 10, 64)
+		}
+		if err != nil {
+			return nil, fmt.Errorf("parsing %s in .PKGINFO: %w", key, err)
+		}
+	}
+	return pkg, nil
+}
-- 
2.43.0


From 75ff832985a6ea4b12959be46c85b401a196ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 44/55] fix: CalculateWorld closes the packages it fetched

---
 pkg/apk/implementation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 006b3e4..cf5ef46 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -501,6 +501,7 @@ func (a *APK) CalculateWorld(ctx context.Context, allpkgs []*RepositoryPackage)
 			if err != nil {
 				return fmt.Errorf("fetching %s: %w", pkg.Name, err)
 			}
+			defer r.Close()
 			res, err := ResolveApk(gctx, r)
 			if err != nil {
 				return fmt.Errorf("resolving %s: %w", pkg.Name, err)
-- 
2.43.0


From 2599659f7c73eba2a7ce166243d393f95d108471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:37 +0000
Subject: [PATCH 45/55] fix: FixateWorld notices every conflict with an
 installed package

---
 pkg/apk/implementation.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index cf5ef46..0c54f98 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -554,7 +554,7 @@ func (a *APK) FixateWorld(ctx context.Context, sourceDateEpoch *time.Time) error
 
 	// to fix the world, we need to:
 	// 1. Get the apkIndexes for each repository for the target arch
-	allpkgs, conflicts, err := a.ResolveWorld(ctx)
+	allpkgs, _, err := a.ResolveWorld(ctx)
 	if err != nil {
 		return fmt.Errorf("error getting package dependencies: %w", err)
 	}
@@ -566,13 +566,22 @@ func (a *APK) FixateWorld(ctx context.Context, sourceDateEpoch *time.Time) error
 	//     d. Update /lib/apk/db/scripts.tar
 	//     d. Update /lib/apk/db/triggers
 	//     e. Update the installed file
-	for _, pkg := range conflicts {
-		isInstalled, err := a.isInstalledPackage(pkg)
-		if err != nil {
-			return fmt.Errorf("error checking if package %s is installed: %w", pkg, err)
-		}
-		if isInstalled {
-			return fmt.Errorf("cannot install due to conflict with %s", pkg)
+	installed, err := a.GetInstalled()
+	if err != nil {
+		return fmt.Errorf("error getting installed packages: %w", err)
+	}
+	resolver := NewPkgResolver(ctx, nil)
+	for _, pkg := range allpkgs {
+		for _, dep := range pkg.Dependencies {
+			if !strings.HasPrefix(dep, "!") {
+				continue
+			}
+			conflict := resolvePackageNameVersionPin(dep[1:])
+			for _, other := range installed {
+				if other.Name != pkg.Name && resolver.satisfiesConstraint(&RepositoryPackage{Package: &other.Package}, conflict) {
+					return fmt.Errorf("cannot install %s due to conflict with %s: %s", pkg.Name, other.Name, dep)
+				}
+			}
 		}
 	}
 	// Cast []*RepositoryPackage into []InstallablePackage.
-- 
2.43.0


From e848b27ed4308f6f833029a5c0e6a2b2a4c36b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 46/55] fix: packages without an origin do not share one

---
 pkg/apk/repo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 664f3cb..f2dd1f6 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -909,7 +909,9 @@ func (p *PkgResolver) getPackageDependencies(pkg *RepositoryPackage, allowPin st
 		conflicts = append(conflicts, confs...)
 		for _, dep := range subDeps {
 			existing[dep.Name] = dep
-			existingOrigins[dep.Origin] = true
+			if dep.Origin != "" {
+				existingOrigins[dep.Origin] = true
+			}
 		}
 	}
 	return dependencies, conflicts, nil
-- 
2.43.0


From 4a1e75cc0fae6b422718030babd9671eae207eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 47/55] fix: prefer packages that were just selected for
 another dependency

---
 pkg/apk/repo.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index f2dd1f6..deda151 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -782,6 +782,12 @@ func (p *PkgResolver) getPackageDependencies(pkg *RepositoryPackage, allowPin st
 	if _, ok := parents[pkg.Name]; ok {
 		return nil, nil, nil
 	}
+	if existing == nil {
+		existing = map[string]*RepositoryPackage{}
+	}
+	if existingOrigins == nil {
+		existingOrigins = map[string]bool{}
+	}
 	myProvides := make(map[string]bool, 2*len(pkg.Provides))
 	// see if we provide this
 	for _, provide := range pkg.Provides {
@@ -907,7 +913,8 @@ func (p *PkgResolver) getPackageDependencies(pkg *RepositoryPackage, allowPin st
 		dependencies = append(dependencies, subDeps...)
 		dependencies = append(dependencies, depPkg)
 		conflicts = append(conflicts, confs...)
-		for _, dep := range subDeps {
+		// All of these are selected now, prefer them where there is a choice.
+		for _, dep := range dependencies {
 			existing[dep.Name] = dep
 			if dep.Origin != "" {
 				existingOrigins[dep.Origin] = true
-- 
2.43.0


From 0c68bf2e1faea83ef8fadd1785c4321fc9f56fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 48/55] fix: evaluate install_if conditions as constraints

---
 pkg/apk/repo.go | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index deda151..a0d5365 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -232,10 +232,8 @@ func NewPkgResolver(_ context.Context, indexes []NamedIndex) *PkgResolver {
 				pinnedName:        index.Name(),
 			})
 			for _, dep := range pkg.InstallIf {
-				if _, ok := installIfMap[dep]; !ok {
-					installIfMap[dep] = []*repositoryPackage{}
-				}
-				installIfMap[dep] = append(installIfMap[dep], &repositoryPackage{
+				name := p.resolvePackageNameVersionPin(dep).name
+				installIfMap[name] = append(installIfMap[name], &repositoryPackage{
 					RepositoryPackage: pkg,
 					pinnedName:        index.Name(),
 				})
@@ -644,15 +642,13 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 	// as well and the result does not depend on map order.
 	for i := 0; i < len(dependencies); i++ {
 		depPkg := dependencies[i]
-		dep := depPkg.Name
-		depPkgList, ok := p.installIfMap[dep]
-		if !ok {
-			depPkgList, ok = p.installIfMap[fmt.Sprintf("%s=%s", dep, depPkg.Version)]
-		}
-		if !ok {
-			continue
+		depPkgList := p.installIfMap[depPkg.Name]
+		for _, prov := range depPkg.Provides {
+			if name := p.resolvePackageNameVersionPin(prov).name; name != depPkg.Name {
+				depPkgList = append(slices.Clone(depPkgList), p.installIfMap[name]...)
+			}
 		}
-		// this package "dep" can trigger an installIf. It might not be enough, so check it
+		// this package "depPkg" can trigger an installIf. It might not be enough, so check it
 		for _, installIfPkg := range depPkgList {
 			if _, dqed := dq[installIfPkg.RepositoryPackage]; dqed {
 				continue
@@ -662,18 +658,11 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 			}
 			var matchCount int
 			for _, subDep := range installIfPkg.InstallIf {
-				// two possibilities: package name, or name=version
 				constraint := p.resolvePackageNameVersionPin(subDep)
-				name, version := constraint.name, constraint.version
-				// precise match of whatever it is, take it and continue
-				if _, ok := added[subDep]; ok {
+				if slices.ContainsFunc(dependencies, func(added *RepositoryPackage) bool {
+					return p.satisfiesConstraint(added, constraint)
+				}) {
 					matchCount++
-					continue
-				}
-				// didn't get a precise match, so check if the name and version match
-				if addedPkg, ok := added[name]; ok && addedPkg.Version == version {
-					matchCount++
-					continue
 				}
 			}
 			if matchCount == len(installIfPkg.InstallIf) {
-- 
2.43.0


From 755405fcbdec5aff0582d4b625b7d7090e3ad72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 49/55] fix: record packages, scripts and triggers only if the
 whole installation succeeds

An installation that failed left the scripts and triggers of packages behind that
are not installed, so that trying again added them twice, and the files that were
in place already belonged to the first attempt and were not listed in the installed
database.
---
 pkg/apk/implementation.go | 71 +++++++++++++++++++++++++++------------
 pkg/apk/install.go        | 42 +++++++++++++----------
 2 files changed, 75 insertions(+), 38 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 0c54f98..a2dd051 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -25,6 +25,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"maps"
 	"net/http"
 	"net/url"
 	"os"
@@ -68,6 +69,7 @@ type APK struct {
 
 	// filename to owning package, last write wins
 	installedFiles map[string]*Package
+	installedLinks map[string]*Package
 }
 
 func New(options ...Option) (*APK, error) {
@@ -93,6 +95,7 @@ func New(options ...Option) (*APK, error) {
 		cache:              opt.cache,
 		noSignatureIndexes: opt.noSignatureIndexes,
 		installedFiles:     map[string]*Package{},
+		installedLinks:     map[string]*Package{},
 		auth:               opt.auth,
 	}, nil
 }
@@ -614,6 +617,15 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 	// Track what files were installed by which packages so we can deduplicate in idb.
 	allFiles := make([][]tar.Header, len(allpkgs))
 	infos := make([]*Package, len(allpkgs))
+	controls := make([][]byte, len(allpkgs))
+
+	// What packages own that are not installed in the end goes back to whoever owned it before.
+	ownedFiles, ownedLinks := maps.Clone(a.installedFiles), maps.Clone(a.installedLinks)
+	recorded := 0
+	defer func() {
+		disown(infos[recorded:], a.installedFiles, ownedFiles)
+		disown(infos[recorded:], a.installedLinks, ownedLinks)
+	}()
 
 	// A slice of pseudo-promises that get closed when expanded[i] is ready.
 	done := make([]chan struct{}, len(allpkgs))
@@ -651,12 +663,12 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 				}
 				infos[i] = pkgInfo
 
-				installedFiles, err := a.installPackage(gctx, pkgInfo, exp, sourceDateEpoch)
+				installedFiles, control, err := a.installPackage(gctx, pkgInfo, exp)
 				if err != nil {
 					return fmt.Errorf("installing %s: %w", pkg, err)
 				}
 
-				allFiles[i] = installedFiles
+				allFiles[i], controls[i] = installedFiles, control
 			}
 		}
 
@@ -685,9 +697,10 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 		return fmt.Errorf("installing packages: %w", err)
 	}
 
-	// update the installed file
+	// update the scripts, the triggers and the installed file
 	for i, files := range allFiles {
 		pkg := infos[i]
+		recorded = i
 
 		// TODO: We currently skip over packages that are already installed.
 		// I'm ignoring this for now because that isn't really a thing that can happen,
@@ -708,14 +721,25 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 			return owner != pkg
 		})
 
-		if err := a.AddInstalledPackage(pkg, files); err != nil {
-			return fmt.Errorf("unable to update installed file for pkg %s: %w", pkg.Name, err)
+		if err := a.recordPackage(pkg, controls[i], files, sourceDateEpoch); err != nil {
+			return err
 		}
 	}
+	recorded = len(infos)
 
 	return nil
 }
 
+// disown gives back what pkgs own to whoever owned it before. What nobody owned is left without
+// an owner (nil), to be taken over by the next package that carries it.
+func disown(pkgs []*Package, owned, before map[string]*Package) {
+	for path, owner := range owned {
+		if owner != nil && slices.Contains(pkgs, owner) {
+			owned[path] = before[path]
+		}
+	}
+}
+
 type NoKeysFoundError struct {
 	arch     string
 	releases []string
@@ -1167,8 +1191,8 @@ func packageInfo(exp *expandapk.APKExpanded) (*Package, error) {
 	return pkg, nil
 }
 
-// installPackage installs a single package and updates installed db.
-func (a *APK) installPackage(ctx context.Context, pkg *Package, expanded *expandapk.APKExpanded, sourceDateEpoch *time.Time) ([]tar.Header, error) {
+// installPackage installs the files of a single package. It returns them and the control section.
+func (a *APK) installPackage(ctx context.Context, pkg *Package, expanded *expandapk.APKExpanded) ([]tar.Header, []byte, error) {
 	log := clog.FromContext(ctx)
 	log.Infof("installing %s (%s)", pkg.Name, pkg.Version)
 
@@ -1185,41 +1209,46 @@ func (a *APK) installPackage(ctx context.Context, pkg *Package, expanded *expand
 	if wh, ok := a.fs.(WriteHeaderer); ok {
 		installedFiles, err = a.lazilyInstallAPKFiles(ctx, wh, expanded.TarFS, pkg)
 		if err != nil {
-			return nil, fmt.Errorf("unable to install files for pkg %s: %w", pkg.Name, err)
+			return nil, nil, fmt.Errorf("unable to install files for pkg %s: %w", pkg.Name, err)
 		}
 	} else {
 		packageData, err := expanded.PackageData()
 		if err != nil {
-			return nil, fmt.Errorf("opening package file %q: %w", expanded.PackageFile, err)
+			return nil, nil, fmt.Errorf("opening package file %q: %w", expanded.PackageFile, err)
 		}
 		defer packageData.Close()
 
 		installedFiles, err = a.installAPKFiles(ctx, packageData, pkg)
 		if err != nil {
-			return nil, fmt.Errorf("unable to install files for pkg %s: %w", pkg.Name, err)
+			return nil, nil, fmt.Errorf("unable to install files for pkg %s: %w", pkg.Name, err)
 		}
 	}
 
-	// update the scripts.tar
-	controlData, err := os.Open(expanded.ControlFile)
+	controlData, err := os.ReadFile(expanded.ControlFile)
 	if err != nil {
-		return nil, fmt.Errorf("opening control file %q: %w", expanded.ControlFile, err)
+		return nil, nil, fmt.Errorf("opening control file %q: %w", expanded.ControlFile, err)
 	}
-	defer controlData.Close()
 
-	if err := a.updateScriptsTar(pkg, controlData, sourceDateEpoch); err != nil {
-		return nil, fmt.Errorf("unable to update scripts.tar for pkg %s: %w", pkg.Name, err)
+	return installedFiles, controlData, nil
+}
+
+// recordPackage updates the scripts, the triggers and the installed db for a package whose files are installed.
+func (a *APK) recordPackage(pkg *Package, controlData []byte, files []tar.Header, sourceDateEpoch *time.Time) error {
+	// update the scripts.tar
+	if err := a.updateScriptsTar(pkg, bytes.NewReader(controlData), sourceDateEpoch); err != nil {
+		return fmt.Errorf("unable to update scripts.tar for pkg %s: %w", pkg.Name, err)
 	}
 
 	// update the triggers
-	if _, err := controlData.Seek(0, 0); err != nil {
-		return nil, fmt.Errorf("unable to seek to start of control data for pkg %s: %w", pkg.Name, err)
+	if err := a.updateTriggers(pkg, bytes.NewReader(controlData)); err != nil {
+		return fmt.Errorf("unable to update triggers for pkg %s: %w", pkg.Name, err)
 	}
-	if err := a.updateTriggers(pkg, controlData); err != nil {
-		return nil, fmt.Errorf("unable to update triggers for pkg %s: %w", pkg.Name, err)
+
+	if err := a.AddInstalledPackage(pkg, files); err != nil {
+		return fmt.Errorf("unable to update installed file for pkg %s: %w", pkg.Name, err)
 	}
 
-	return installedFiles, nil
+	return nil
 }
 
 func (a *APK) datahash(controlTarGz io.Reader) (string, error) {
diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index 0df92be..00a5f74 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -124,8 +124,11 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 		}
 
 		// If the two files are identical, no need to overwrite, but we will keep the first one
-		// that wrote it, which might be the base system or an earlier package.
-		if bytes.Equal(checksum, fileExistsError.Sha1) {
+		// that wrote it, which might be an earlier package. If it is of the base system, or left
+		// behind by an installation that failed, this package becomes its owner.
+		pk, ok := a.installedFiles[installedPath(header.Name)]
+		identical := bytes.Equal(checksum, fileExistsError.Sha1)
+		if identical && pk != nil {
 			return false, nil
 		}
 
@@ -134,25 +137,28 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 		// 2. The packages are in the same origin.
 
 		// If the existing file's package replaces the package we want to install, we don't need to write this file.
-		pk, ok := a.installedFiles[installedPath(header.Name)]
-		if !ok {
+		if !identical && !ok {
 			return false, fmt.Errorf("found existing file we did not install (this should never happen): %s", header.Name)
 		}
 
-		for _, rep := range pk.Replaces {
-			if pkg.Name == rep {
-				return false, nil
+		if pk != nil {
+			for _, rep := range pk.Replaces {
+				if pkg.Name == rep {
+					return false, nil
+				}
 			}
-		}
 
-		// Otherwise, we can only overwrite the file if it's in the same origin or if it replaces the existing package.
-		_, isReplaced := replaceMap[pk.Name]
-		if (pkg.Origin == "" || pk.Origin != pkg.Origin) && !isReplaced {
-			return false, fmt.Errorf("unable to install file over existing one, different contents: %s", header.Name)
+			// Otherwise, we can only overwrite the file if it's in the same origin or if it replaces the existing package.
+			_, isReplaced := replaceMap[pk.Name]
+			if (pkg.Origin == "" || pk.Origin != pkg.Origin) && !isReplaced {
+				return false, fmt.Errorf("unable to install file over existing one, different contents: %s", header.Name)
+			}
 		}
 
-		if err := a.writeOneFile(header, r, true); err != nil {
-			return false, err
+		if !identical {
+			if err := a.writeOneFile(header, r, true); err != nil {
+				return false, err
+			}
 		}
 	}
 
@@ -256,11 +262,13 @@ func (a *APK) installAPKFiles(ctx context.Context, in io.Reader, pkg *Package) (
 			// attempt it, and if it fails, just copy it.
 			// if it already exists, pointing to the same target, we can ignore it
 			if target, err := a.fs.Readlink(header.Name); err == nil && target == header.Linkname {
-				continue
-			}
-			if err := a.fs.Symlink(header.Linkname, header.Name); err != nil {
+				if a.installedLinks[installedPath(header.Name)] != nil {
+					continue
+				}
+			} else if err := a.fs.Symlink(header.Linkname, header.Name); err != nil {
 				return nil, fmt.Errorf("unable to install symlink from %s -> %s: %w", header.Name, header.Linkname, err)
 			}
+			a.installedLinks[installedPath(header.Name)] = pkg
 		case tar.TypeLink:
 			if err := a.fs.Link(header.Linkname, header.Name); err != nil {
 				return nil, err
-- 
2.43.0


From 967c78f442fd69b534fe7d0b052dce2b738c9298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 50/55] fix: write the files and records of packages completely
 or not at all

A file that could not be written completely was left behind, an error when closing
it was ignored, and an error in the middle of updating the scripts archive, the
triggers or the installed database left them damaged for the next installation.
---
 pkg/apk/implementation.go | 31 ++++++++++----
 pkg/apk/install.go        |  9 +++-
 pkg/apk/installed.go      | 87 +++++++++++++++++++++++++--------------
 3 files changed, 86 insertions(+), 41 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index a2dd051..9c19b8e 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -621,10 +621,12 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 
 	// What packages own that are not installed in the end goes back to whoever owned it before.
 	ownedFiles, ownedLinks := maps.Clone(a.installedFiles), maps.Clone(a.installedLinks)
-	recorded := 0
+	recorded := false
 	defer func() {
-		disown(infos[recorded:], a.installedFiles, ownedFiles)
-		disown(infos[recorded:], a.installedLinks, ownedLinks)
+		if !recorded {
+			disown(infos, a.installedFiles, ownedFiles)
+			disown(infos, a.installedLinks, ownedLinks)
+		}
 	}()
 
 	// A slice of pseudo-promises that get closed when expanded[i] is ready.
@@ -697,10 +699,25 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 		return fmt.Errorf("installing packages: %w", err)
 	}
 
-	// update the scripts, the triggers and the installed file
+	// update the scripts, the triggers and the installed file, all or nothing
+	for _, name := range []string{scriptsFilePath, triggersFilePath, installedFilePath} {
+		var size, zeros int64
+		if fi, err := a.fs.Stat(name); err == nil {
+			size = fi.Size()
+		} else if !errors.Is(err, fs.ErrNotExist) {
+			return fmt.Errorf("unable to stat %s: %w", name, err)
+		}
+		if name == scriptsFilePath {
+			zeros = tarTrailer(size)
+		}
+		defer func() {
+			if !recorded {
+				a.putBack(name, size-zeros, zeros)
+			}
+		}()
+	}
 	for i, files := range allFiles {
 		pkg := infos[i]
-		recorded = i
 
 		// TODO: We currently skip over packages that are already installed.
 		// I'm ignoring this for now because that isn't really a thing that can happen,
@@ -725,13 +742,13 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 			return err
 		}
 	}
-	recorded = len(infos)
+	recorded = true
 
 	return nil
 }
 
 // disown gives back what pkgs own to whoever owned it before. What nobody owned is left without
-// an owner (nil), to be taken over by the next package that carries it.
+// an owner (nil), and taken over by the next package that carries it.
 func disown(pkgs []*Package, owned, before map[string]*Package) {
 	for path, owner := range owned {
 		if owner != nil && slices.Contains(pkgs, owner) {
diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index 00a5f74..3b7aa32 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -59,9 +59,14 @@ func (a *APK) writeOneFile(header *tar.Header, r io.Reader, allowOverwrite bool)
 	if err != nil {
 		return fmt.Errorf("error creating file %s: %w", header.Name, err)
 	}
-	defer f.Close()
 
-	if _, err := io.CopyN(f, r, header.Size); err != nil {
+	_, err = io.CopyN(f, r, header.Size)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		// Nobody owns what is there of it.
+		_ = a.fs.Remove(header.Name)
 		return fmt.Errorf("unable to write content for %s: %w", header.Name, err)
 	}
 	// override one of the
diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 0c2e591..b1bba61 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -17,6 +17,7 @@ package apk
 import (
 	"archive/tar"
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"encoding/hex"
 	"errors"
@@ -52,13 +53,6 @@ func (a *APK) GetInstalled() ([]*InstalledPackage, error) {
 
 // addInstalledPackage add a package to the list of installed packages
 func (a *APK) AddInstalledPackage(pkg *Package, files []tar.Header) error {
-	// be sure to open the file in append mode so we add to the end
-	installedFile, err := a.fs.OpenFile(installedFilePath, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
-	if err != nil {
-		return fmt.Errorf("could not open installed file at %s: %w", installedFilePath, err)
-	}
-	defer installedFile.Close()
-
 	// sort the files by directory
 	sortedFiles := sortTarHeaders(withParents(files))
 	// package lines
@@ -99,12 +93,47 @@ func (a *APK) AddInstalledPackage(pkg *Package, files []tar.Header) error {
 	}
 	// write to installed file
 	b := []byte(strings.Join(pkgLines, "\n") + "\n\n")
-	if _, err := installedFile.Write(b); err != nil {
+	if err := a.addToFile(installedFilePath, 0, b); err != nil {
+		return fmt.Errorf("could not write installed file at %s: %w", installedFilePath, err)
+	}
+	return nil
+}
+
+// addToFile writes b to the end of a file, over the zeros it ends with. If it cannot be written
+// completely, the file is put back as it was.
+func (a *APK) addToFile(name string, zeros int64, b []byte) error {
+	f, err := a.fs.OpenFile(name, os.O_CREATE|os.O_RDWR, 0o644)
+	if err != nil {
+		return err
+	}
+	end, err := f.Seek(-zeros, io.SeekEnd)
+	if err != nil {
+		f.Close()
+		return err
+	}
+
+	_, err = f.Write(b)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		a.putBack(name, end, zeros)
 		return err
 	}
 	return nil
 }
 
+// putBack drops what has been written to a file from end on, where there were only zeros.
+func (a *APK) putBack(name string, end, zeros int64) {
+	b, err := a.fs.ReadFile(name)
+	if err != nil || int64(len(b)) < end {
+		return
+	}
+	if old := append(b[:end:end], make([]byte, zeros)...); !bytes.Equal(b, old) {
+		_ = a.fs.WriteFile(name, old, 0o644)
+	}
+}
+
 // isInstalledPackage check if a specific package is installed
 func (a *APK) isInstalledPackage(pkg string) (bool, error) {
 	installedPackages, err := a.GetInstalled()
@@ -131,21 +160,8 @@ func (a *APK) updateScriptsTar(pkg *Package, controlTarGz io.Reader, sourceDateE
 	if err != nil {
 		return fmt.Errorf("unable to stat scripts file: %w", err)
 	}
-	scripts, err := a.fs.OpenFile(scriptsFilePath, os.O_RDWR, 0)
-	if err != nil {
-		return fmt.Errorf("unable to open scripts file %s: %w", scriptsFilePath, err)
-	}
-	defer scripts.Close()
-
-	// only need to rewind if the file has tar in it
-	if fi.Size() >= 1024 {
-		if _, err = scripts.Seek(-1024, io.SeekEnd); err != nil {
-			return fmt.Errorf("could not seek to end of tar file: %w", err)
-		}
-	}
-
-	tw := tar.NewWriter(scripts)
-	defer tw.Close()
+	var scripts bytes.Buffer
+	tw := tar.NewWriter(&scripts)
 	for {
 		header, err := tr.Next()
 		if errors.Is(err, io.EOF) {
@@ -185,9 +201,20 @@ func (a *APK) updateScriptsTar(pkg *Package, controlTarGz io.Reader, sourceDateE
 	if err := tw.Close(); err != nil {
 		return fmt.Errorf("unable to complete scripts file %s: %w", scriptsFilePath, err)
 	}
+	if err := a.addToFile(scriptsFilePath, tarTrailer(fi.Size()), scripts.Bytes()); err != nil {
+		return fmt.Errorf("unable to write scripts file %s: %w", scriptsFilePath, err)
+	}
 	return nil
 }
 
+// tarTrailer is the size of the zeros at the end of a tar of that size. An empty file has none.
+func tarTrailer(size int64) int64 {
+	if size >= 1024 {
+		return 1024
+	}
+	return 0
+}
+
 // readScriptsTar returns a reader for the current scripts.tar. It is up to the caller to close it.
 func (a *APK) readScriptsTar() (io.ReadCloser, error) {
 	return a.fs.Open(scriptsFilePath)
@@ -215,21 +242,17 @@ func (a *APK) controlValue(controlTarGz io.Reader, want string) ([]string, error
 
 // updateTriggers insert the triggers into the triggers file
 func (a *APK) updateTriggers(pkg *Package, controlTarGz io.Reader) error {
-	triggers, err := a.fs.OpenFile(triggersFilePath, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
-	if err != nil {
-		return fmt.Errorf("unable to open triggers file %s: %w", triggersFilePath, err)
-	}
-	defer triggers.Close()
-
 	values, err := a.controlValue(controlTarGz, "triggers")
 	if err != nil {
 		return fmt.Errorf("updating triggers for %s: %w", pkg.Name, err)
 	}
 
+	var triggers bytes.Buffer
 	for _, value := range values {
-		if _, err := triggers.Write([]byte(fmt.Sprintf("%s %s\n", base64.StdEncoding.EncodeToString(pkg.Checksum), value))); err != nil {
-			return fmt.Errorf("unable to write triggers file %s: %w", triggersFilePath, err)
-		}
+		fmt.Fprintf(&triggers, "%s %s\n", base64.StdEncoding.EncodeToString(pkg.Checksum), value)
+	}
+	if err := a.addToFile(triggersFilePath, 0, triggers.Bytes()); err != nil {
+		return fmt.Errorf("unable to write triggers file %s: %w", triggersFilePath, err)
 	}
 
 	return nil
-- 
2.43.0


From 311e95c6972c4afdc3b3a162e9962ab0ce005bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 51/55] fix: files a failed installation overwrote are not
 those of their owner

An installation after it kept them for the package they had been overwritten for
without listing them anywhere.
---
 pkg/apk/implementation.go | 17 ++++++++++++-----
 pkg/apk/install.go        |  6 ++++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 9c19b8e..267daa0 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -70,6 +70,8 @@ type APK struct {
 	// filename to owning package, last write wins
 	installedFiles map[string]*Package
 	installedLinks map[string]*Package
+	// Files that are not, or not as their owner installed them, because an installation failed.
+	leftovers map[string]bool
 }
 
 func New(options ...Option) (*APK, error) {
@@ -96,6 +98,7 @@ func New(options ...Option) (*APK, error) {
 		noSignatureIndexes: opt.noSignatureIndexes,
 		installedFiles:     map[string]*Package{},
 		installedLinks:     map[string]*Package{},
+		leftovers:          map[string]bool{},
 		auth:               opt.auth,
 	}, nil
 }
@@ -624,7 +627,9 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 	recorded := false
 	defer func() {
 		if !recorded {
-			disown(infos, a.installedFiles, ownedFiles)
+			for path := range disown(infos, a.installedFiles, ownedFiles) {
+				a.leftovers[path] = true
+			}
 			disown(infos, a.installedLinks, ownedLinks)
 		}
 	}()
@@ -747,14 +752,16 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 	return nil
 }
 
-// disown gives back what pkgs own to whoever owned it before. What nobody owned is left without
-// an owner (nil), and taken over by the next package that carries it.
-func disown(pkgs []*Package, owned, before map[string]*Package) {
+// disown gives back what pkgs own to whoever owned it before, if anybody, and returns it.
+func disown(pkgs []*Package, owned, before map[string]*Package) map[string]*Package {
+	given := map[string]*Package{}
 	for path, owner := range owned {
 		if owner != nil && slices.Contains(pkgs, owner) {
-			owned[path] = before[path]
+			given[path] = before[path]
 		}
 	}
+	maps.Copy(owned, given)
+	return given
 }
 
 type NoKeysFoundError struct {
diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index 3b7aa32..ce6eb90 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -131,9 +131,10 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 		// If the two files are identical, no need to overwrite, but we will keep the first one
 		// that wrote it, which might be an earlier package. If it is of the base system, or left
 		// behind by an installation that failed, this package becomes its owner.
-		pk, ok := a.installedFiles[installedPath(header.Name)]
+		name := installedPath(header.Name)
+		pk, ok := a.installedFiles[name]
 		identical := bytes.Equal(checksum, fileExistsError.Sha1)
-		if identical && pk != nil {
+		if identical && pk != nil && !a.leftovers[name] {
 			return false, nil
 		}
 
@@ -260,6 +261,7 @@ func (a *APK) installAPKFiles(ctx context.Context, in io.Reader, pkg *Package) (
 
 			if installed {
 				a.installedFiles[installedPath(header.Name)] = pkg
+				delete(a.leftovers, installedPath(header.Name))
 			}
 
 		case tar.TypeSymlink:
-- 
2.43.0


From cbbc0754f6f5e591f1db638cbc905ef258db4c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 52/55] fix: a file whose attributes could not be set is not
 its earlier owner's

It was written by then. An installation after the one that failed left it to the
package it had overwritten it for, unlisted and without its attributes.
---
 pkg/apk/install.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index ce6eb90..02a5e9b 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -78,7 +78,8 @@ func installedPath(name string) string {
 	return strings.TrimPrefix(path.Clean("/"+name), "/")
 }
 
-// installRegularFile handles the various error modes of writing a regular file
+// installRegularFile handles the various error modes of writing a regular file. It returns
+// whether the package becomes the owner of the file, which it may together with an error.
 func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir string, pkg *Package) (bool, error) {
 	checksum, err := checksumFromHeader(header)
 	if err != nil {
@@ -184,7 +185,7 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 		}
 		attrName := strings.TrimPrefix(k, xattrTarPAXRecordsPrefix)
 		if err := a.fs.SetXattr(header.Name, attrName, []byte(v)); err != nil {
-			return false, fmt.Errorf("error setting xattr %s on %s: %w", attrName, header.Name, err)
+			return true, fmt.Errorf("error setting xattr %s on %s: %w", attrName, header.Name, err)
 		}
 	}
 	return true, nil
@@ -254,15 +255,15 @@ func (a *APK) installAPKFiles(ctx context.Context, in io.Reader, pkg *Package) (
 			}
 
 		case tar.TypeReg:
+			// It is of this package as soon as it is written, even if the rest fails.
 			installed, err := a.installRegularFile(header, tr, tmpDir, pkg)
-			if err != nil {
-				return nil, err
-			}
-
 			if installed {
 				a.installedFiles[installedPath(header.Name)] = pkg
 				delete(a.leftovers, installedPath(header.Name))
 			}
+			if err != nil {
+				return nil, err
+			}
 
 		case tar.TypeSymlink:
 			// some underlying filesystems and some memfs that we use in tests do not support symlinks.
-- 
2.43.0


From 27ec59a48a6141154c3c645c66bd7e33331f77b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:30 +0000
Subject: [PATCH 53/55] fix: an archive of a tree whose root cannot be read is
 an error

---
 pkg/tarball/write.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/tarball/write.go b/pkg/tarball/write.go
index 28b19fc..42f59d3 100644
--- a/pkg/tarball/write.go
+++ b/pkg/tarball/write.go
@@ -92,15 +92,15 @@ func (c *Context) writeTar(ctx context.Context, tw *tar.Writer, fsys fs.FS, user
 		if err := ctx.Err(); err != nil {
 			return err
 		}
+		if err != nil {
+			return err
+		}
+
 		// skip the root path, superfluous
 		if path == "." {
 			return nil
 		}
 
-		if err != nil {
-			return err
-		}
-
 		info, err := d.Info()
 		if err != nil {
 			return err
-- 
2.43.0


From 5e50cb3f10928565bcbb7e01f33e1087d057941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 54/55] fix: a local index that cannot be looked at is an
 error, not a missing one

---
 pkg/apk/index.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index adff7c7..5945900 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -101,9 +101,12 @@ func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte,
 	if !strings.HasPrefix(u, "https://") && !strings.HasPrefix(u, "http://") {
 		// We do expect local indexes to change, so we check modtimes.
 		stat, err := os.Stat(u)
-		if err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
 			return nil, nil
 		}
+		if err != nil {
+			return nil, err
+		}
 		mod = stat.ModTime()
 	}
 
-- 
2.43.0


From 236d5e37f176a4cf08e5d1d0c81e0ab706957da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 55/55] fix: a passwd or group file whose last bytes did not
 reach the file is a write error

---
 pkg/passwd/group.go  | 11 ++++++++---
 pkg/passwd/passwd.go | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkg/passwd/group.go b/pkg/passwd/group.go
index b4bfb0b..4ed486e 100644
--- a/pkg/passwd/group.go
+++ b/pkg/passwd/group.go
@@ -101,9 +101,14 @@ func (gf *GroupFile) WriteFile(fsys apkfs.FullFS, filePath string) error {
 	if err != nil {
 		return fmt.Errorf("unable to open %s for writing: %w", filePath, err)
 	}
-	defer file.Close()
-
-	return gf.Write(file)
+	if err := gf.Write(file); err != nil {
+		file.Close()
+		return err
+	}
+	if err := file.Close(); err != nil {
+		return fmt.Errorf("unable to write %s: %w", filePath, err)
+	}
+	return nil
 }
 
 // Write writes an /etc/passwd file into an io.Writer.
diff --git a/pkg/passwd/passwd.go b/pkg/passwd/passwd.go
index 7df00ff..d5debf6 100644
--- a/pkg/passwd/passwd.go
+++ b/pkg/passwd/passwd.go
@@ -112,9 +112,14 @@ func (uf *UserFile) WriteFile(filePath string) error {
 	if err != nil {
 		return fmt.Errorf("unable to open %s for writing: %w", filePath, err)
 	}
-	defer file.Close()
-
-	return uf.Write(file)
+	if err := uf.Write(file); err != nil {
+		file.Close()
+		return err
+	}
+	if err := file.Close(); err != nil {
+		return fmt.Errorf("unable to write %s: %w", filePath, err)
+	}
+	return nil
 }
 
 // Write writes an /etc/passwd file into an io.Writer.
-- 
2.43.0

