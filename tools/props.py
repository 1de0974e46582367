#!/usr/bin/env python3
"""Single source for properties.jsonl. Run: python3 tools/props.py (rewrites /verif/properties.jsonl)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Version order and version constraints follow the apk rules",
 "Exactly the strings of the apk version grammar are accepted, and comparing any two accepted versions gives one total preorder: numeric components first (compared as numbers, a longer list wins over its own prefix), then the letter, then pre-release suffixes (alpha<beta<pre<rc<none), then post-release suffixes (none<cvs<svn<git<hg<p), each suffix's number right after it, and last the -r revision. "
 "A request name=V, name>V, name<V, name>=V, name<=V selects exactly the package versions standing in that relation to V, and name~V exactly the versions that V is a prefix of; a request with an unparsable version selects nothing.",
 ["inputs"], "every version string, every pair of versions, every operator",
 "Tests compare a fixed list of version pairs; an order is a law over all pairs and triples and over every combination of components.",
 ["pkg/apk/version.go", "pkg/apk/repo.go"],
 [("ParseVersion / CompareVersions / operator table", "pkg/apk/version.go")],
 observe=["ParseVersion", "CompareVersions", "PkgResolver.ResolvePackage"])

prop("C02", "A resolved package set satisfies everything it was asked to satisfy",
 "When resolving a list of requests succeeds, the returned set contains a package satisfying each request and each dependency (name, provided name and version constraint) of every returned package, never two packages of the same name, and no package that a request or a returned package excludes with '!'. "
 "Each package is listed once and, where the dependency graph of the package names has no cycle, after everything it depends on. Resolution always terminates; it fails with an error when a needed name is provided by no package, and it succeeds when every needed name is provided by exactly one package, these satisfy all version constraints and nothing is excluded. A package all of whose install_if conditions (names, provided names, version constraints) are satisfied by the dependencies selected for a request is added, with its own dependencies, if that request may use its repository and nothing conflicts; where names are unique, nothing is added that is neither requested, needed nor called for by install_if.",
 ["inputs", "configurations"], "every repository content (dependency graphs with cycles, provides, versions, conflicts, install-if, pins) and every world",
 "Tests resolve a few hand-written universes and recorded Alpine indexes and compare names; soundness is a statement about every universe, and the greedy search has order-dependent corners no sample reaches.",
 ["pkg/apk/repo.go", "pkg/apk/implementation.go"],
 [("GetPackagesWithDependencies and disqualification", "pkg/apk/repo.go")],
 state=[("dq", "packages ruled out so far", "pkg/apk/repo.go"), ("dependenciesMap/existing", "packages already chosen", "pkg/apk/repo.go")],
 observe=["PkgResolver.GetPackagesWithDependencies", "APK.ResolveWorld"])

prop("C03", "Candidate choice is deterministic and follows the documented preference",
 "Among the packages that satisfy a request or dependency the resolver prefers one that is already selected, then one sharing the origin of a selected package, then one from the requested tag (for dependencies: an untagged one), then higher provider priority, then the higher version of the requested name, then the higher own version, then the name; a package in a tagged repository is a candidate only if that tag was requested, for itself or for the request it is needed for. "
 "The same repositories and the same requests always give the same answer, whatever was resolved before with the same resolver and however packages are ordered inside a repository index.",
 ["inputs", "histories", "configurations"], "every candidate set, every pin configuration, every permutation of an index and every earlier query on the same resolver",
 "Tests check single examples once; determinism across map iteration orders and permutations needs repeated and permuted runs over many universes.",
 ["pkg/apk/repo.go", "pkg/apk/version.go"],
 [("comparePackages / filterPackages", "pkg/apk/repo.go")],
 observe=["PkgResolver.ResolvePackage", "PkgResolver.GetPackagesWithDependencies"])

prop("C04", "Parallel fetching never changes the outcome of an installation",
 "Installing a list of packages gives the same result for every order and timing in which the parallel fetches complete: packages are installed one at a time in exactly the given order, files (contents, permissions, extended attributes), the installed database, scripts and triggers come out in that order. "
 "If any fetch or installation fails the call returns an error, no package is installed ahead of one that precedes it in the list, no package appears in the installed database, and the call never hangs; packages already recorded as installed are left untouched.",
 ["schedules", "fault_sequences", "histories"], "every completion order of the fetches, every subset and position of failing packages, and repeated calls",
 "Tests install one package, or several with whatever timing the machine gives; no test controls completion order or fails a fetch in the middle.",
 ["pkg/apk/implementation.go", "pkg/apk/installed.go"],
 [("done[] promises and the sequential installer goroutine", "pkg/apk/implementation.go")],
 state=[("done[i]", "package i fetched and expanded", "pkg/apk/implementation.go"), ("allFiles/infos", "installed so far", "pkg/apk/implementation.go")],
 observe=["APK.InstallPackages", "APK.GetInstalled", "the root filesystem"])

prop("C05", "Files shared by several packages follow the ownership rules",
 "When packages installed in sequence through one APK object carry the same path as a regular file, an identical file is kept for its first owner, a different file is overwritten only if the new package shares the owner's origin or replaces it, is skipped if the owner replaces the new package, and otherwise installation fails naming the path; the root ends up with the owner's contents and attributes. "
 "Among the packages installed by one call, every regular file is listed in the installed database under exactly one package, its owner, with the owner's checksum.",
 ["histories", "inputs"], "every sequence of packages with overlapping files and every combination of origin, replaces and contents",
 "Tests cover a handful of two-package overlaps; the rule is over arbitrary sequences (three-way overwrites, replaces in both directions).",
 ["pkg/apk/install.go", "pkg/apk/implementation.go"],
 [("installRegularFile / installedFiles", "pkg/apk/install.go")],
 state=[("installedFiles", "path -> owning package", "pkg/apk/implementation.go")],
 observe=["APK.InstallPackages", "APK.GetInstalled", "the root filesystem"])

prop("C06", "The installed database reads back what was recorded",
 "For every sequence of packages recorded as installed, reading the installed database returns the same packages in the same order with the same metadata and the same files: every directory and file of the package exactly once, with its full path, owner, group and permissions (a directory that holds entries but has no header of its own may be listed additionally). "
 "A database that cannot be parsed completely is reported as an error rather than silently cut short, and no input makes the reader panic.",
 ["histories", "inputs"], "every sequence of recorded packages, every file tree, every metadata value representable in the format, and malformed database text",
 "Tests parse one fixture and round-trip one package; most fields, deep trees and permissions are never read back.",
 ["pkg/apk/installed.go", "pkg/apk/package.go"],
 [("AddInstalledPackage / ParseInstalled / sortTarHeaders", "pkg/apk/installed.go")],
 state=[("lib/apk/db/installed", "the database", "root filesystem")],
 observe=["APK.AddInstalledPackage", "APK.GetInstalled", "ParseInstalled"])

prop("C07", "Install scripts and triggers accumulate without loss",
 "After any sequence of installations the scripts archive is a valid tar holding, in installation order, exactly the scripts of every installed package, each named <name>-<version>.Q1<checksum><script> with its contents and, when a timestamp is requested, that timestamp; the triggers file holds exactly one line with the package checksum for each trigger declaration, in the same order.",
 ["histories", "inputs"], "every sequence of installed packages, with any number and size of scripts and triggers",
 "Tests append one package's scripts to one archive; accumulation over sequences, empty packages and sizes around the tar block boundaries are not sampled.",
 ["pkg/apk/installed.go", "pkg/apk/implementation.go"],
 [("updateScriptsTar / updateTriggers", "pkg/apk/installed.go")],
 state=[("lib/apk/db/scripts.tar", "accumulated scripts", "root filesystem"), ("lib/apk/db/triggers", "accumulated triggers", "root filesystem")],
 observe=["lib/apk/db/scripts.tar and lib/apk/db/triggers after InstallPackages"])

prop("C08", "No index is trusted without a valid signature by a configured key",
 "When signature checking applies to a repository, its index is returned only if the fetched archive carries a signature over exactly the index data that verifies under one of the keys given to that very call; otherwise the call fails, whatever indexes were loaded before in the same process, with whatever keys, exemptions or checking disabled. "
 "Exemptions apply only to the repositories listed, and a failed or cancelled load does not affect later loads.",
 ["inputs", "histories", "configurations"], "every combination of signer, key set, tampering, exemption list and order of loads in one process",
 "Tests verify one good and a few bad archives, each in isolation; the process-wide index cache makes the outcome depend on history.",
 ["pkg/apk/index.go", "pkg/signature/rsa.go"],
 [("getRepositoryIndex signature check", "pkg/apk/index.go"), ("globalIndexCache", "pkg/apk/index.go")],
 state=[("globalIndexCache", "index by URL", "pkg/apk/index.go")],
 observe=["GetRepositoryIndexes"])

prop("C09", "An expanded package is exactly what was fetched, and corruption is noticed",
 "Expanding a package archive (with or without a signature section) yields its signature, control and data sections byte for byte, with the control checksum, data checksum and total size that its bytes really have; resolving one yields the hashes and ends of its signature and control sections and the data hash and size its control section declares. "
 "A package that is truncated or corrupted, whose data does not match the data hash its control section declares, or whose control section does not match the checksum the index promises, is never installed or served from a cache as if it were good, and whatever happens no temporary files are left behind.",
 ["inputs", "fault_sequences"], "every package layout and every truncation or corruption point",
 "Tests expand a few intact archives; integrity is about every damaged one.",
 ["pkg/expandapk/expandapk.go", "pkg/apk/implementation.go"],
 [("ExpandApk stream splitting and checksums", "pkg/expandapk/expandapk.go"), ("expandPackage", "pkg/apk/implementation.go")],
 observe=["ExpandApk", "APK.InstallPackages", "Resolve results"])

prop("C10", "The package cache survives crashes and never serves partial contents",
 "If the process dies at any point while packages are fetched into a cache directory, a later run using the same directory installs exactly the same contents as a run without a cache, either from the cache or by fetching again. "
 "A package is served from the cache only when all its sections are complete, a cached package gives the same files, metadata and checksums as a freshly downloaded one, and after a run that completed, its packages (those that declare a data hash) are installed again without the network.",
 ["crash_points", "histories"], "every crash point of a caching run, every following run on the left-over directory, every combination of present and missing cache files (signatures excepted) and of what killed runs leave",
 "Tests fill a cache once and read it once; none kills a writer or starts from a partial directory.",
 ["pkg/apk/implementation.go", "pkg/expandapk/expandapk.go", "pkg/apk/cache.go"],
 [("cachePackage renames / cachedPackage", "pkg/apk/implementation.go"), ("PackageData regeneration", "pkg/expandapk/expandapk.go")],
 state=[("<cache>/<repo>/<arch>/<pkg>/*.tar.gz", "cached sections", "cache directory")],
 observe=["APK.InstallPackages with WithCache"])

prop("C11", "The HTTP cache serves current contents, once, and never another URL's",
 "With a cache, fetching an index or key returns bytes the origin served for that very URL under an entity tag it reported to this process (or, without tags, in answer to that request): in a new process a changed tag leads to a new download, an unchanged one to none, and concurrent and repeated requests in one process share one download. "
 "Offline, the complete body last stored for that same URL is returned, otherwise an error; failed, cancelled or non-200 responses are reported as errors, are never stored, and do not make later requests fail.",
 ["histories", "schedules", "fault_sequences", "crash_points"], "every history of origin changes, restarts, failures and concurrent requests over several URLs",
 "Tests make one or two requests against a static server; staleness, collisions between URLs and failure histories are not explored.",
 ["pkg/apk/cache.go", "pkg/apk/index.go"],
 [("etagCache once per URL", "pkg/apk/cache.go"), ("retrieveAndSaveFile temp + rename", "pkg/apk/cache.go")],
 state=[("etags/resps", "per-process results by URL", "pkg/apk/cache.go"), ("<cache>/…/<etag> files", "stored bodies", "cache directory")],
 observe=["APK.GetRepositoryIndexes / InitKeyring with WithCache"])

prop("C12", "An interrupted download is resumed to the exact bytes or fails",
 "For any pattern of connection failures while a package or index body is read, the reader delivers a prefix of the resource's bytes and then either the complete remainder or an error: never a gap, repetition or early clean end, whether or not the server honours range requests. "
 "A read that fails is retried at most twice, each retry asking for the bytes after those already delivered; it gives up only when the server refuses the retry, answers it with an error or another range, or all three attempts fail.",
 ["fault_sequences"], "every sequence of failures, chunk sizes and server range behaviours",
 "Tests break the stream at a couple of fixed places.",
 ["pkg/apk/transport.go"],
 [("rangeRetryReader", "pkg/apk/transport.go")],
 state=[("progress", "bytes delivered", "pkg/apk/transport.go")],
 observe=["APK.FetchPackage body"])

prop("C13", "The in-memory filesystem behaves like a POSIX filesystem",
 "Every sequence of operations on the in-memory filesystem (files, directories, symlinks, hard links, device nodes, open flags, seeks, permissions, owners, extended attributes) gives the results and error classes a POSIX-like filesystem specification gives, and leaves the same visible tree and contents. "
 "Hard links share one file, symlinks resolve relative to their own directory and from the root, and a failed operation changes nothing.",
 ["histories", "inputs"], "every sequence of operations",
 "Tests run short fixed scripts of operations; the state space of sequences with links and open handles is unsampled.",
 ["pkg/fs/memfs.go", "pkg/fs/fs.go"],
 [("node tree and path resolution", "pkg/fs/memfs.go")],
 state=[("tree", "in-memory node tree", "pkg/fs/memfs.go")],
 observe=["NewMemFS operations"])

prop("C14", "A disk-backed root agrees with its specification, live and reopened",
 "Every sequence of operations on a directory-backed filesystem gives the results the same specification gives, including ownership, modes, device nodes and extended attributes the real disk cannot hold, and the files, directories and symlinks on disk agree with it after every step. "
 "Opening the same directory again shows the same tree and file contents.",
 ["histories", "configurations"], "every sequence of operations, and reopening at any point, on case-sensitive and case-insensitive disks",
 "Tests perform single operations; agreement between overlay and disk after arbitrary sequences and after reopening is not tested.",
 ["pkg/fs/rwosfs.go", "pkg/fs/memfs.go"],
 [("memory overlay plus disk writes", "pkg/fs/rwosfs.go")],
 state=[("overrides/caseMap", "overlay", "pkg/fs/rwosfs.go")],
 observe=["DirFS operations", "the base directory"])

prop("C15", "Nothing is ever read or written outside the given root and cache",
 "Whatever names, symlinks, archive entries, URLs or server headers occur, operations on a directory-backed root and installations into it create, change, delete or read nothing on disk outside its base directory, and cache operations create or change nothing outside the cache directory.",
 ["inputs", "histories"], "every path, link target, archive entry name, repository URL and entity tag",
 "Tests use well-behaved names; containment is a universal statement over hostile ones.",
 ["pkg/fs/rwosfs.go", "pkg/apk/cache.go", "pkg/apk/install.go"],
 [("sanitizePath", "pkg/fs/rwosfs.go"), ("cachePathFromURL / cacheFileFromEtag", "pkg/apk/cache.go")],
 observe=["DirFS operations", "APK with WithCache", "the directories around base and cache"])

prop("C16", "Writing a filesystem to a tarball is complete, faithful and reproducible",
 "The tarball written from a filesystem lists every entry under the chosen root exactly once, parents before children, with its type, contents, link target, permissions, extended attributes and device numbers; every regular file is written in full, hard links reported by the filesystem (inode numbers) share one body, and configured overrides (timestamps, owners, permissions, user and group names) apply to exactly the entries they name. "
 "The same tree and options always produce the same bytes, and an archive that could not be written completely is reported as an error.",
 ["inputs", "configurations"], "every tree and every combination of options",
 "Tests write small trees and check a few headers.",
 ["pkg/tarball/write.go", "pkg/tarball/tarball.go"],
 [("Context.WriteTargz / writeTar", "pkg/tarball/write.go")],
 observe=["Context.WriteTar", "Context.WriteTargz"])

prop("C17", "Repository indexes round-trip through their serialised form",
 "For every index whose values are representable in the format, writing it out and reading it back gives the same packages in the same order with every field the format carries, and the description. "
 "No input text or archive makes the parser panic, loop or silently drop the packages after some point: it either returns every package or an error.",
 ["inputs"], "every package record and every index text",
 "Tests parse recorded indexes and round-trip one package.",
 ["pkg/apk/apkindex.go", "pkg/apk/package.go"],
 [("ParsePackageIndex / ArchiveFromIndex", "pkg/apk/apkindex.go")],
 observe=["ParsePackageIndex", "IndexFromArchive", "ArchiveFromIndex"])

prop("C18", "Credentials are sent only to the host they were configured for",
 "Every request made to fetch indexes, keys or packages carries exactly the credentials configured for the host it is sent to (or those embedded in that very URL), with the configured user and password, and no credentials otherwise; redirects to another domain and the cache do not carry them on, and passwords are neither written into the cache nor shown in error messages.",
 ["configurations", "histories"], "every assignment of credentials to hosts, every kind of fetch, with and without cache and redirects",
 "Tests check single requests to one host.",
 ["pkg/apk/index.go", "pkg/apk/implementation.go", "pkg/apk/options.go"],
 [("auth map lookups", "pkg/apk/implementation.go"), ("WithIndexAuth", "pkg/apk/index.go")],
 observe=["requests seen by each host"])

prop("C19", "Initialising a root and its configuration files is exact and repeatable",
 "Initialising a database creates exactly the documented directories, files, empty scripts archive and device nodes with the documented modes, accepts existing directories, and fails without touching a base path that is not a directory or has other permissions; the reported list of initial files matches what was created. "
 "World and repository lists read back exactly as set (the world sorted), in any order of calls and without touching the caller's lists, and every configured key, and every key the requested Alpine releases have for the architecture that is not deprecated yet, ends up in the keyring under its base name with its exact bytes, or the call fails. After an operation that failed, no call reports success unless everything it promises is there, and calling again completes it.",
 ["histories", "configurations", "fault_sequences"], "every prior filesystem state, every sequence of set and get, every set of keys with failures",
 "Tests initialise an empty root once.",
 ["pkg/apk/implementation.go", "pkg/apk/world.go", "pkg/apk/repo.go"],
 [("InitDB / ListInitFiles", "pkg/apk/implementation.go"), ("SetWorld / GetWorld", "pkg/apk/world.go")],
 observe=["the root filesystem", "GetWorld", "GetRepositories"])

prop("C20", "User and group databases round-trip and never change identity",
 "Reading a passwd or group file and writing it back preserves every entry and its order; parsing, editing and writing entries and reading them again yields the same values, and a line that is not a valid entry, including an id that does not fit, is an error rather than another identity; a failure to read or to write the file is reported as an error, never as a shorter file.",
 ["inputs", "histories"], "every entry and every malformed line",
 "Tests parse one small file.",
 ["pkg/passwd/passwd.go", "pkg/passwd/group.go"],
 [("Parse / Write", "pkg/passwd/passwd.go")],
 observe=["passwd.UserFile", "passwd.GroupFile"])

prop("C21", "Read-only views over package archives show exactly the archive",
 "The filesystem views of a package's control or data section list every entry of the archive under its directory exactly once and nothing else, return each file's exact contents, size and mode, follow symbolic and hard links inside the archive to the right entry, report missing names as not existing, and never loop or panic.",
 ["inputs"], "every archive, including implicit directories, links, and repeated reads",
 "Tests read one recorded archive.",
 ["internal/tarfs/tarfs.go", "pkg/fs/apkfs.go"],
 [("tarfs index", "internal/tarfs/tarfs.go"), ("APKFS", "pkg/fs/apkfs.go")],
 observe=["expanded package TarFS/ControlFS", "APKFS"])

prop("C22", "Signing an index yields one valid signature over unchanged contents",
 "Signing an unsigned index produces an archive whose signature verifies under the matching public key and no other, whose index contents are unchanged, and which loads under signature checking; signing an already signed index leaves the file as it is, and if signing fails or the process dies at any point the index file still holds either its old or its new complete contents.",
 ["inputs", "histories", "crash_points"], "every index and key, every sequence of signings, every failure or crash point",
 "Tests sign one file once.",
 ["pkg/signature/sign.go", "pkg/signature/rsa.go"],
 [("SignIndex", "pkg/signature/sign.go")],
 observe=["the index file", "GetRepositoryIndexes"])

prop("C23", "Package metadata is read exactly as its control section states it",
 "For every control section, reading a package (from its file, and by installing it and reading the installed database) yields for each key of its .PKGINFO exactly the value written there, whatever characters it contains (quotes, #, ;, =, backslashes, percent signs, brackets): texts are the rest of their line without surrounding white space, the lists of dependencies, provided names, replaced names and install_if conditions contain every word of every such line in order, numbers are exact and a number that does not fit is an error; comments, blank lines, unknown keys and other lines change nothing.",
 ["inputs"], "every .PKGINFO text, of signed and unsigned packages",
 "Tests parse recorded packages with ordinary values.",
 ["pkg/apk/package.go", "pkg/apk/implementation.go", "pkg/apk/installed.go"],
 [("ParsePackage", "pkg/apk/package.go"), ("packageInfo", "pkg/apk/implementation.go")],
 observe=["ParsePackage", "InstallPackages", "GetInstalled"])

prop("C24", "Synchronising a root installs exactly the resolution of its world",
 "For every set of repositories, world and history of the root, synchronising it (FixateWorld) installs, in the order of the resolution, exactly the packages of the world's resolution whose name is not installed yet, each fetched from the repository that offers it and with the contents its index promises, and leaves what is installed as it is; repeating it changes nothing. It fails, leaving the list of installed packages as it was, if the world cannot be resolved, if a package to be there excludes (by name, provided name or version) one that is installed, or if a missing package cannot be had or is not what was promised; such an attempt does not change what a later one installs. Resolving and calculating the world name the same packages in the same order with the true hashes and section ends of what was served, change nothing in the root, and leave no download open.",
 ["inputs", "histories"], "every repositories, worlds and histories of publishing, editing and synchronising",
 "Tests synchronise one root with one recorded repository.",
 ["pkg/apk/implementation.go", "pkg/apk/repo.go", "pkg/apk/world.go", "pkg/apk/repository.go"],
 [("FixateWorld", "pkg/apk/implementation.go"), ("ResolveWorld / CalculateWorld", "pkg/apk/implementation.go"), ("InstallPackages", "pkg/apk/implementation.go")],
 observe=["FixateWorld", "ResolveWorld", "ResolveAndCalculateWorld", "the installed database", "requests"])

prop("C25", "A failed installation leaves nothing that a later one does not set right",
 "Whenever an installation fails (a package that cannot be had or is not what was promised, a conflict, cancellation, or an operation on the root's filesystem failing at any point), the call returns an error and the installed database, the scripts archive and the triggers are as before; the root holds what was there and the entries up to the point of failure, no file half-written. An installation after it, of the same or other packages, through the same or a new APK object, either fails with an error or leaves files, database, scripts and triggers complete and right for exactly the packages it installed: every regular file and link is listed under its owner although the failed attempt had already put it there, and every script and trigger is there once. Through the same object, regular files that only the failed attempt brought are no obstacle: the next package that carries them takes them over, whatever their contents.",
 ["inputs", "faults", "histories"], "every installation, failure at every operation or package, and further attempt",
 "Tests install into a fresh root whose filesystem works, and stop at the first error.",
 ["pkg/apk/implementation.go", "pkg/apk/install.go", "pkg/apk/installed.go"],
 [("InstallPackages", "pkg/apk/implementation.go"), ("installRegularFile / writeOneFile", "pkg/apk/install.go"), ("updateScriptsTar / updateTriggers / AddInstalledPackage", "pkg/apk/installed.go")],
 observe=["InstallPackages", "the root", "the installed database", "scripts.tar", "triggers"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
