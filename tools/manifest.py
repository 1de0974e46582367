#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; a property without a check file goes to not_applicable."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("TLA+ spec of the version grammar/order; TLC laws + TLC as oracle over real comparisons",
        "Order laws exhaustively on the spec for a structured version set; every recorded parse/compare/selection of the real code judged by TLC. Trusts TLC and that the sampled component values represent their classes."),
"C02": ("TLA+ model of the solver (TLC, all small universes) + TLC as soundness oracle over real resolutions",
        "Nondeterministic greedy solver with final verification model-checked on sampled/all 5-package universes; the same universes and random larger ones resolved by the real code and judged by TLC. Bounded universe size."),
"C03": ("TLA+ ranking spec (TLC laws) + TLC as oracle over real rankings, choices and repeated/permuted runs",
        "The ranking is proved a total preorder with the documented key precedence on a finite set; real candidate lists and choices are judged by TLC; determinism by repeated, permuted and warmed-up runs."),
"C17": ("TLA+ spec of the index text format (TLC: round trip over all small packages) + TLC as oracle over real write/read and hostile texts",
        "The format's write/read round trip is model-checked over all combinations of small field values; real writers and parsers are run over generated packages, texts and archives and judged by TLC. Bounded field alphabets."),
"C19": ("TLA+ model of initialising a root step by step over what is already there, with failing operations and repetition, and of keyring and lists (TLC) + random histories with every operation and download failing in the real code, judged by TLC against that model",
        "Exactness, untouched conflicts, repeatability and recovery for every pair of already existing paths and a failure of any step (four defective variants caught). Real histories of up to nine calls run on memory and directory roots whose n-th operation fails and whose network answers badly; the whole root is compared after every call."),
"C20": ("TLA+ spec of the passwd/group text databases (TLC: parse/write laws) + TLC as oracle over real parse/edit/write histories",
        "Parse/write laws model-checked over all short lines of a small alphabet; the same and random longer texts and edit histories run through the real code and judged by TLC."),
"C23": ("TLA+ specification of reading a .PKGINFO line by line, checked in TLC (what a builder writes is read back, other lines change nothing) + TLC as oracle for the real parser and the installed database on generated control sections",
 "Round trip, other lines and keep-what-was-said laws over metadata with special characters and a foreign line anywhere (four defective variants caught). Random control sections of all keys, characters, separators and oversized numbers parsed and installed by the real code, every field judged by TLC."),
"C24": ("TLA+ model of a root synchronised again and again with republished repositories, edited worlds and unavailable packages (TLC) + random histories of real roots over local and remote repositories, every synchronisation judged by TLC",
        "Once-only, completeness, exclusion, keep, failure and repetition laws over all histories of two publications and three synchronisations of a three-name universe (four defective variants caught). Real histories of up to eight synchronisations on memory and directory roots with signed indexes, tags, caches, rebuilt, missing, damaged or exchanged packages; resolution, database, files, requests and open downloads compared each time."),
"C25": ("TLA+ model of installations that fail anywhere and are tried again (TLC) + real histories with filesystem failures at chosen operations, bad packages, conflicts and cancellation, every call and what it left judged by TLC",
        "Ownership and listing laws over all lists of three packages with a common file and link, every point of failure, every subset tried again, same or new object, with or without a package from before (two defective variants caught). Real histories on memory, directory and header-writing roots: each operation of fixed installations fails once, random installations fail at random operations, then are repeated unchanged, in part, reordered or rebuilt; root, database, scripts and triggers compared after each call."),
"C22": ("TLA+ model of the signer with crashes and failing writes (TLC) + replay of crash points and write failures against the real SignIndex, judged by TLC",
        "The protocol (temporary file, mode, rename) is model-checked with a crash or error between any two steps, the in-place variant is shown to break it; the real signer is killed at system calls and starved of file size, the resulting file classified independently and judged by TLC."),
"C08": ("TLA+ model of index loading, verification and the process-wide cache (TLC) + TLC-generated and random load histories replayed on the real code, judged by TLC",
        "All short histories of origins, keys, exemptions, failures on the spec (with two defective variants shown to be caught); every 2-step history of a small alphabet generated by TLC plus random longer, parallel, multi-repository ones run on the real code. RSA trusted."),
"C12": ("TLA+ model of the resuming reader against an arbitrary server (TLC, safety and termination) + all 3-answer schedules and random ones replayed on the real reader, judged by TLC",
        "Every failure schedule of short resources on the spec (three defective variants shown to be caught); TLC-generated and random answer scripts on the real code over an in-process transport and TCP, including reads of any size."),
"C13": ("TLA+ specification of a POSIX-like filesystem (TLC: all short histories) + TLC-generated and random operation histories replayed on NewMemFS, each step judged by TLC",
        "Tree, failure, resolution and hard-link laws on all histories of a small alphabet (two defective variants caught); every reachable small state plus random histories of up to 25 operations on the real filesystem, comparing results, error classes and the whole visible tree after each step."),
"C14": ("the same TLA+ filesystem specification; TLC-generated and random histories replayed on DirFS as an unprivileged user, with the disk and reopening, each step judged by TLC",
        "Results, visible tree, disk contents after each step, and the reopened tree compared with the specification, on case-sensitive and case-insensitive modes. One known finding (hard links on case-insensitive disks). Device nodes are checked in memory only: the sandbox cannot make them."),
"C16": ("TLA+ spec of the tar members of a tree (TLC: all small trees and options) + TLC-generated and random trees, options and faults run through the real writer, judged by TLC",
        "Completeness, order, hard-link and override laws on all trees over four paths; real archives over three kinds of source filesystem read back and judged, twice and from another construction order; failing writers, files and directories must be reported."),
"C21": ("TLA+ spec of the view of an archive (TLC: all short archives) + TLC-generated and random archives seen through both real views, judged by TLC",
        "Listing, resolution and hard-link laws on all archives of two or three members (two defective variants caught); those archives and random larger ones with differently spelt names, repeated, implied and linked entries are walked and questioned, twice, concurrently, through tarfs and APKFS, as data and control sections."),
"C06": ("TLA+ spec of the installed database's text, reader and writer (TLC: round trip over all small packages and trees) + TLC as oracle over real recordings, readings and malformed texts",
        "Write/read round trip model-checked over all one- and two-entry packages, sequences of two in the thorough tier (two defective variants caught); real recordings in memory and on disk, with reopening, of random metadata and trees, the written text and what is read back judged by TLC; texts mutated by lines, long lines."),
"C04": ("TLA+ model of the fetch/install protocol (TLC, safety and termination) + all completion orders of three packages with every failure and random longer histories replayed on the real code, judged by TLC",
        "Order, nothing-ahead, outcome, database and termination laws over all schedules of 3-4 packages (four defective variants caught). Real InstallPackages with fetches released one by one in a chosen order, failing, cancelled, for four values of GOMAXPROCS and three kinds of root; root, database, scripts and triggers after each call judged by TLC."),
"C05": ("TLA+ spec of file ownership (TLC: laws over all three-package universes) + TLC-generated and random universes installed by the real code, judged by TLC",
        "Ownership laws stated independently of the step function on all universes of three packages and one or two shared paths (a defective variant caught); those and random larger ones installed in memory, on disk and lazily."),
"C07": ("TLA+ model of the scripts archive as blocks (TLC, all short append sequences) + random installation histories on the real code, judged by TLC",
        "The append-over-terminator protocol with zero-filled contents (two defective variants caught); real histories of up to five calls with long names, header formats, large and empty scripts, timestamps."),
"C09": ("TLA+ model of the section reader and the comparison with what was promised (TLC: every layout with every cut, damaged cell, missing, repeated or added member; safety and termination) + TLC-enumerated and random archives through the real expansion, parsing, resolution and installation, judged by TLC",
        "Exactness, truncation, promise and no-false-refusal laws on the reader (eight defective variants caught); the enumerated edits are realised at byte level in real archives of many gzip and tar layouts and read by every consumer; what the bytes are is computed by an independent reader on Go's standard library. Histories of installations with caches and changing origins."),
"C10": ("TLA+ model of the package cache directory shared by processes that die anywhere (TLC, safety and termination) + histories of real processes killed at system calls or bytes, starved of file size, cut, cancelled, beside each other, judged by TLC",
        "Completeness, usability and what a finished run keeps on all histories of bounded length of two processes and two versions sharing data or not (four defective variants caught). Real child processes share cache directories, are killed with strace injection at the N-th call of nine kinds of system calls or by themselves after N downloaded bytes; every result is compared with an installation without a cache, and the histories judged by TLC."),
"C11": ("TLA+ model of the index and key cache: origins, tags, shared downloads, processes, offline (TLC) + TLC-simulated and random histories replayed on the real code process by process, recorded traces validated by TLC",
        "Own-body, freshness, no-spurious-failure, single-download and offline laws on all histories of bounded length of two URLs and clients over three processes (nine defective variants caught). Real schedules (who is answered when and how, cancellations, emptied caches, restarts) are scripted through a gated transport; URL pairs and tags are chosen to collide."),
"C15": ("TLA+ model of path lookup in a root inside a larger world, one name per step, and of cache placement (TLC) + every generated lookup and thousands of hostile operation sequences, installations and downloads run in the real code inside a scratch world, judged by TLC",
        "Containment of every lookup of up to 3 (thorough 4) names through every pair of 12 link targets, and of every cache placement of short URL paths and tags (five defective variants caught). The real code runs as an unprivileged user in a directory surrounded by marked files; any change of, or contents, size or name read from, the surroundings is reported, and generated lookups must find exactly the kind of thing the model finds."),
"C18": ("TLA+ spec of which credentials a request of a redirected fetch may carry (TLC: all short chains and configurations) + enumerated and random fetches of indexes, keys and packages by the real code, every request judged by TLC",
        "A client model is checked against the rule and against an independent statement of whom credentials were meant for (six defective variants caught); every request the real code hands to the transport, for all kinds of fetch, chains of hosts, failures and caches, is judged, and cache contents and messages are searched for passwords. Same-name redirects on another port may carry credentials, as net/http does."),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(ROOT, f)) and i in T:
        checks.append({"property": i, "quick_cmd": "python3 %s quick" % f, "thorough_cmd": "python3 %s thorough" % f,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": T[i][2] if len(T[i]) > 2 else "model_checking", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "No hooks: the harness is compiled into the module through 'go build -overlay' and uses only public APIs.", "source_commits": []},
     "notes": "Specification language: TLA+ (TLC). See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1); fh.write("\n")
print(len(checks), "checks", len(na), "not claimed")
