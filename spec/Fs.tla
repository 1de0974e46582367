--------------------------------- MODULE Fs --------------------------------
(* A POSIX-like filesystem: what the in-memory filesystem (C13), the disk   *)
(* backed one (C14, C15), and everything that is written into one, is       *)
(* compared with.                                                            *)
(*                                                                           *)
(* A state is [n: nodes, h: handles].  Nodes are numbered, node 1 is the    *)
(* root directory; a node is                                                 *)
(*   [k: "dir"|"file"|"link"|"dev", perm, uid, gid, data: bytes, tg: target, *)
(*    dev: number, x: set of <<attribute, value>>, e: set of <<name, node>>] *)
(* A target is [s: the text, abs: BOOLEAN, p: its components].               *)
(* A handle is [open, node, off, r, w, app].                                 *)
(* Fapply(st, op) is [st: the state after, errs: the acceptable errors ("": *)
(* none), val: what is returned, set: TRUE if val is to be compared].        *)
(* Error classes: "notexist", "exist", "closed", "eof", "other".             *)
(* "any" in errs: this operation is not specified here.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC
CONSTANT FVariant       \* "ok", or a defect the model must notice
MaxLinks == 40
NoTarget == [s |-> "", abs |-> FALSE, p |-> <<>>]
Node(k, perm) == [k |-> k, perm |-> perm, uid |-> 0, gid |-> 0, data |-> <<>>, tg |-> NoTarget, dev |-> 0, x |-> {}, e |-> {}]
Empty0 == [n |-> <<Node("dir", 493)>>, h |-> <<>>]

Names(nd) == {en[1] : en \in nd.e}
Child(nd, a) == (CHOOSE en \in nd.e : en[1] = a)[2]

(* Path resolution: dirs is the chain of directories from the root, todo    *)
(* the components left.  Result: [r: "ok", dirs, names, node]               *)
(*  | [r: "new", dirs, names, name]  the last component does not exist       *)
(*  | [r: "notexist"] | [r: "notdir"] | [r: "loop"]                          *)
Rest(todo) == {i \in 1..Len(todo) : todo[i] # ""} = {}
RECURSIVE Res(_, _, _, _, _, _)
Res(n, dirs, names, todo, follow, links) ==
  LET cur == dirs[Len(dirs)] IN
  IF todo = <<>> THEN [r |-> "ok", dirs |-> dirs, names |-> names, node |-> cur, name |-> ""]
  ELSE LET part == Head(todo)  rest == Tail(todo)  last == Rest(rest) IN
  IF part = "" \/ part = "." THEN Res(n, dirs, names, rest, follow, links)
  ELSE IF n[cur].k # "dir" THEN [r |-> "notdir"]
  ELSE IF part = ".." THEN
     IF Len(dirs) > 1 THEN Res(n, Front(dirs), Front(names), rest, follow, links)
     ELSE Res(n, dirs, names, rest, follow, links)
  ELSE IF part \notin Names(n[cur]) THEN
     IF last THEN [r |-> "new", dirs |-> dirs, names |-> names, node |-> 0, name |-> part] ELSE [r |-> "notexist"]
  ELSE LET c == Child(n[cur], part) IN
  IF n[c].k = "link" /\ (follow \/ ~last) THEN
     IF links >= MaxLinks THEN [r |-> "loop"]
     ELSE IF n[c].tg.abs THEN Res(n, <<1>>, <<>>, n[c].tg.p \o rest, follow, links + 1)
     ELSE IF FVariant = "rootrel" THEN Res(n, <<1>>, <<>>, n[c].tg.p \o rest, follow, links + 1)
     ELSE Res(n, dirs, names, n[c].tg.p \o rest, follow, links + 1)
  ELSE Res(n, Append(dirs, c), Append(names, part), rest, follow, links)
Resolve(n, p, follow) == Res(n, <<1>>, <<>>, p, follow, 0)

Ret(st, errs, val, set) == [st |-> st, errs |-> errs, val |-> val, set |-> set]
Fail(st, errs) == Ret(st, errs, 0, FALSE)
Ok(st) == Ret(st, {""}, 0, FALSE)
OkV(st, v) == Ret(st, {""}, v, TRUE)
Unspecified(st) == Fail(st, {"any"})
\* the error of a path that leads nowhere
PathErr(x) == CASE x.r = "notexist" -> {"notexist"} [] x.r = "new" -> {"notexist"}
                [] x.r = "notdir" -> {"notexist", "other"} [] OTHER -> {"other"}
Parent(x) == IF x.r = "new" THEN x.dirs[Len(x.dirs)] ELSE x.dirs[Len(x.dirs) - 1]

\* st with a new node under the location x (which is "new")
Add(st, x, nd) == LET id == Len(st.n) + 1  par == Parent(x) IN
  [st EXCEPT !.n = Append([st.n EXCEPT ![par].e = @ \cup {<<x.name, id>>}], nd)]
AddLink(st, x, id) == [st EXCEPT !.n[Parent(x)].e = @ \cup {<<x.name, id>>}]
\* create nd at p, which must not exist
CreateAt(st, p, nd) == LET x == Resolve(st.n, p, FALSE) IN
  IF x.r = "new" THEN Ok(Add(st, x, nd)) ELSE IF x.r = "ok" THEN Fail(st, {"exist"}) ELSE Fail(st, PathErr(x))
\* upd applied to the node p leads to
OnNode(st, p, upd(_), moreErrs) == LET x == Resolve(st.n, p, TRUE) IN
  IF x.r = "ok" THEN Ok([st EXCEPT !.n[x.node] = upd(@)]) ELSE Fail(st, PathErr(x) \cup moreErrs)

RECURSIVE MkdirAllR(_, _, _, _)
MkdirAllR(st, p, i, perm) ==
  IF i > Len(p) THEN Ok(st)
  ELSE LET q == SubSeq(p, 1, i)  x == Resolve(st.n, q, FALSE) IN
  IF x.r = "new" THEN MkdirAllR(Add(st, x, Node("dir", perm)), p, i + 1, perm)
  ELSE IF x.r # "ok" THEN Fail(st, PathErr(x))
  ELSE LET y == Resolve(st.n, q, TRUE) IN
       IF y.r = "ok" /\ st.n[y.node].k = "dir" THEN MkdirAllR(st, p, i + 1, perm)
       ELSE Fail(st, {"notexist", "exist", "other"})

Info(nd, name) == [name |-> name, k |-> nd.k, perm |-> IF nd.k = "link" THEN 0 ELSE nd.perm, uid |-> nd.uid, gid |-> nd.gid,
                   size |-> IF nd.k = "file" THEN Len(nd.data) ELSE 0]

Zeros(k) == [i \in 1..k |-> 0]
WriteAt(d, off, b) ==
  LET base == IF off > Len(d) THEN d \o Zeros(off - Len(d)) ELSE d
  IN SubSeq(base, 1, off) \o b \o (IF off + Len(b) < Len(base) THEN SubSeq(base, off + Len(b) + 1, Len(base)) ELSE <<>>)
Slice(d, off, k) == IF off >= Len(d) THEN <<>> ELSE SubSeq(d, off + 1, IF off + k < Len(d) THEN off + k ELSE Len(d))

LastName(p) == LET S == {i \in 1..Len(p) : p[i] # "" /\ p[i] # "."} IN IF S = {} THEN "" ELSE p[CHOOSE i \in S : \A j \in S : j <= i]

(* Opening: fl = [r, w, creat, excl, trunc, app].                            *)
OpenF(st, p, fl, perm) ==
  LET excl == fl.creat /\ fl.excl  x == Resolve(st.n, p, ~excl)
      nh(s, id) == [s EXCEPT !.h = Append(@, [open |-> TRUE, node |-> id, off |-> 0, r |-> fl.r, w |-> fl.w, app |-> fl.app, nm |-> LastName(p)])]
  IN IF x.r = "new" THEN (IF ~fl.creat THEN Fail(st, {"notexist"}) ELSE LET s == Add(st, x, Node("file", perm)) IN Ok(nh(s, Len(s.n))))
     ELSE IF x.r # "ok" THEN Fail(st, PathErr(x))
     ELSE IF excl THEN Fail(st, {"exist"})
     ELSE IF st.n[x.node].k = "dir" THEN Fail(st, IF fl.w \/ fl.creat THEN {"other"} ELSE {"other", "isdir"})
     ELSE IF st.n[x.node].k # "file" THEN Unspecified(st)
     ELSE Ok(nh(IF fl.trunc THEN [st EXCEPT !.n[x.node].data = <<>>] ELSE st, x.node))
WFlags == [r |-> FALSE, w |-> TRUE, creat |-> TRUE, excl |-> FALSE, trunc |-> TRUE, app |-> FALSE]
WriteFileF(st, p, b, perm) ==
  LET o == OpenF(st, p, WFlags, perm) IN
  IF o.errs # {""} THEN o
  ELSE LET id == o.st.h[Len(o.st.h)].node IN Ok([o.st EXCEPT !.h = st.h, !.n[id].data = b])

OnHandle(st, i, f(_)) == IF i > Len(st.h) THEN Fail(st, {"nohandle"}) ELSE IF ~st.h[i].open THEN Fail(st, {"closed"}) ELSE f(st.h[i])
HRead(st, i, k) == OnHandle(st, i, LAMBDA h :
  IF ~h.r THEN Fail(st, {"other"})
  ELSE LET d == Slice(st.n[h.node].data, h.off, k) IN
       IF d = <<>> THEN Ret(st, {"eof"}, <<>>, TRUE) ELSE OkV([st EXCEPT !.h[i].off = @ + Len(d)], d))
HReadAt(st, i, k, off) == IF off < 0 /\ i <= Len(st.h) THEN Fail(st, {"other"} \cup IF st.h[i].open THEN {} ELSE {"closed"}) ELSE OnHandle(st, i, LAMBDA h :
  IF ~h.r THEN Fail(st, {"other"})
  ELSE LET d == Slice(st.n[h.node].data, off, k) IN Ret(st, IF Len(d) < k THEN {"eof"} ELSE {""}, d, TRUE))
HWrite(st, i, b) == OnHandle(st, i, LAMBDA h :
  IF ~h.w THEN Fail(st, {"other"})
  ELSE LET off == IF h.app THEN Len(st.n[h.node].data) ELSE h.off IN
       OkV([st EXCEPT !.n[h.node].data = IF b = <<>> THEN @ ELSE WriteAt(@, off, b), !.h[i].off = off + Len(b)], Len(b)))
HSeek(st, i, off, wh) == OnHandle(st, i, LAMBDA h :
  LET pos == off + (CASE wh = 0 -> 0 [] wh = 1 -> h.off [] OTHER -> Len(st.n[h.node].data)) IN
  IF pos < 0 THEN Fail(st, {"other"}) ELSE OkV([st EXCEPT !.h[i].off = pos], pos))
HStat(st, i) == OnHandle(st, i, LAMBDA h : OkV(st, Info(st.n[h.node], h.nm)))
HClose(st, i) == OnHandle(st, i, LAMBDA h : Ok([st EXCEPT !.h[i].open = FALSE]))

StatF(st, p, follow) == LET x == Resolve(st.n, p, follow) IN
  IF x.r = "ok" THEN OkV(st, Info(st.n[x.node], LastName(p))) ELSE Fail(st, PathErr(x))
ReadFileF(st, p) == LET x == Resolve(st.n, p, TRUE) IN
  IF x.r # "ok" THEN Fail(st, PathErr(x))
  ELSE IF st.n[x.node].k = "dir" THEN Fail(st, {"other"})
  ELSE IF st.n[x.node].k # "file" THEN Unspecified(st) ELSE OkV(st, st.n[x.node].data)
ReadDirF(st, p) == LET x == Resolve(st.n, p, TRUE) IN
  IF x.r # "ok" THEN Fail(st, PathErr(x))
  ELSE IF st.n[x.node].k # "dir" THEN Fail(st, {"other"})
  ELSE OkV(st, {Info(st.n[en[2]], en[1]) : en \in st.n[x.node].e})
ReadlinkF(st, p) == LET x == Resolve(st.n, p, FALSE) IN
  IF x.r # "ok" THEN Fail(st, PathErr(x)) ELSE IF st.n[x.node].k # "link" THEN Fail(st, {"other"}) ELSE OkV(st, st.n[x.node].tg.s)
ReadnodF(st, p) == LET x == Resolve(st.n, p, FALSE) IN
  IF x.r # "ok" THEN Fail(st, PathErr(x)) ELSE IF st.n[x.node].k # "dev" THEN Fail(st, {"other"}) ELSE OkV(st, st.n[x.node].dev)
LinkF(st, old, new) ==
  LET x == Resolve(st.n, old, FALSE)  y == Resolve(st.n, new, FALSE)
      e1 == IF x.r # "ok" THEN PathErr(x) \cup {"notexist"} ELSE IF st.n[x.node].k = "dir" THEN {"other"} ELSE {}
      e2 == IF y.r = "ok" THEN {"exist"} ELSE IF y.r # "new" THEN PathErr(y) ELSE {}
  IN IF e1 \cup e2 = {} THEN Ok(AddLink(st, y, x.node)) ELSE Fail(st, e1 \cup e2)
RemoveF(st, p) == LET x == Resolve(st.n, p, FALSE) IN
  IF x.r # "ok" THEN Fail(st, PathErr(x))
  ELSE IF x.node = 1 THEN Fail(st, {"other"})
  ELSE IF st.n[x.node].k = "dir" /\ st.n[x.node].e # {} /\ FVariant # "rmtree" THEN Fail(st, {"other", "exist"})
  ELSE Ok([st EXCEPT !.n[Parent(x)].e = {en \in @ : en[1] # x.names[Len(x.names)]}])
GetX(st, p, a) == LET x == Resolve(st.n, p, TRUE) IN
  IF x.r # "ok" THEN Fail(st, PathErr(x) \cup {"notexist"})
  ELSE LET S == {v \in st.n[x.node].x : v[1] = a} IN
       IF S = {} THEN Fail(st, {"notexist", "other"}) ELSE OkV(st, (CHOOSE v \in S : TRUE)[2])
ListX(st, p) == LET x == Resolve(st.n, p, TRUE) IN
  IF x.r # "ok" THEN Fail(st, PathErr(x) \cup {"notexist"}) ELSE OkV(st, st.n[x.node].x)

Fapply(st, op) ==
  CASE op.o = "mkdir"    -> CreateAt(st, op.p, Node("dir", op.perm))
    [] op.o = "mkdirall" -> MkdirAllR(st, op.p, 1, op.perm)
    [] op.o = "write"    -> WriteFileF(st, op.p, op.b, op.perm)
    [] op.o = "open"     -> OpenF(st, op.p, op.fl, op.perm)
    [] op.o = "read"     -> HRead(st, op.i, op.k)
    [] op.o = "readat"   -> HReadAt(st, op.i, op.k, op.off)
    [] op.o = "hwrite"   -> HWrite(st, op.i, op.b)
    [] op.o = "seek"     -> HSeek(st, op.i, op.off, op.wh)
    [] op.o = "hstat"    -> HStat(st, op.i)
    [] op.o = "close"    -> HClose(st, op.i)
    [] op.o = "stat"     -> StatF(st, op.p, TRUE)
    [] op.o = "lstat"    -> StatF(st, op.p, FALSE)
    [] op.o = "readfile" -> ReadFileF(st, op.p)
    [] op.o = "readdir"  -> ReadDirF(st, op.p)
    [] op.o = "readlink" -> ReadlinkF(st, op.p)
    [] op.o = "readnod"  -> ReadnodF(st, op.p)
    [] op.o = "symlink"  -> CreateAt(st, op.p, [Node("link", 0) EXCEPT !.tg = op.tg])
    [] op.o = "mknod"    -> CreateAt(st, op.p, [Node("dev", op.perm) EXCEPT !.dev = op.dev])
    [] op.o = "link"     -> LinkF(st, op.old, op.p)
    [] op.o = "remove"   -> RemoveF(st, op.p)
    [] op.o = "chmod"    -> OnNode(st, op.p, LAMBDA nd : [nd EXCEPT !.perm = op.perm], {})
    [] op.o = "chown"    -> OnNode(st, op.p, LAMBDA nd : [nd EXCEPT !.uid = op.uid, !.gid = op.gid], {})
    [] op.o = "setx"     -> OnNode(st, op.p, LAMBDA nd : [nd EXCEPT !.x = {v \in @ : v[1] # op.a} \cup {<<op.a, op.b>>}], {"notexist"})
    [] op.o = "rmx"      -> OnNode(st, op.p, LAMBDA nd : [nd EXCEPT !.x = {v \in @ : v[1] # op.a}], {"notexist"})
    [] op.o = "getx"     -> GetX(st, op.p, op.a)
    [] op.o = "listx"    -> ListX(st, op.p)

(* What can be seen by walking the tree from the root.                       *)
Entry(path, nd) == [p |-> path, k |-> nd.k, perm |-> IF nd.k = "link" THEN 0 ELSE nd.perm, uid |-> nd.uid, gid |-> nd.gid,
                    data |-> nd.data, tg |-> nd.tg.s, dev |-> nd.dev, x |-> nd.x]
RECURSIVE Walk(_, _, _)
Walk(n, id, prefix) ==
  UNION {{Entry(prefix \o en[1], n[en[2]])} \cup (IF n[en[2]].k = "dir" THEN Walk(n, en[2], prefix \o en[1] \o "/") ELSE {}) : en \in n[id].e}
View(st) == Walk(st.n, 1, "")
=============================================================================
