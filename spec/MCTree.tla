------------------------------- MODULE MCTree -------------------------------
(* Directories and metadata documents as the library keeps them, one format  *)
(* at a time, and the proof obligation that what it does to them refines the *)
(* tree of named nodes of Z5Tree.                                            *)
(*   fs   path -> set of <<document, key, value>> entries in that directory  *)
(*        (a path that is no key has no directory); chunks of a dataset live *)
(*        in a nested directory "0" with the entry <<"chunk", "v", value>>   *)
(*   ref  the tree as Z5Tree sees it                                         *)
EXTENDS Z5Tree, TLC, Json

CONSTANTS Fmts, Paths, Metas, Vals, AKeys, AVals, Edges, Bugs
VARIABLES fmt, fs, ref, last
vars == <<fmt, fs, ref, last>>

NoDir == [p \in {} |-> {}]
D == [fmt |-> fmt]
DirExists(p) == p \in DOMAIN fs
Docs(p) == fs[p]

AttrDoc == CASE fmt = "n5" -> "attributes.json" [] fmt = "zarr2" -> ".zattrs" [] OTHER -> "zarr.json/attributes"
GroupDocs(root) ==
    CASE fmt = "n5" -> IF root THEN {<<"attributes.json", "n5", "4.0.0">>} ELSE {}
      [] fmt = "zarr2" -> {<<".zgroup", "zarr_format", 2>>}
      [] OTHER -> {<<"zarr.json", "node_type", "group">>}
DsDocs(m) ==
    CASE fmt = "n5" -> {<<"attributes.json", "dimensions", m>>, <<"attributes.json", "dataType", "uint8">>}
      [] fmt = "zarr2" -> {<<".zarray", "shape", m>>}
      [] OTHER -> {<<"zarr.json", "node_type", "array">>, <<"zarr.json", "shape", m>>}

\* what the library takes a directory for
LooksDs(x) == CASE fmt = "n5" -> {"dimensions", "dataType"} \subseteq {e[2] : e \in {g \in x : g[1] = "attributes.json"}}
                [] fmt = "zarr2" -> \E e \in x : e[1] = ".zarray"
                [] OTHER -> <<"zarr.json", "node_type", "array">> \in x
LooksGroup(x) == CASE fmt = "n5" -> ~LooksDs(x)
                   [] fmt = "zarr2" -> \E e \in x : e[1] = ".zgroup"
                   [] OTHER -> <<"zarr.json", "node_type", "group">> \in x
BelowDs(p) == \E q \in StrictPrefixes(p) : DirExists(q) /\ LooksDs(fs[q])
IsNode(p) == DirExists(p) /\ (LooksDs(fs[p]) \/ LooksGroup(fs[p]))
             /\ ("chunkdirs" \notin Bugs => ~BelowDs(p))
Own(x) == IF fmt # "n5" THEN {} ELSE IF LooksDs(x) THEN {"dimensions", "dataType"} ELSE {"n5"}
UserAttrs(x) == {<<e[2], e[3]>> : e \in {f \in x : f[1] = AttrDoc /\ f[2] \notin Own(x)}}
ChunkDir(p) == Append(p, "0")
Content(p) == LET c == IF DirExists(ChunkDir(p)) THEN {e \in fs[ChunkDir(p)] : e[1] = "chunk"} ELSE {}
              IN IF c = {} THEN 0 ELSE (CHOOSE e \in c : TRUE)[3]
MetaOf(x) == (CHOOSE e \in x : e[2] \in {"dimensions", "shape"})[3]

\* the tree that a user sees
Abs == IF <<>> \notin DOMAIN fs THEN Absent ELSE
       [ex |-> TRUE,
        n |-> [p \in {q \in DOMAIN fs : IsNode(q)} |->
                 IF LooksDs(fs[p]) THEN [k |-> "d", m |-> MetaOf(fs[p]), v |-> Content(p), at |-> UserAttrs(fs[p])]
                 ELSE [k |-> "g", m |-> 0, v |-> 0, at |-> UserAttrs(fs[p])]]]

\* ------------------------------------------------------- what the library does
With(f, p, x) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN x ELSE f[q]]
RmTree(f, p) == [q \in {r \in DOMAIN f : ~Pfx(p, r)} |-> f[q]]
MkDirs(f, p, docs) ==
    LET miss == {q \in StrictPrefixes(p) : q \notin DOMAIN f \/ f[q] = {}} \* (directories that an interrupted creation left)
    IN [q \in DOMAIN f \cup miss \cup {p} |->
          IF q = p THEN docs ELSE IF q \in miss THEN (IF "plainparents" \in Bugs THEN {} ELSE GroupDocs(FALSE)) ELSE f[q]]
SetDoc(x, items) == {e \in x : ~(e[1] = AttrDoc /\ e[2] \in {i[1] : i \in items})} \cup {<<AttrDoc, i[1], i[2]>> : i \in items}
DelDoc(x, key) == {e \in x : ~(e[1] = AttrDoc /\ e[2] = key)}
Protected(p, key) == "protect" \notin Bugs /\ key \in Reserved(D, Abs, p)

Do(o, okRef, newRef, newFs) ==
    /\ last' = o /\ fmt' = fmt
    /\ IF okRef THEN ref' = newRef /\ fs' = newFs ELSE ref' = ref /\ fs' = fs

Modes == {"r", "a"}

FileOps ==
    \/ \E mode \in {"r", "r+", "a", "w", "w-"} :
         Do([op |-> "fopen", mode |-> mode], OpenOk(ref, mode), Opened(ref, mode),
            IF mode = "w" \/ <<>> \notin DOMAIN fs THEN [p \in {<<>>} |-> GroupDocs(TRUE)] ELSE fs)

NodeOps == ref.ex /\ \E p \in Paths, mode \in Modes :
    \/ Do([op |-> "mkgroup", mode |-> mode, path |-> p], PlaceOk(ref, mode, p), Place(ref, p, Group0), MkDirs(fs, p, GroupDocs(FALSE)))
    \/ Do([op |-> "reqgroup", mode |-> mode, path |-> p],
          PlaceOk(ref, mode, p), Place(ref, p, Group0), MkDirs(fs, p, GroupDocs(FALSE)))
    \/ \E m \in Metas, bad \in BOOLEAN :
         \/ Do([op |-> "mkds", mode |-> mode, path |-> p, m |-> m, v |-> 0, bad |-> bad],
               PlaceOk(ref, mode, p) /\ ~bad, Place(ref, p, Ds(m, 0)), MkDirs(fs, p, DsDocs(m)))
         \/ Do([op |-> "reqds", mode |-> mode, path |-> p, m |-> m, v |-> 0, bad |-> bad],
               PlaceOk(ref, mode, p) /\ ~bad, Place(ref, p, Ds(m, 0)), MkDirs(fs, p, DsDocs(m)))
    \/ Do([op |-> "del", mode |-> mode, path |-> p], DelOk(ref, mode, p), Del(ref, p), RmTree(fs, p))

DataOps == ref.ex /\ \E p \in Paths, mode \in Modes, v \in Vals :
    Do([op |-> "dset", mode |-> mode, path |-> p, v |-> v],
       IsD(ref, p) /\ Writable(mode), SetContent(ref, p, v),
       IF v = 0 THEN (IF DirExists(ChunkDir(p)) THEN With(fs, ChunkDir(p), {}) ELSE fs)
       ELSE With(fs, ChunkDir(p), {<<"chunk", "v", v>>}))

AttrOps == ref.ex /\ \E p \in Paths \cup {<<>>}, mode \in Modes, key \in AKeys :
    \/ \E v \in AVals :
         Do([op |-> "aset", mode |-> mode, path |-> p, items |-> {<<key, v>>}, bad |-> FALSE],
            Has(ref, p) /\ Writable(mode) /\ (~Protected(p, key)), SetAttrs(ref, p, {<<key, v>>}),
            IF p \in DOMAIN fs THEN With(fs, p, SetDoc(fs[p], {<<key, v>>})) ELSE fs)
    \/ Do([op |-> "adel", mode |-> mode, path |-> p, key |-> key],
          Has(ref, p) /\ Writable(mode) /\ (~Protected(p, key)),
          DelAttr(ref, p, key), IF p \in DOMAIN fs THEN With(fs, p, DelDoc(fs[p], key)) ELSE fs)

Init == fmt \in Fmts /\ fs = NoDir /\ ref = Absent /\ last = [op |-> "none"]
Next == FileOps \/ NodeOps \/ DataOps \/ AttrOps
Spec == Init /\ [][Next]_vars
View == <<fmt, fs, ref>>

\* ---------------------------------------------------------------- properties
Refines == Abs = ref
TreeOk == WellFormed(ref)
\* attributes and contents never change which nodes there are and what they are
Skeleton(s) == [p \in DOMAIN s.n |-> <<s.n[p].k, s.n[p].m>>]
Isolated ==
    [][ /\ last'.op \in {"aset", "adel"} =>
             /\ Skeleton(ref') = Skeleton(ref)
             /\ \A p \in DOMAIN ref.n : ref'.n[p].v = ref.n[p].v /\ (p # last'.path => ref'.n[p] = ref.n[p])
        /\ last'.op = "dset" =>
             /\ Skeleton(ref') = Skeleton(ref)
             /\ \A p \in DOMAIN ref.n : ref'.n[p].at = ref.n[p].at /\ (p # last'.path => ref'.n[p] = ref.n[p])
        /\ last'.op = "del" =>
             \A p \in DOMAIN ref.n : ~Pfx(last'.path, p) => p \in DOMAIN ref'.n /\ ref'.n[p] = ref.n[p]
        /\ last'.op \in {"mkgroup", "reqgroup", "mkds", "reqds"} =>
             \A p \in DOMAIN ref.n : p \in DOMAIN ref'.n /\ ref'.n[p] = ref.n[p]
        /\ (last'.op # "fopen" /\ last'.mode = "r") => (ref' = ref /\ fs' = fs) ]_vars
\* at the level of the documents: the metadata of a node is never touched by attribute operations
DocsSafe ==
    [][ last'.op \in {"aset", "adel", "dset"} =>
          \A p \in DOMAIN ref.n : LET own(x) == {e \in x : e[1] # AttrDoc \/ e[2] \in Own(fs[p])}
                                  IN p \in DOMAIN fs' /\ own(fs'[p]) = own(fs[p]) ]_vars

Nodes(s) == {[p |-> p, x |-> s.n[p]] : p \in DOMAIN s.n}
PrintEdges == Edges => PrintT(<<"EDGE", ToJson([c |-> fmt, s |-> [ex |-> ref.ex, n |-> Nodes(ref)], o |-> last',
                                                n |-> [ex |-> ref'.ex, n |-> Nodes(ref')]])>>)
=============================================================================
