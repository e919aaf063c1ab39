------------------------------- MODULE Z5Tree -------------------------------
(* A container: a tree of named groups and datasets, the access modes of the *)
(* handles through which it is used, and the attributes of its nodes.        *)
(* State: [ex |-> does the container exist,                                  *)
(*         n  |-> function from paths (sequences of names) to nodes].        *)
(* The root is the path <<>>.  A node is                                     *)
(*    [k |-> "g"|"d", m |-> number of the dataset description (0 for groups),*)
(*     v |-> content of the dataset (one abstract value; 0 = fill),          *)
(*     at |-> set of <<key, value>> pairs].                                  *)
(* d is the description of the trace: d.fmt, d.metas[m] = what was requested *)
(* for dataset description m.                                                *)
EXTENDS Integers, Sequences, FiniteSets

Group0 == [k |-> "g", m |-> 0, v |-> 0, at |-> {}]
Ds(m, v) == [k |-> "d", m |-> m, v |-> v, at |-> {}]
Absent == [ex |-> FALSE, n |-> [p \in {} |-> Group0]]
Fresh == [ex |-> TRUE, n |-> [p \in {<<>>} |-> Group0]]

Pfx(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
SPfx(p, q) == Len(p) < Len(q) /\ Pfx(p, q)
StrictPrefixes(p) == {SubSeq(p, 1, i) : i \in 0..(Len(p) - 1)}
Dir(p) == SubSeq(p, 1, Len(p) - 1)
Base(p) == p[Len(p)]

Writable(mode) == mode # "r"
MayCreate(mode) == mode \in {"a", "w", "w-"}

Has(s, p) == s.ex /\ p \in DOMAIN s.n
IsG(s, p) == Has(s, p) /\ s.n[p].k = "g"
IsD(s, p) == Has(s, p) /\ s.n[p].k = "d"
ChildrenOf(s, p) == {q \in DOMAIN s.n : q # <<>> /\ Dir(q) = p}
Below(s, p) == {q \in DOMAIN s.n : SPfx(p, q)}

\* ------------------------------------------------------------ the container
\* opening through the python File class
OpenOk(s, mode) ==
    CASE mode \in {"r", "r+"} -> s.ex
      [] mode = "w-" -> ~s.ex
      [] OTHER -> TRUE
Opened(s, mode) ==
    IF mode = "w" \/ ~s.ex THEN Fresh ELSE s

\* creating through the C++ interface
MkFileOk(s, mode) == MayCreate(mode) /\ ~s.ex
RmFileOk(s, mode) == Writable(mode) /\ s.ex

\* ------------------------------------------------------------------- nodes
Put(f, p, x) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN x ELSE f[q]]

\* a new node needs a free name, and no dataset on the way to it
PlaceOk(s, mode, p) ==
    /\ s.ex /\ Writable(mode) /\ p \notin DOMAIN s.n
    /\ \A q \in StrictPrefixes(p) : q \in DOMAIN s.n => s.n[q].k = "g"

\* missing parents become groups
Place(s, p, x) ==
    LET new == {q \in StrictPrefixes(p) : q \notin DOMAIN s.n}
    IN [s EXCEPT !.n = [q \in DOMAIN s.n \cup new \cup {p} |->
            IF q = p THEN x ELSE IF q \in new THEN Group0 ELSE s.n[q]]]

DelOk(s, mode, p) == Writable(mode) /\ Has(s, p) /\ p # <<>>
Del(s, p) == [s EXCEPT !.n = [q \in {r \in DOMAIN s.n : ~Pfx(p, r)} |-> s.n[q]]]

\* an existing dataset satisfies a request with description m (c, t: is the
\* chunk shape / the element type part of the request?)
Matches(d, have, m, c, t) ==
    /\ d.metas[have].shape = d.metas[m].shape
    /\ c => d.metas[have].chunks = d.metas[m].chunks
    /\ t => d.metas[have].dtype = d.metas[m].dtype

\* -------------------------------------------------------------- attributes
Keys(at) == {x[1] : x \in at}
SetAttrs(s, p, items) ==
    LET ks == {x[1] : x \in items}
    IN [s EXCEPT !.n[p].at = {x \in @ : x[1] \notin ks} \cup items]
DelAttr(s, p, key) == [s EXCEPT !.n[p].at = {x \in @ : x[1] # key}]

\* names under which a format keeps its own metadata next to the attributes
Reserved(d, s, p) ==
    IF d.fmt # "n5" THEN {}
    ELSE IF p = <<>> THEN {"n5"}
    ELSE IF s.n[p].k = "d" THEN {"dimensions", "blockSize", "dataType", "compression", "compressionType"}
    ELSE {}

\* ------------------------------------------------------------------ content
SetContent(s, p, v) == [s EXCEPT !.n[p].v = v]

\* -------------------------------------------------------------- invariants
WellFormed(s) ==
    s.ex => /\ <<>> \in DOMAIN s.n /\ s.n[<<>>].k = "g"
            /\ \A p \in DOMAIN s.n : \A q \in StrictPrefixes(p) : q \in DOMAIN s.n /\ s.n[q].k = "g"
            /\ \A p \in DOMAIN s.n : \A x, y \in s.n[p].at : x[1] = y[1] => x = y
=============================================================================
