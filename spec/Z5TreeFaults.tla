---------------------------- MODULE Z5TreeFaults ----------------------------
(* Operations on a container during which a storage call failed or the       *)
(* process ended: only what the operation addresses may be affected, and     *)
(* (deletions apart) it is as before, as after, or a prefix of the way.      *)
(* A node that an interrupted deletion left behind has the kind "?": nothing *)
(* is known about it until it is deleted, everything around it is intact.    *)
EXTENDS Z5TreeEvents

Ruin == [k |-> "?", m |-> 0, v |-> 0, at |-> {}]
Ruins(s) == {p \in DOMAIN s.n : s.n[p].k = "?"}
InRuins(s, p) == \E r \in Ruins(s) : Pfx(r, p)
RuinAt(s, p) == [s EXCEPT !.n = [q \in {r \in DOMAIN s.n : ~SPfx(p, r)} |-> IF q = p THEN Ruin ELSE s.n[q]]]

\* a new node at p: parents appear from the top down, at last the node
PartlyPlaced(d, s, p, x) ==
    LET new == {q \in StrictPrefixes(p) : q \notin DOMAIN s.n}
        upto(i) == [s EXCEPT !.n = [q \in DOMAIN s.n \cup {r \in new : Len(r) <= i} |-> IF q \in DOMAIN s.n THEN s.n[q] ELSE Group0]]
        done == Place(s, p, x)
    IN {upto(i) : i \in 0..Len(p)}
       \cup {done}
       \cup (IF x.k = "d" THEN {SetContent(done, p, 0), SetContent(done, p, Mixed)} ELSE {})
       \* a directory without metadata is a group there
       \cup (IF d.fmt = "n5" THEN {Place(s, p, Group0)} ELSE {})

Interrupted(d, e, s) ==
    {s} \cup
    CASE e.op \in {"mkgroup", "reqgroup"} -> IF PlaceOk(s, e.mode, e.path) THEN PartlyPlaced(d, s, e.path, Group0) ELSE {}
      [] e.op \in {"mkds", "reqds"} ->
            IF PlaceOk(s, e.mode, e.path) /\ ~e.bad THEN PartlyPlaced(d, s, e.path, Ds(e.m, e.v)) ELSE {}
      [] e.op = "del" -> IF DelOk(s, e.mode, e.path) THEN {RuinAt(s, e.path)} ELSE {}
      [] e.op = "aset" ->
            IF Has(s, e.path) /\ Writable(e.mode) /\ ~e.bad /\ Keys(SetOf(e.items)) \cap Reserved(d, s, e.path) = {}
            THEN {SetAttrs(s, e.path, SetOf(e.items))} ELSE {}
      [] e.op = "adel" ->
            IF Has(s, e.path) /\ Writable(e.mode) /\ e.key \notin Reserved(d, s, e.path)
            THEN {DelAttr(s, e.path, e.key)} ELSE {}
      [] e.op = "dset" ->
            IF IsD(s, e.path) /\ Writable(e.mode)
            THEN {SetContent(s, e.path, e.v), SetContent(s, e.path, Mixed)} ELSE {}
      [] OTHER -> {}

Seen(s, p, q) == SelectSeq(q, LAMBDA x : ~InRuins(s, p \o x))

PostT(d, e, s) ==
    IF e.op = "fault"
    THEN LET plain == {x \in Post(d, e.in, s) : TRUE}
         IN IF InRuins(s, e.in.path) THEN {s}
            ELSE IF ~e.fired \/ e.in.res = "ok" THEN plain
            ELSE Interrupted(d, e.in, s)
    ELSE IF e.op # "fopen" /\ (InRuins(s, e.path) \/ (F(e, "src") /\ InRuins(s, e.src)))
    THEN {s} \cup (IF e.op = "del" /\ Ok(e) /\ e.path \in Ruins(s) THEN {Del(s, e.path)} ELSE {})
    ELSE IF Ruins(s) # {} /\ e.op = "keys" /\ IsG(s, e.path) /\ Ok(e)
    THEN LET k == SelectSeq(e.keys, LAMBDA x : ~InRuins(s, Append(e.path, x)))
         IN When(Untouched(e) /\ e.len = Len(e.keys)
                 /\ Lists(k, {Base(q) : q \in {r \in ChildrenOf(s, e.path) : ~InRuins(s, r)}}), s)
    ELSE IF Ruins(s) # {} /\ e.op = "visit" /\ IsG(s, e.path) /\ Ok(e)
    THEN LET k == SelectSeq(e.items, LAMBDA x : ~InRuins(s, e.path \o x[1]))
         IN When(Untouched(e)
                 /\ Lists(k, {<<Rel(e.path, q), s.n[q].k>> : q \in {r \in Below(s, e.path) : ~InRuins(s, r)}}), s)
    ELSE IF Ruins(s) # {} /\ e.op = "visitstop" /\ IsG(s, e.path) /\ Ok(e) /\ e.found # <<>> /\ InRuins(s, e.path \o e.found)
    THEN When(Untouched(e), s)
    ELSE Post(d, e, s)
=============================================================================
