---------------------------- MODULE Z5TreeEvents ----------------------------
(* What the recorded operations on a container mean in terms of Z5Tree.      *)
EXTENDS Z5Tree

\* content that an interrupted change left behind
Mixed == -9
Untouched(e) == e.h0 = e.h1
Ok(e) == e.res = "ok"
Err(e) == e.res = "err"
When(c, s) == IF c THEN {s} ELSE {}
Refuse(e, s) == When(Err(e) /\ Untouched(e), s)
Query(e, s, c) == When(Ok(e) /\ Untouched(e) /\ c, s)
SetOf(q) == {q[i] : i \in 1..Len(q)}
\* a listing without duplicates
Lists(q, set) == Len(q) = Cardinality(set) /\ SetOf(q) = set
Rel(p, q) == SubSeq(q, Len(p) + 1, Len(q))
F(e, f) == f \in DOMAIN e
\* a request that asks for something that there is not (a format, an access mode, a codec ..)
Bad(e) == F(e, "bad") /\ e.bad

\* what was observed of a node: kind, and for datasets the description
NodeIs(d, s, p, e) ==
    /\ e.kind = s.n[p].k
    /\ e.kind = "d" => e.om = d.metas[s.n[p].m].want
    /\ F(e, "name") => e.name = p

Post(d, e, s) ==
    CASE e.op = "fopen" ->
            IF OpenOk(s, e.mode) /\ ~Bad(e) THEN When(Ok(e) /\ e.zarr = (d.fmt # "n5") /\ (s.ex /\ e.mode # "w" => Untouched(e)), Opened(s, e.mode))
            ELSE Refuse(e, s)
      [] e.op = "mkfile" -> IF MkFileOk(s, e.mode) /\ ~Bad(e) THEN When(Ok(e), Fresh) ELSE Refuse(e, s)
      [] e.op = "rmfile" -> IF RmFileOk(s, e.mode) THEN When(Ok(e) /\ e.gone, Absent)
                               ELSE IF ~s.ex /\ Writable(e.mode) /\ Ok(e) THEN Query(e, s, e.gone)     \* nothing to remove
                               ELSE Refuse(e, s)
      [] e.op = "move" ->           \* the directory of the container gets another name, under which it is used from now on
            When(Ok(e), s)
      [] e.op = "mkgroup" ->
            IF PlaceOk(s, e.mode, e.path) /\ ~Bad(e) THEN When(Ok(e), Place(s, e.path, Group0)) ELSE Refuse(e, s)
      [] e.op = "reqgroup" ->
            IF IsG(s, e.path) THEN Query(e, s, TRUE)
            ELSE IF PlaceOk(s, e.mode, e.path) THEN When(Ok(e), Place(s, e.path, Group0)) ELSE Refuse(e, s)
      [] e.op = "mkds" ->
            IF PlaceOk(s, e.mode, e.path) /\ ~e.bad
            THEN When(Ok(e) /\ e.om = d.metas[e.m].want, Place(s, e.path, Ds(e.m, e.v)))
            ELSE Refuse(e, s)
      [] e.op = "clone" ->          \* a new dataset with everything the dataset at e.src reports of itself
            IF IsD(s, e.src) /\ PlaceOk(s, e.mode, e.path)
            THEN When(/\ Ok(e) /\ e.om = d.metas[s.n[e.src].m].want /\ e.docsame
                      /\ (s.n[e.src].v = Mixed \/ e.v = s.n[e.src].v), Place(s, e.path, Ds(s.n[e.src].m, e.v)))
            ELSE Refuse(e, s)
      [] e.op = "reqds" ->
            IF IsD(s, e.path)
            THEN IF Matches(d, s.n[e.path].m, e.m, e.wc, e.wt)
                 THEN Query(e, s, e.om = d.metas[s.n[e.path].m].want) ELSE Refuse(e, s)
            ELSE IF PlaceOk(s, e.mode, e.path) /\ ~e.bad
                 THEN When(Ok(e) /\ e.om = d.metas[e.m].want, Place(s, e.path, Ds(e.m, e.v)))
                 ELSE Refuse(e, s)
      [] e.op = "del" ->
            IF DelOk(s, e.mode, e.path) THEN When(Ok(e), Del(s, e.path)) ELSE Refuse(e, s)
      [] e.op = "has" -> Query(e, s, e.val = Has(s, e.path))
      [] e.op = "isg" -> Query(e, s, e.val = IsG(s, e.path))
      [] e.op = "get" -> IF Has(s, e.path) THEN Query(e, s, NodeIs(d, s, e.path, e)) ELSE Refuse(e, s)
      [] e.op = "keys" ->
            IF IsG(s, e.path)
            THEN Query(e, s, Lists(e.keys, {Base(q) : q \in ChildrenOf(s, e.path)})
                             /\ (F(e, "len") => e.len = Cardinality(ChildrenOf(s, e.path))))
            ELSE Refuse(e, s)
      [] e.op = "visit" ->
            IF ~IsG(s, e.path) THEN Refuse(e, s)
            ELSE Query(e, s, Lists(e.items, {<<Rel(e.path, q), s.n[q].k>> : q \in Below(s, e.path)}))
      [] e.op = "visitstop" ->      \* stops at the first of the given nodes it meets
            IF ~IsG(s, e.path) THEN Refuse(e, s)
            ELSE LET hit == {q \in Below(s, e.path) : Base(q) = e.stop}
                 IN Query(e, s, IF hit = {} THEN e.found = <<>> ELSE e.found \in {Rel(e.path, q) : q \in hit})
      [] e.op = "aset" ->
            IF ~Has(s, e.path) THEN Refuse(e, s)
            ELSE IF Writable(e.mode) /\ ~e.bad /\ Keys(SetOf(e.items)) \cap Reserved(d, s, e.path) = {}
                 THEN When(Ok(e), SetAttrs(s, e.path, SetOf(e.items))) ELSE Refuse(e, s)
      [] e.op = "adel" ->           \* deleting an absent key may be reported or ignored
            IF ~Has(s, e.path) THEN Refuse(e, s)
            ELSE IF ~Writable(e.mode) \/ e.key \in Reserved(d, s, e.path) THEN Refuse(e, s)
            ELSE IF e.key \in Keys(s.n[e.path].at) THEN When(Ok(e), DelAttr(s, e.path, e.key))
            ELSE When(Ok(e) \/ Err(e), s)
      [] e.op = "aget" ->
            IF ~Has(s, e.path) THEN Refuse(e, s)
            ELSE IF e.key \in Keys(s.n[e.path].at) THEN Query(e, s, <<e.key, e.val>> \in s.n[e.path].at)
            ELSE Refuse(e, s)
      [] e.op = "ahas" ->
            IF ~Has(s, e.path) THEN Refuse(e, s)
            ELSE Query(e, s, e.val = (e.key \in Keys(s.n[e.path].at)))
      [] e.op = "aall" ->
            IF ~Has(s, e.path) THEN Refuse(e, s)
            ELSE Query(e, s, Lists(e.items, s.n[e.path].at) /\ e.len = Cardinality(s.n[e.path].at))
      [] e.op = "dset" ->           \* give the whole dataset one value, one way or another
            IF ~IsD(s, e.path) THEN Refuse(e, s)
            ELSE IF Writable(e.mode) THEN When(Ok(e), SetContent(s, e.path, e.v))
            ELSE Refuse(e, s)
      [] e.op = "dget" ->
            IF ~IsD(s, e.path) THEN Refuse(e, s)
            ELSE Query(e, s, s.n[e.path].v = Mixed \/ (e.v = s.n[e.path].v /\ (F(e, "present") => e.present = (s.n[e.path].v # 0))))
      [] e.op = "pickle" ->
            IF ~Has(s, e.path) THEN Refuse(e, s)
            ELSE Query(e, s, NodeIs(d, s, e.path, e) /\ e.same)
      [] OTHER -> {}
=============================================================================
