------------------------------ MODULE Z5Index -------------------------------
(* Array-style indexing of a dataset: which elements an index expression     *)
(* selects, the shape of what is read, and what an assignment changes.       *)
(* An expression is a sequence of items                                      *)
(*   [t |-> "i", v |-> integer]           integer                            *)
(*   [t |-> "s", a |-> bound, b |-> bound] slice; bound = <<>> (open) or <<n>> *)
(*   [t |-> "e"]                          ellipsis                           *)
(*   [t |-> "x"]                          anything unsupported               *)
(* Contents are a sequence over the row-major element numbers of the array.  *)
EXTENDS Z5Grid

IsItem(it) == it.t \in {"i", "s"}
RECURSIVE CountT(_, _)
CountT(ix, t) == IF ix = <<>> THEN 0 ELSE (IF Head(ix).t = t THEN 1 ELSE 0) + CountT(Tail(ix), t)
Ellipses(ix) == CountT(ix, "e")
Items(ix) == Len(ix) - Ellipses(ix)
All == [t |-> "s", a |-> <<>>, b |-> <<>>]

\* every axis gets an item: the ellipsis (or the end) stands for the missing ones
Expand(ix, rank) ==
    LET missing == [i \in 1..(rank - Items(ix)) |-> All]
        pos == IF Ellipses(ix) = 0 THEN Len(ix) + 1
               ELSE CHOOSE i \in 1..Len(ix) : ix[i].t = "e"
    IN SubSeq(ix, 1, pos - 1) \o missing \o SubSeq(ix, pos + 1, Len(ix))

Max0(x) == IF x < 0 THEN 0 ELSE x
Clamp(x, n) == IF x > n THEN n ELSE x
SliceLo(it, n) ==
    IF it.a = <<>> THEN 0
    ELSE IF it.a[1] < 0 THEN Max0(it.a[1] + n) ELSE Clamp(it.a[1], n)
SliceHi(it, n) ==
    IF it.b = <<>> THEN n
    ELSE IF it.b[1] < 0 THEN Max0(it.b[1] + n) ELSE Clamp(it.b[1], n)
\* a start before the first element (-n) selects nothing; here, and only here,
\* the library differs from numpy on purpose (pinned by its tests)
SliceLen(it, n) ==
    IF it.a # <<>> /\ it.a[1] < -n THEN 0
    ELSE Max0(SliceHi(it, n) - SliceLo(it, n))

IntOk(it, n) == it.v >= -n /\ it.v < n
IntAt(it, n) == IF it.v < 0 THEN it.v + n ELSE it.v

Valid(ix, shape) ==
    /\ \A i \in 1..Len(ix) : ix[i].t # "x"
    /\ Ellipses(ix) <= 1 /\ Items(ix) <= Len(shape)
    /\ LET e == Expand(ix, Len(shape))
       IN \A d \in 1..Len(shape) : e[d].t = "i" => IntOk(e[d], shape[d])

\* selection: first element and number of elements per axis, axes that remain
Lo(ix, shape) == LET e == Expand(ix, Len(shape))
    IN [d \in 1..Len(shape) |-> IF e[d].t = "i" THEN IntAt(e[d], shape[d]) ELSE SliceLo(e[d], shape[d])]
Ext(ix, shape) == LET e == Expand(ix, Len(shape))
    IN [d \in 1..Len(shape) |-> IF e[d].t = "i" THEN 1 ELSE SliceLen(e[d], shape[d])]
RECURSIVE KeptFrom(_, _, _)
KeptFrom(e, ext, d) ==
    IF d > Len(e) THEN <<>>
    ELSE (IF e[d].t = "i" THEN <<>> ELSE <<ext[d]>>) \o KeptFrom(e, ext, d + 1)
Kept(ix, shape) == KeptFrom(Expand(ix, Len(shape)), Ext(ix, shape), 1)

\* element numbers selected, in the order in which they are delivered
Sel(ix, shape) ==
    LET lo == Lo(ix, shape) ext == Ext(ix, shape)
    IN [k \in 1..Prod(ext) |->
          LET u == Unlin(k - 1, ext) IN Lin([d \in 1..Len(shape) |-> lo[d] + u[d]], shape) + 1]

Read(x, ix, shape) == LET s == Sel(ix, shape) IN [k \in 1..Len(s) |-> x[s[k]]]

\* ------------------------------------------------------------- assignment
Position(s, i) == CHOOSE k \in 1..Len(s) : s[k] = i
Assign(x, ix, shape, w) ==         \* w[k] goes to the k-th selected element
    LET s == Sel(ix, shape)
    IN [i \in 1..Len(x) |-> IF \E k \in 1..Len(s) : s[k] = i THEN w[Position(s, i)] ELSE x[i]]

RECURSIVE StripLead(_)
StripLead(s) == IF s # <<>> /\ Head(s) = 1 THEN StripLead(Tail(s)) ELSE s
RECURSIVE StripTrail(_)
StripTrail(s) == IF s # <<>> /\ s[Len(s)] = 1 THEN StripTrail(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == StripTrail(StripLead(s))

\* shapes that have to be accepted: the selection's own shape, with leading and
\* trailing singleton axes added or removed (as documented; the shape without
\* an integer axis in the middle may be refused like other broadcasting)
Fits(v, ix, shape) ==
    Len(v) > 0 /\ Strip(v) = Strip(Ext(ix, shape))

\* shapes that numpy would broadcast to the selection
RECURSIVE DropLead(_, _)
DropLead(v, n) == IF Len(v) > n /\ Head(v) = 1 THEN DropLead(Tail(v), n) ELSE v
Broadcasts(v, k) ==
    LET w == DropLead(v, Len(k))
    IN Len(w) <= Len(k) /\ \A i \in 1..Len(w) : w[i] = 1 \/ w[i] = k[Len(k) - Len(w) + i]
Broadcast(v, data, k) ==
    LET w == DropLead(v, Len(k))
    IN [j \in 1..Prod(k) |->
          LET u == Unlin(j - 1, k)
          IN data[Lin([i \in 1..Len(w) |-> IF w[i] = 1 THEN 0 ELSE u[Len(k) - Len(w) + i]], w) + 1]]
=============================================================================
