------------------------------ MODULE MCIndex -------------------------------
(* Exhaustive check of Z5Index and of the normalisation algorithm of the     *)
(* python layer against it: every index expression over small shapes.        *)
EXTENDS Z5Index, TLC, Json

CONSTANTS MaxRank, MaxExt, Full, Dump, Bugs
\* Full: all slice bounds in every axis (else only a few kinds per axis)

VARIABLES shape, ix
vars == <<shape, ix>>

Bnd(n) == {<<>>} \cup {<<v>> : v \in (-n - 2)..(n + 2)}
ItemsFull(n) == {[t |-> "i", v |-> v] : v \in (-n - 1)..n} \cup {[t |-> "s", a |-> a, b |-> b] : a \in Bnd(n), b \in Bnd(n)}
ItemsFew(n) ==
    {[t |-> "i", v |-> v] : v \in {0, -1, -n, n - 1}}
    \cup {All, [t |-> "s", a |-> <<1>>, b |-> <<>>], [t |-> "s", a |-> <<>>, b |-> <<-1>>],
          [t |-> "s", a |-> <<-1>>, b |-> <<n + 1>>], [t |-> "s", a |-> <<-n>>, b |-> <<1>>]}
Cand(n) == IF Full THEN ItemsFull(n) ELSE ItemsFew(n)

Init == \E r \in 1..MaxRank : shape \in [1..r -> 1..MaxExt] /\ ix = <<>>
Ell == [t |-> "e"]
Next == /\ Len(ix) <= Len(shape) /\ UNCHANGED shape
        /\ \/ Items(ix) < Len(shape)
              /\ \E it \in Cand(shape[IF Items(ix) + 1 > Len(shape) THEN Len(shape) ELSE Items(ix) + 1]) : ix' = Append(ix, it)
           \/ Ellipses(ix) = 0 /\ ix' = Append(ix, Ell)
Spec == Init /\ [][Next]_vars

\* ---- the algorithm: per axis a half-open range, or nothing
AlgSlice(it, n) ==
    LET start == IF it.a = <<>> THEN 0
                 ELSE IF (IF "strict" \in Bugs THEN -n < it.a[1] ELSE -n <= it.a[1]) /\ it.a[1] < 0 THEN n + it.a[1]
                 ELSE IF it.a[1] < -n \/ it.a[1] >= n THEN -1 ELSE it.a[1]
        stop == IF it.b = <<>> \/ (it.b # <<>> /\ it.b[1] > n) THEN n
                ELSE IF it.b[1] < 0 THEN n + it.b[1] ELSE it.b[1]
    IN IF start < 0 \/ stop < 1 \/ stop <= start THEN <<>> ELSE <<start, stop>>
AlgInt(it, n) ==
    IF (IF "strict" \in Bugs THEN -n < it.v ELSE -n <= it.v) /\ it.v < 0 THEN <<it.v + n, it.v + n + 1>>
    ELSE IF it.v >= n \/ it.v < -n THEN <<>> ELSE <<it.v, it.v + 1>>

\* the expansion as the loop over the items does it
RECURSIVE AlgExpand(_, _, _, _)
AlgExpand(items, rank, k, acc) ==
    IF k > Len(items) THEN acc
    ELSE IF items[k].t = "e"
         THEN AlgExpand(items, rank, k + 1,
                        acc \o [i \in 1..(rank - Len(acc) - (Len(items) - k)) |-> All])
         ELSE AlgExpand(items, rank, k + 1, Append(acc, items[k]))
AlgItems == IF Ellipses(ix) = 0 /\ Len(ix) < Len(shape) THEN Append(ix, Ell) ELSE ix

AlgorithmAgrees ==
    /\ AlgExpand(AlgItems, Len(shape), 1, <<>>) = Expand(ix, Len(shape))
    /\ \A d \in 1..Len(shape) :
         LET it == Expand(ix, Len(shape))[d] n == shape[d]
         IN IF it.t = "i"
            THEN AlgInt(it, n) = (IF IntOk(it, n) THEN <<IntAt(it, n), IntAt(it, n) + 1>> ELSE <<>>)
            ELSE AlgSlice(it, n) = (IF SliceLen(it, n) = 0 THEN <<>> ELSE <<SliceLo(it, n), SliceLo(it, n) + SliceLen(it, n)>>)

\* ---- what the selection has to satisfy whatever its definition
InRange == Valid(ix, shape) =>
    /\ \A d \in 1..Len(shape) : Ext(ix, shape)[d] > 0 =>
          Lo(ix, shape)[d] >= 0 /\ Lo(ix, shape)[d] + Ext(ix, shape)[d] <= shape[d]
    /\ \A j, k \in 1..Len(Sel(ix, shape)) : j < k => Sel(ix, shape)[j] < Sel(ix, shape)[k]
    /\ Prod(Kept(ix, shape)) = Len(Sel(ix, shape))
X0 == [k \in 1..Prod(shape) |-> 100 + k]
AssignRead == Valid(ix, shape) =>
    LET n == Prod(Ext(ix, shape)) w == [k \in 1..n |-> k]
        y == Assign(X0, ix, shape, w)
    IN /\ Read(y, ix, shape) = w
       /\ \A i \in 1..Len(y) : (\A k \in 1..n : Sel(ix, shape)[k] # i) => y[i] = X0[i]
\* an ellipsis at the end says nothing, the full slice stands for a missing axis
Trailing == (Ellipses(ix) = 0 /\ Valid(ix, shape)) =>
    Sel(Append(ix, Ell), shape) = Sel(ix, shape) /\ Kept(Append(ix, Ell), shape) = Kept(ix, shape)

\* ---- the value shapes: the rectification algorithm accepts what has to be
\* accepted, and nothing that is not an addition or removal of singletons
AlgStrip(v) == LET s == Strip(v) IN IF s = <<>> THEN <<1>> ELSE s
Windows(r, n) == [i \in 1..(Len(r) - n + 1) |-> SubSeq(r, i, i + n - 1)]
RECURSIVE AlgScan(_, _, _, _)
AlgScan(ws, v, k, lead) ==
    IF k > Len(ws) THEN (~lead \/ "scan" \in Bugs)
    ELSE IF ws[k] = v THEN (IF lead THEN AlgScan(ws, v, k + 1, FALSE) ELSE FALSE)
    ELSE IF lead THEN (IF ws[k][1] # 1 THEN FALSE ELSE AlgScan(ws, v, k + 1, lead))
    ELSE IF ws[k][Len(v)] # 1 THEN FALSE ELSE AlgScan(ws, v, k + 1, lead)
AlgRectify(v, r) ==
    \/ v = r
    \/ LET s == AlgStrip(v)
       IN IF "single" \notin Bugs /\ s = <<1>> /\ (\A d \in 1..Len(r) : r[d] = 1) THEN TRUE
          ELSE Len(s) <= Len(r) /\ Prod(s) = Prod(r) /\ AlgScan(Windows(r, Len(s)), s, 1, TRUE)
ValueShapes == UNION {[1..r -> 1..MaxExt] : r \in 1..(MaxRank + 1)}
RectifyAgrees == (ix = <<>>) =>
    \A v \in ValueShapes : AlgRectify(v, shape) <=> Fits(v, ix, shape)

PrintExprs == Dump => PrintT(<<"EDGE", ToJson([shape |-> shape, ix |-> ix'])>>)
=============================================================================
