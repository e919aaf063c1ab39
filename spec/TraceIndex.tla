----------------------------- MODULE TraceIndex -----------------------------
(* Trace validation of index expressions; the state is the contents.         *)
EXTENDS Z5Index, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, S

Ok(e) == e.res = "ok"
Err(e) == e.res = "err"
Untouched(e) == e.h0 = e.h1
When(c, x) == IF c THEN {x} ELSE {}
Refuse(e, x) == When(Err(e) /\ Untouched(e), x)

PostGet(d, e, x) ==
    IF ~Valid(e.ix, d.shape) THEN Refuse(e, x)
    ELSE When(/\ Ok(e) /\ Untouched(e) /\ e.dt
              /\ e.shape = Kept(e.ix, d.shape) /\ e.data = Read(x, e.ix, d.shape), x)

PostSet(d, e, x) ==
    IF ~Valid(e.ix, d.shape) THEN Refuse(e, x)
    ELSE IF Prod(Ext(e.ix, d.shape)) = 0 THEN When(Untouched(e), x)
    ELSE IF e.val.t = "bad" THEN Refuse(e, x)
    ELSE LET n == Prod(Ext(e.ix, d.shape))
         IN IF e.val.t = "sc" THEN When(Ok(e), Assign(x, e.ix, d.shape, [k \in 1..n |-> e.val.v]))
            ELSE IF Fits(e.val.shape, e.ix, d.shape)
                 THEN When(Ok(e), Assign(x, e.ix, d.shape, e.val.data))
            ELSE IF Broadcasts(e.val.shape, Kept(e.ix, d.shape))
                 THEN When(Ok(e), Assign(x, e.ix, d.shape, Broadcast(e.val.shape, e.val.data, Kept(e.ix, d.shape))))
                      \cup Refuse(e, x)
            ELSE Refuse(e, x)

\* write_direct: selection six of an array of shape sshape goes to selection ix
PostWDirect(d, e, x) ==
    IF Ext(e.six, e.sshape) = Ext(e.ix, d.shape)
    THEN When(Ok(e), Assign(x, e.ix, d.shape, Read(e.sdata, e.six, e.sshape)))
    ELSE Refuse(e, x)

\* read_direct: selection ix of the dataset goes to selection six of an array
\* that held sdata and holds after afterwards
PostRDirect(d, e, x) ==
    LET v == Read(x, e.ix, d.shape) k == Ext(e.six, e.sshape)
    IN When(/\ Untouched(e)
            /\ IF Ext(e.ix, d.shape) = k THEN Ok(e) /\ e.after = Assign(e.sdata, e.six, e.sshape, v)
               ELSE \/ Err(e) /\ e.after = e.sdata
                    \/ /\ Ok(e) /\ Broadcasts(Ext(e.ix, d.shape), k)
                       /\ e.after = Assign(e.sdata, e.six, e.sshape, Broadcast(Ext(e.ix, d.shape), v, k)), x)

Post(d, e, x) ==
    CASE e.op = "init" -> When(Ok(e), [k \in 1..Prod(d.shape) |-> 0])
      [] e.op = "get" -> PostGet(d, e, x)
      [] e.op = "set" -> PostSet(d, e, x)
      [] e.op = "all" -> When(Ok(e) /\ e.data = x, x)
      [] e.op = "wdirect" -> PostWDirect(d, e, x)
      [] e.op = "rdirect" -> PostRDirect(d, e, x)
      [] OTHER -> {}

TInit == t \in 1..Len(Traces) /\ l = 1 /\ S = {<<>>}
TStep == /\ l <= Len(Traces[t].ev) /\ S # {}
         /\ l' = l + 1 /\ t' = t
         /\ S' = UNION {Post(Traces[t].cfg, Traces[t].ev[l], s) : s \in S}
         /\ (S' = {} => PrintT(<<"REJECT", t, l>>))
TraceSpec == TInit /\ [][TStep]_<<t, l, S>>
=============================================================================
