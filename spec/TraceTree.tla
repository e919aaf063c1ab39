----------------------------- MODULE TraceTree ------------------------------
(* Trace validation of recorded uses of a container against Z5Tree.          *)
EXTENDS Z5TreeFaults, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, S

TInit == t \in 1..Len(Traces) /\ l = 1 /\ S = {Absent}
TStep == /\ l <= Len(Traces[t].ev) /\ S # {}
         /\ l' = l + 1 /\ t' = t
         /\ S' = UNION {PostT(Traces[t].cfg, Traces[t].ev[l], s) : s \in S}
         /\ (S' = {} => PrintT(<<"REJECT", t, l>>))
TraceSpec == TInit /\ [][TStep]_<<t, l, S>>
=============================================================================
