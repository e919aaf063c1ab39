------------------------------ MODULE TracePool ------------------------------
(* Validation of serialised histories of the real thread pool.                 *)
EXTENDS Z5Pool, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, S
TInit == t \in 1..Len(Traces) /\ l = 1 /\ S = {PoolInit}
TStep == /\ l <= Len(Traces[t].ev) /\ S # {}
         /\ l' = l + 1 /\ t' = t
         /\ S' = UNION {PoolPost(s, Traces[t].ev[l]) : s \in S}
         /\ (S' = {} => PrintT(<<"REJECT", t, l>>))
TraceSpec == TInit /\ [][TStep]_<<t, l, S>>
=============================================================================
