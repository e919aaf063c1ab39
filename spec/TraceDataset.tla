---------------------------- MODULE TraceDataset ----------------------------
(* Trace validation of recorded executions against Z5Dataset.  Every initial *)
(* state is one recorded trace; the possible specification states after each *)
(* event are tracked as a set S, so the search is linear in the trace length *)
(* also where the specification leaves a choice.  A trace is rejected when   *)
(* no specification state explains its next event.                           *)
EXTENDS Z5Interop, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, S

Events(i) == Traces[i].ev
TInit == t \in 1..Len(Traces) /\ l = 1 /\ S = {State0}
TStep == /\ l <= Len(Events(t)) /\ S # {}
         /\ l' = l + 1 /\ t' = t
         /\ S' = UNION {PostI(Traces[t].cfg, Events(t)[l], s) : s \in S}
         /\ (S' = {} => PrintT(<<"REJECT", t, l>>))
TNext == TStep
TraceSpec == TInit /\ [][TNext]_<<t, l, S>>
=============================================================================
