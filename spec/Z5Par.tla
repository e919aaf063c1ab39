------------------------------- MODULE Z5Par --------------------------------
(* Parallel phases: several threads run programs on one dataset object and   *)
(* the quiescent state is observed afterwards.  An event records, for every  *)
(* thread, its operations in order; ts and te number the calls and returns.  *)
(* A phase is explained if its operations can be put into one order that     *)
(* respects the calls that returned before others were made, in which every  *)
(* operation is one of the sequential specification (linearizability).       *)
EXTENDS Z5Dataset

\* thread i may take the next step of the explanation: nothing that is still
\* open elsewhere returned before its call
MayGo(progs, pcs, i) ==
    /\ pcs[i] <= Len(progs[i])
    /\ \A j \in 1..Len(progs) :
          (j # i /\ pcs[j] <= Len(progs[j])) => progs[j][pcs[j]].te > progs[i][pcs[i]].ts

Advance(d, progs, f) ==       \* f = [pc, s]
    UNION {{[pc |-> [f.pc EXCEPT ![i] = @ + 1], s |-> x] : x \in PostSeq(d, progs[i][f.pc[i]], f.s)} :
             i \in {j \in 1..Len(progs) : MayGo(progs, f.pc, j)}}

RECURSIVE Explain(_, _, _, _)
Explain(d, progs, front, left) ==
    IF left = 0 THEN {f.s : f \in front}
    ELSE Explain(d, progs, UNION {Advance(d, progs, f) : f \in front}, left - 1)

RECURSIVE Total(_, _)
Total(progs, i) == IF i = 0 THEN 0 ELSE Len(progs[i]) + Total(progs, i - 1)

PostPar(d, e, s) ==
    IF ~Ok(e) THEN {}
    ELSE Explain(d, e.progs, {[pc |-> [i \in 1..Len(e.progs) |-> 1], s |-> s]}, Total(e.progs, Len(e.progs)))

Post(d, e, s) == IF e.op = "par" THEN PostPar(d, e, s) ELSE PostSeq(d, e, s)
=============================================================================
