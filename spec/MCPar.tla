-------------------------------- MODULE MCPar ---------------------------------
(* How concurrent operations on one dataset object are carried out: a shard is  *)
(* read, changed and replaced under a lock, looked up and read without one; a   *)
(* region operation hands chunks to workers that each use a buffer of their own. *)
(* Every thread changes only its own slot of the shard and its own chunks; one   *)
(* slot ("quiet") is changed by nobody.  Value 0 is the fill value: a shard      *)
(* without any other value has no file.                                          *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, MaxOps, Vals, Bugs

Slots == Threads \cup {"quiet"}
NoFile == [ex |-> FALSE, torn |-> FALSE, x |-> [s \in Slots |-> 0]]
Mk(x) == [ex |-> \E s \in Slots : x[s] # 0, torn |-> FALSE, x |-> x]

VARIABLES file,    \* the shard file
          chunk,   \* plain chunks, one per thread
          buf,     \* buffers of the workers
          lock, pc, op, snap, n, want, wantc, good
vars == <<file, chunk, buf, lock, pc, op, snap, n, want, wantc, good>>

Init == /\ \E q \in Vals : file = Mk([s \in Slots |-> IF s = "quiet" THEN q ELSE 0]) /\ want = [s \in Slots |-> IF s = "quiet" THEN q ELSE 0]
        /\ chunk = [t \in Threads |-> 0] /\ wantc = [t \in Threads |-> 0]
        /\ buf = [t \in Threads |-> 0]
        /\ lock = "free" /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> [k |-> "none", s |-> "quiet", v |-> 0]]
        /\ snap = [t \in Threads |-> NoFile] /\ n = [t \in Threads |-> 0] /\ good = TRUE

Start(t) == /\ pc[t] = "idle" /\ n[t] < MaxOps /\ n' = [n EXCEPT ![t] = @ + 1]
            /\ \/ \E v \in Vals : op' = [op EXCEPT ![t] = [k |-> "write", s |-> t, v |-> v]] /\ pc' = [pc EXCEPT ![t] = "lock"]
               \/ \E s \in {t, "quiet"} : op' = [op EXCEPT ![t] = [k |-> "read", s |-> s, v |-> 0]] /\ pc' = [pc EXCEPT ![t] = "look"]
               \/ \E v \in Vals : op' = [op EXCEPT ![t] = [k |-> "chunk", s |-> t, v |-> v]] /\ pc' = [pc EXCEPT ![t] = "fill"]
            /\ UNCHANGED <<file, chunk, buf, lock, snap, want, wantc, good>>

\* ------------------------------------------------ writing a slot of the shard
Lock(t) == /\ pc[t] = "lock" /\ ("noLock" \in Bugs \/ lock = "free")
           /\ lock' = IF "noLock" \in Bugs THEN lock ELSE t
           /\ pc' = [pc EXCEPT ![t] = "rmwread"]
           /\ UNCHANGED <<file, chunk, buf, op, snap, n, want, wantc, good>>
RmwRead(t) == /\ pc[t] = "rmwread" /\ snap' = [snap EXCEPT ![t] = file]
              /\ good' = (good /\ ~file.torn)
              /\ pc' = [pc EXCEPT ![t] = IF "inPlace" \in Bugs THEN "truncate" ELSE "replace"]
              /\ UNCHANGED <<file, chunk, buf, lock, op, n, want, wantc>>
Truncate(t) == /\ pc[t] = "truncate" /\ file' = [file EXCEPT !.torn = TRUE]
               /\ pc' = [pc EXCEPT ![t] = "replace"]
               /\ UNCHANGED <<chunk, buf, lock, op, snap, n, want, wantc, good>>
Replace(t) == /\ pc[t] = "replace" /\ file' = Mk([snap[t].x EXCEPT ![op[t].s] = op[t].v])
              /\ want' = [want EXCEPT ![op[t].s] = op[t].v]
              /\ lock' = IF "noLock" \in Bugs THEN lock ELSE "free"
              /\ pc' = [pc EXCEPT ![t] = "idle"]
              /\ UNCHANGED <<chunk, buf, op, snap, n, wantc, good>>

\* ---------------------------------------------------- reading, without a lock
Look(t) == /\ pc[t] = "look"
           /\ IF file.ex THEN pc' = [pc EXCEPT ![t] = "open"] /\ good' = good
              ELSE pc' = [pc EXCEPT ![t] = "idle"] /\ good' = (good /\ want[op[t].s] = 0)
           /\ UNCHANGED <<file, chunk, buf, lock, op, snap, n, want, wantc>>
Open(t) == /\ pc[t] = "open"
           \* the file may be gone by now: that is an absent chunk, not an error
           /\ good' = (good /\ ~file.torn /\ (IF file.ex THEN file.x[op[t].s] = want[op[t].s]
                                              ELSE "goneIsError" \notin Bugs /\ want[op[t].s] = 0))
           /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ UNCHANGED <<file, chunk, buf, lock, op, snap, n, want, wantc>>

\* ---------------------------------------------- a worker and its chunk buffer
B(t) == IF "oneBuffer" \in Bugs THEN CHOOSE x \in Threads : TRUE ELSE t
Fill(t) == /\ pc[t] = "fill" /\ buf' = [buf EXCEPT ![B(t)] = op[t].v] /\ pc' = [pc EXCEPT ![t] = "store"]
           /\ UNCHANGED <<file, chunk, lock, op, snap, n, want, wantc, good>>
Store(t) == /\ pc[t] = "store" /\ chunk' = [chunk EXCEPT ![t] = buf[B(t)]] /\ wantc' = [wantc EXCEPT ![t] = op[t].v]
            /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ UNCHANGED <<file, buf, lock, op, snap, n, want, good>>

Next == \E t \in Threads : Start(t) \/ Lock(t) \/ RmwRead(t) \/ Truncate(t) \/ Replace(t) \/ Look(t) \/ Open(t) \/ Fill(t) \/ Store(t)
Spec == Init /\ [][Next]_vars

\* no read saw anything but the last value written to its slot or failed, no
\* update was lost, and no other slot or chunk changed
Linearizable == good /\ file.x = want /\ chunk = wantc
=============================================================================
