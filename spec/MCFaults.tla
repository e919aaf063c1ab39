------------------------------ MODULE MCFaults ------------------------------
(* The storage protocol below a dataset under damage, failing writes and     *)
(* crashes: storage objects (a shard; a chunk is a shard with one slot) are  *)
(* updated one after the other by read, write of a temporary file, rename.   *)
(* may[o][s] is the set of contents slot s of object o may have according to *)
(* the property: what was last acknowledged, or, after an operation that was *)
(* reported as failed or never returned, also what that operation wrote.     *)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS Objs, Slots, Vals,
          InPlace,     \* write over the old file instead of renaming
          Trust,       \* take an unreadable object for an empty one
          Swallow,     \* do not notice failing writes
          MaxOps

Empty == [s \in Slots |-> 0]
VARIABLES file,        \* o -> [kind |-> "none"|"ok"|"cut", x |-> contents]
          tmp,         \* "none" | "half" | contents
          op,          \* operation in progress [obj, slots, v, left] or idle
          pc, may, dmg, n, said
vars == <<file, tmp, op, pc, may, dmg, n, said>>
Idle == [objs |-> {}, slots |-> {}, v |-> 0, cur |-> 0, new |-> Empty]

Init == /\ file = [o \in Objs |-> [kind |-> "none", x |-> Empty]]
        /\ tmp = "none" /\ op = Idle /\ pc = "idle"
        /\ may = [o \in Objs |-> [s \in Slots |-> {0}]]
        /\ dmg = {} /\ n = 0 /\ said = "nothing"

\* the caller asks for v in some slots of some objects
Begin == /\ pc = "idle" /\ n < MaxOps /\ n' = n + 1
         /\ \E os \in SUBSET Objs \ {{}}, ss \in SUBSET Slots \ {{}}, v \in Vals :
              op' = [objs |-> os, slots |-> ss, v |-> v, cur |-> 0, new |-> Empty]
         /\ pc' = "next" /\ said' = "nothing"
         /\ UNCHANGED <<file, tmp, may, dmg>>

\* acknowledged / reported / interrupted
Finish(how) ==
    /\ pc' = "idle" /\ said' = how
    /\ may' = [o \in Objs |-> [s \in Slots |->
                 IF how = "ok" THEN (IF o \in op.addr /\ s \in op.slots THEN {op.v} ELSE may[o][s])
                 ELSE (IF o \in op.addr /\ s \in op.slots THEN may[o][s] \cup {op.v} ELSE may[o][s])]]
    /\ op' = Idle @@ [addr |-> {}]

Pick == /\ pc = "next"
        /\ LET all == IF "addr" \in DOMAIN op /\ op.addr # {} THEN op.addr ELSE op.objs IN
           \E o \in op.objs :
                  /\ op' = [objs |-> op.objs \ {o}, slots |-> op.slots, v |-> op.v, cur |-> o, new |-> Empty, addr |-> all]
                  /\ pc' = "read"
        /\ UNCHANGED <<file, tmp, may, dmg, n, said>>
Done == /\ pc = "next" /\ op.objs = {} /\ Finish("ok") /\ UNCHANGED <<file, tmp, dmg, n>>

Read == /\ pc = "read"
        /\ LET f == file[op.cur]
               whole == op.slots = Slots
               old == IF f.kind = "ok" THEN f.x ELSE Empty
           IN IF f.kind = "cut" /\ ~whole /\ ~Trust
              THEN Finish("err") /\ UNCHANGED <<file, tmp, dmg, n>>
              ELSE /\ op' = [op EXCEPT !.new = [s \in Slots |-> IF s \in op.slots THEN op.v ELSE old[s]]]
                   /\ pc' = "write" /\ UNCHANGED <<file, tmp, may, dmg, n, said>>

\* first half, second half, rename
Write == /\ pc = "write"
         /\ IF InPlace THEN file' = [file EXCEPT ![op.cur] = [kind |-> "cut", x |-> Empty]] /\ tmp' = tmp
            ELSE tmp' = "half" /\ file' = file
         /\ pc' = "flush" /\ UNCHANGED <<op, may, dmg, n, said>>
Flush == /\ pc = "flush"
         /\ IF InPlace THEN file' = [file EXCEPT ![op.cur] = [kind |-> "ok", x |-> op.new]] /\ tmp' = tmp /\ pc' = "next" /\ dmg' = dmg \ {op.cur}
            ELSE tmp' = "full" /\ file' = file /\ pc' = "rename" /\ dmg' = dmg
         /\ UNCHANGED <<op, may, n, said>>
Rename == /\ pc = "rename"
          /\ file' = [file EXCEPT ![op.cur] = [kind |-> IF tmp = "full" THEN "ok" ELSE "cut", x |-> IF tmp = "full" THEN op.new ELSE Empty]]
          /\ tmp' = "none" /\ pc' = "next" /\ dmg' = dmg \ {op.cur}
          /\ UNCHANGED <<op, may, n, said>>

\* the disk is full: the temporary file is not completed
Fail == /\ pc \in {"write", "flush", "rename"}
        /\ IF Swallow /\ pc = "flush" THEN pc' = "rename" /\ UNCHANGED <<file, tmp, op, may, dmg, n, said>>
           ELSE Finish("err") /\ tmp' = "none" /\ UNCHANGED <<file, dmg, n>>
Crash == /\ pc # "idle" /\ "addr" \in DOMAIN op
         /\ Finish("dead") /\ UNCHANGED <<file, tmp, dmg, n>>
Damage == /\ pc = "idle" /\ dmg = {}
          /\ \E o \in Objs : file[o].kind = "ok" /\ file' = [file EXCEPT ![o].kind = "cut"] /\ dmg' = {o}
          /\ UNCHANGED <<tmp, op, pc, may, n, said>>
\* the file of an earlier crash is in the way of nobody
Next == Begin \/ Pick \/ Done \/ Read \/ Write \/ Flush \/ Rename \/ Fail \/ Crash \/ Damage
Spec == Init /\ [][Next]_vars

Slot(o, s) == IF file[o].kind = "ok" THEN file[o].x[s] ELSE 0
\* nothing but damage from outside makes an object unreadable
Readable == \A o \in Objs : file[o].kind = "cut" => o \in dmg \/ (InPlace /\ pc # "idle")
\* every slot holds an allowed value whenever nothing is going on
Allowed == pc = "idle" => \A o \in Objs, s \in Slots : (file[o].kind # "cut" => Slot(o, s) \in may[o][s])
\* a damaged object is replaced as a whole or stays damaged
NotTrusted == \A o \in dmg : file[o].kind = "cut"
=============================================================================
