------------------------------- MODULE Z5Pool --------------------------------
(* Contract of the thread pool and of parallel loops, on the serialised       *)
(* history of calls: a call is announced before it is made and its end is      *)
(* recorded after it returned, a function reports its start and end itself.    *)
(*                                                                             *)
(* state: n    number of workers of the shared pool (-1: no pool)              *)
(*        up   "none" | "up" | "closing" | "down"                              *)
(*        job  set of records [c, k, st, thr, tid, sc]: task k of the pool     *)
(*             (c = 0) or item k of loop c; sc = scope of the thread id;       *)
(*             st in "sub" (being submitted) "queued" "run" "done"             *)
(*        loop set of records [c, n]: loops that have not returned             *)
(*        wait set of records [w, idle]: waiters, idle = the pool was seen     *)
(*             without work since the wait began                               *)
EXTENDS Integers, Sequences, FiniteSets

Threads(n, hw) == IF n >= 0 THEN n ELSE IF n = -2 THEN hw \div 2 ELSE hw
IdBound(n) == IF n < 1 THEN 1 ELSE n
Set(q) == {q[i] : i \in 1..Len(q)}

PoolInit == [n |-> -1, up |-> "none", job |-> {}, loop |-> {}, wait |-> {}]

Jobs(s, c) == {j \in s.job : j.c = c}
Running(s) == {j \in s.job : j.st = "run"}
\* no task is certainly in the pool
Idle(s) == \A j \in s.job : j.c = 0 => j.st \in {"sub", "done"}
Note(s) == IF Idle(s) THEN [s EXCEPT !.wait = {[w EXCEPT !.idle = TRUE] : w \in @}] ELSE s
Swap(s, a, b) == Note([s EXCEPT !.job = (@ \ {a}) \cup {b}])
Only(p, x) == IF p THEN {x} ELSE {}

\* a pool comes up with the promised number of workers
Open(s, e) == Only(s.up \in {"none", "down"} /\ e.got = Threads(e.n, e.hw),
                   [PoolInit EXCEPT !.n = e.got, !.up = "up", !.loop = s.loop,
                                    !.job = {j \in s.job : j.c # 0}])

Submit(s, e) == Only(s.up = "up" /\ ~\E j \in Jobs(s, 0) : j.k = e.k,
    [s EXCEPT !.job = @ \cup {[c |-> 0, k |-> e.k, st |-> "sub", thr |-> e.thr, tid |-> -1]}])
Submitted(s, e) ==
    LET a == {j \in Jobs(s, 0) : j.k = e.k /\ j.st = "sub"}
    IN IF a # {} THEN Only(s.n > 0, Swap(s, CHOOSE j \in a : TRUE, [CHOOSE j \in a : TRUE EXCEPT !.st = "queued"]))
       ELSE Only(\E j \in Jobs(s, 0) : j.k = e.k, s)

\* a function may start once, with a thread id that is valid and free
Bound(s, c) == IF c = 0 THEN IdBound(s.n) ELSE IdBound((CHOOSE x \in s.loop : x.c = c).n)
Start(s, e) ==
    IF e.c # 0 /\ ~\E x \in s.loop : x.c = e.c THEN {}      \* the loop has returned
    ELSE IF e.c = 0 /\ s.up = "down" THEN {}
    ELSE IF e.tid < 0 \/ e.tid >= Bound(s, e.c) \/ \E r \in Running(s) : r.c = e.c /\ r.tid = e.tid THEN {}
    ELSE {Swap(s, j, [j EXCEPT !.st = "run", !.tid = e.tid]) :
            j \in {x \in Jobs(s, e.c) : x.k = e.k /\ x.st \in {"sub", "queued"}}}
End(s, e) == {Swap(s, j, [j EXCEPT !.st = "done"]) : j \in {x \in Jobs(s, e.c) : x.k = e.k /\ x.st = "run"}}

\* futures deliver what the function did; a task that never ran has a broken promise
Get(s, e) == {s : j \in {x \in Jobs(s, 0) : x.k = e.k /\
    CASE e.res = "val" -> x.st = "done" /\ ~x.thr /\ e.v = e.k
      [] e.res = "exc" -> x.st = "done" /\ x.thr /\ e.v = e.k
      [] e.res = "broken" -> x.st \in {"sub", "queued"} /\ s.up = "down"
      [] OTHER -> FALSE}}

WaitBegin(s, e) == {Note([s EXCEPT !.wait = @ \cup {[w |-> e.w, idle |-> FALSE]}])}
WaitEnd(s, e) == {[s EXCEPT !.wait = @ \ {x}] : x \in {y \in s.wait : y.w = e.w /\ y.idle}}

CloseBegin(s) == Only(s.up = "up", [s EXCEPT !.up = "closing"])
CloseEnd(s) == Only(s.up = "closing" /\ \A j \in Jobs(s, 0) : j.st # "run", [s EXCEPT !.up = "down"])

\* a loop over e.items items; e.own: with its own pool of e.n threads
LoopBegin(s, e) ==
    LET n == IF e.own THEN Threads(e.n, e.hw) ELSE s.n
    IN Only(e.own \/ s.up = "up",
        [s EXCEPT !.loop = @ \cup {[c |-> e.c, n |-> n]},
                  !.job = @ \cup {[c |-> e.c, k |-> k, st |-> "queued", thr |-> k \in Set(e.thr), tid |-> -1] : k \in 0..(e.items - 1)}])
LoopEnd(s, e) ==
    LET js == Jobs(s, e.c)
    IN Only(/\ \A j \in js : j.st # "run"
            /\ IF e.res = "ok" THEN \A j \in js : j.st = "done" /\ ~j.thr
               ELSE e.res = "exc" /\ \E j \in js : j.thr /\ j.st = "done" /\ j.k = e.v,
            [s EXCEPT !.loop = {x \in @ : x.c # e.c}, !.job = @ \ js])

\* a loop over many items: how many items did not run, ran more than once, or
\* after the loop, or with a thread id that was not theirs
Bulk(s, e) ==
    Only(/\ e.own \/ s.up = "up"
         /\ e.more = 0 /\ e.badtid = 0 /\ e.foreign = 0 /\ e.late = 0
         /\ IF e.res = "ok" THEN e.none = 0 /\ e.thr = <<>> ELSE e.res = "exc" /\ e.v \in Set(e.thr),
         s)

PoolPost(s, e) ==
    CASE e.op = "pool" -> Open(s, e)
      [] e.op = "sub0" -> Submit(s, e)
      [] e.op = "sub1" -> Submitted(s, e)
      [] e.op = "start" -> Start(s, e)
      [] e.op = "end" -> End(s, e)
      [] e.op = "get" -> Get(s, e)
      [] e.op = "wait0" -> WaitBegin(s, e)
      [] e.op = "wait1" -> WaitEnd(s, e)
      [] e.op = "close0" -> CloseBegin(s)
      [] e.op = "close1" -> CloseEnd(s)
      [] e.op = "loop0" -> LoopBegin(s, e)
      [] e.op = "loop1" -> LoopEnd(s, e)
      [] e.op = "bulk" -> Bulk(s, e)
      \* nothing may be left over: every task ended or was discarded by closing the pool
      [] e.op = "over" -> Only(s.loop = {} /\ Running(s) = {} /\ s.wait = {} /\ s.up # "closing"
                               /\ (s.up = "up" => \A j \in s.job : j.st = "done"), s)
      [] OTHER -> {}             \* crash, hang, stall
=============================================================================
