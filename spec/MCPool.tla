-------------------------------- MODULE MCPool --------------------------------
(* The algorithm of the thread pool and of parallel_foreach, step by step, with *)
(* the contract Z5Pool as a monitor of the history it produces.  Steps inside   *)
(* one critical section are one step; condition variables are sets of sleepers. *)
(* Program: commands of the calling thread                                      *)
(*   [c |-> "sub", k, thr]  [c |-> "loop", id, items, thr]  [c |-> "get", k]     *)
(*   [c |-> "close"]                                                            *)
(* Waiters: threads that call waitFinished once, at any time before the close.  *)
EXTENDS Z5Pool, TLC
CONSTANTS N, Programs, Waiters, Bugs

VARIABLES prog, q, busy, stop, mtx, w, sleep, wt, fsleep, fut, main, S
vars == <<prog, q, busy, stop, mtx, w, sleep, wt, fsleep, fut, main, S>>

Ws == 0..(N - 1)
Emit(e) == S' = UNION {PoolPost(s, e) : s \in S}
Emit2(e, f) == S' = UNION {PoolPost(s, f) : s \in UNION {PoolPost(s, e) : s \in S}}
Quiet == UNCHANGED S

\* ---------------------------------------------------- splitting of the items
\* max(int(w / n / 3 + 0.5), 1)
Share(work, n) == LET x == (2 * work + 3 * n) \div (6 * n) IN IF x < 1 THEN 1 ELSE x
RECURSIVE Split(_, _, _)
Split(lo, work, share) ==
    IF work = 0 THEN <<>>
    ELSE LET lc == IF work < share THEN work ELSE share
         IN << [i \in 1..lc |-> lo + i - 1] >> \o Split(lo + lc, work - lc, share)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
ASSUME \A n \in 1..9, work \in 0..60 : Flat(Split(0, work, Share(work, n))) = [i \in 1..work |-> i - 1]

\* a task of the queue: list of functions [c, k, thr] run in turn, and its future
Init ==
    /\ prog \in Programs
    /\ q = <<>> /\ busy = 0 /\ stop = FALSE /\ mtx = "none" /\ sleep = {} /\ fsleep = {}
    /\ w = [i \in Ws |-> [pc |-> "lock", todo |-> <<>>, f |-> 0]]
    /\ wt = [x \in Waiters |-> "new"]
    /\ fut = <<>>
    /\ main = [pc |-> "next", i |-> 1, todo |-> <<>>, exc |-> -1, f0 |-> 1]
    /\ S = UNION {PoolPost(PoolInit, [op |-> "pool", n |-> N, hw |-> 2, got |-> N])}

Free == mtx = "none"
\* ---------------------------------------------------------------- workers
WLock(i) ==
    /\ w[i].pc = "lock" /\ Free
    /\ IF stop /\ ("drainOnStop" \notin Bugs \/ q = <<>>)
       THEN w' = [w EXCEPT ![i].pc = "exit"] /\ UNCHANGED <<q, busy, sleep>>
       ELSE IF q # <<>>
       THEN w' = [w EXCEPT ![i] = [pc |-> "run", todo |-> Head(q).fs, f |-> Head(q).f]] /\ q' = Tail(q) /\ busy' = busy + 1 /\ UNCHANGED sleep
       ELSE w' = [w EXCEPT ![i].pc = "sleep"] /\ sleep' = sleep \cup {i} /\ UNCHANGED <<q, busy>>
    /\ Quiet /\ UNCHANGED <<prog, stop, mtx, wt, fsleep, fut, main>>
WStart(i) ==
    /\ w[i].pc = "run" /\ w[i].todo # <<>>
    /\ LET f == Head(w[i].todo) IN Emit([op |-> "start", c |-> f.c, k |-> f.k, tid |-> i])
    /\ w' = [w EXCEPT ![i].pc = "in"]
    /\ UNCHANGED <<prog, q, busy, stop, mtx, sleep, wt, fsleep, fut, main>>
WEnd(i) ==
    /\ w[i].pc = "in"
    /\ LET f == Head(w[i].todo)
       IN /\ Emit([op |-> "end", c |-> f.c, k |-> f.k])
          /\ IF f.thr \/ Len(w[i].todo) = 1
             THEN /\ fut' = [fut EXCEPT ![w[i].f] = IF f.thr THEN [r |-> "exc", v |-> f.k] ELSE [r |-> "val", v |-> f.k]]
                  /\ w' = [w EXCEPT ![i].pc = "post", ![i].todo = <<>>]
             ELSE fut' = fut /\ w' = [w EXCEPT ![i].pc = "run", ![i].todo = Tail(@)]
    /\ UNCHANGED <<prog, q, busy, stop, mtx, sleep, wt, fsleep, main>>
WEmpty(i) ==              \* a task without items
    /\ w[i].pc = "run" /\ w[i].todo = <<>>
    /\ fut' = [fut EXCEPT ![w[i].f] = [r |-> "val", v |-> 0]] /\ w' = [w EXCEPT ![i].pc = "post"]
    /\ Quiet /\ UNCHANGED <<prog, q, busy, stop, mtx, sleep, wt, fsleep, main>>
WPost(i) ==
    /\ w[i].pc = "post" /\ (Free \/ "unlockedBusy" \in Bugs)
    /\ busy' = busy - 1 /\ w' = [w EXCEPT ![i].pc = "notify"]
    /\ Quiet /\ UNCHANGED <<prog, q, stop, mtx, sleep, wt, fsleep, fut, main>>
WNotify(i) ==
    /\ w[i].pc = "notify"
    /\ w' = [w EXCEPT ![i].pc = "lock"]
    /\ \/ fsleep = {} /\ UNCHANGED <<fsleep, wt>>
       \/ IF "finishOne" \in Bugs
          THEN \E x \in fsleep : fsleep' = fsleep \ {x} /\ wt' = [wt EXCEPT ![x] = "lock"]
          ELSE fsleep # {} /\ fsleep' = {} /\ wt' = [x \in Waiters |-> IF x \in fsleep THEN "lock" ELSE wt[x]]
    /\ Quiet /\ UNCHANGED <<prog, q, busy, stop, mtx, sleep, fut, main>>

\* ---------------------------------------------------------------- waiters
TBegin(x) == /\ wt[x] = "new" /\ main.pc # "closed" /\ ~stop
             /\ wt' = [wt EXCEPT ![x] = "lock"] /\ Emit([op |-> "wait0", w |-> x])
             /\ UNCHANGED <<prog, q, busy, stop, mtx, w, sleep, fsleep, fut, main>>
TSkip(x) ==  /\ wt[x] = "new" /\ wt' = [wt EXCEPT ![x] = "done"] /\ Quiet
             /\ UNCHANGED <<prog, q, busy, stop, mtx, w, sleep, fsleep, fut, main>>
TCheck(x) == /\ wt[x] = "lock" /\ Free
             /\ IF q = <<>> /\ busy = 0 THEN wt' = [wt EXCEPT ![x] = "out"] /\ mtx' = mtx
                ELSE wt' = [wt EXCEPT ![x] = "tosleep"] /\ mtx' = x
             /\ Quiet /\ UNCHANGED <<prog, q, busy, stop, w, sleep, fsleep, fut, main>>
TSleep(x) == /\ wt[x] = "tosleep" /\ fsleep' = fsleep \cup {x} /\ mtx' = "none" /\ wt' = [wt EXCEPT ![x] = "asleep"]
             /\ Quiet /\ UNCHANGED <<prog, q, busy, stop, w, sleep, fut, main>>
TEnd(x) ==   /\ wt[x] = "out" /\ wt' = [wt EXCEPT ![x] = "done"] /\ Emit([op |-> "wait1", w |-> x])
             /\ UNCHANGED <<prog, q, busy, stop, mtx, w, sleep, fsleep, fut, main>>

\* ---------------------------------------------------------------- the caller
Cmd == prog[main.i]
Wake(next) ==            \* worker_condition.notify_one
    \/ sleep = {} /\ UNCHANGED <<sleep, w>>
    \/ \E i \in sleep : sleep' = sleep \ {i} /\ w' = [w EXCEPT ![i].pc = "lock"]
Fn(c, k, t) == [c |-> c, k |-> k, thr |-> t]

First == IF "notifyFirst" \in Bugs /\ N > 0 THEN "wake" ELSE "push"
MSub == /\ main.pc = "next" /\ main.i <= Len(prog) /\ Cmd.c = "sub"
        /\ Emit([op |-> "sub0", k |-> Cmd.k, thr |-> Cmd.thr])
        /\ fut' = Append(fut, [r |-> "none", v |-> 0])
        /\ main' = [main EXCEPT !.pc = First, !.todo = << <<Fn(0, Cmd.k, Cmd.thr)>> >>]
        /\ UNCHANGED <<prog, q, busy, stop, mtx, w, sleep, wt, fsleep>>
MLoop == /\ main.pc = "next" /\ main.i <= Len(prog) /\ Cmd.c = "loop"
         /\ LET items == IF N <= 1 THEN <<>> ELSE Split(0, Cmd.items, Share(Cmd.items, N))
                ts == [j \in 1..Len(items) |-> [m \in 1..Len(items[j]) |-> Fn(Cmd.id, items[j][m], items[j][m] \in Set(Cmd.thr))]]
            IN /\ Emit([op |-> "loop0", c |-> Cmd.id, own |-> FALSE, n |-> 0, hw |-> 2, items |-> Cmd.items, thr |-> Cmd.thr])
               /\ fut' = fut \o [j \in 1..Len(ts) |-> [r |-> "none", v |-> 0]]
               /\ main' = IF N <= 1
                          THEN [main EXCEPT !.pc = "inline", !.todo = << [m \in 1..Cmd.items |-> Fn(Cmd.id, m - 1, (m - 1) \in Set(Cmd.thr))] >>, !.exc = -1]
                          ELSE [main EXCEPT !.pc = IF ts = <<>> THEN "collect" ELSE First, !.todo = ts, !.exc = -1, !.f0 = Len(fut) + 1]
         /\ UNCHANGED <<prog, q, busy, stop, mtx, w, sleep, wt, fsleep>>
NextFut == Len(fut) - Len(main.todo) + 1
MPush == /\ main.pc = "push" /\ N > 0 /\ Free
         /\ q' = Append(q, [fs |-> Head(main.todo), f |-> NextFut])
         /\ main' = [main EXCEPT !.pc = IF "notifyFirst" \in Bugs THEN "pushed" ELSE "wake"]
         /\ Quiet /\ UNCHANGED <<prog, busy, stop, mtx, w, sleep, wt, fsleep, fut>>
MWake == /\ main.pc = "wake" /\ Wake(0)
         /\ main' = [main EXCEPT !.pc = IF "notifyFirst" \in Bugs THEN "push" ELSE "pushed"]
         /\ Quiet /\ UNCHANGED <<prog, q, busy, stop, mtx, wt, fsleep, fut>>
MPushed == /\ main.pc = "pushed"
           /\ IF Cmd.c = "sub" THEN Emit([op |-> "sub1", k |-> Cmd.k]) /\ main' = [main EXCEPT !.pc = "next", !.i = @ + 1, !.todo = <<>>]
              ELSE Quiet /\ main' = [main EXCEPT !.todo = Tail(@), !.pc = IF Len(main.todo) = 1 THEN "collect" ELSE First]
           /\ UNCHANGED <<prog, q, busy, stop, mtx, w, sleep, wt, fsleep, fut>>
\* a pool without workers runs the task at once
MSync == /\ main.pc = "push" /\ N = 0
         /\ LET f == Head(Head(main.todo))
            IN /\ Emit2([op |-> "start", c |-> f.c, k |-> f.k, tid |-> 0], [op |-> "end", c |-> f.c, k |-> f.k])
               /\ fut' = [fut EXCEPT ![Len(fut)] = [r |-> IF f.thr THEN "exc" ELSE "val", v |-> f.k]]
         /\ main' = [main EXCEPT !.pc = "pushed"]
         /\ UNCHANGED <<prog, q, busy, stop, mtx, w, sleep, wt, fsleep>>
\* with at most one worker the loop runs in the caller
MInline == /\ main.pc = "inline"
           /\ LET fs == Head(main.todo)
              IN IF fs = <<>> \/ main.exc >= 0 THEN Quiet /\ main' = [main EXCEPT !.pc = "return"]
                 ELSE /\ Emit2([op |-> "start", c |-> Cmd.id, k |-> Head(fs).k, tid |-> 0], [op |-> "end", c |-> Cmd.id, k |-> Head(fs).k])
                      /\ main' = [main EXCEPT !.todo = <<Tail(fs)>>, !.exc = IF Head(fs).thr THEN Head(fs).k ELSE -1]
           /\ UNCHANGED <<prog, q, busy, stop, mtx, w, sleep, wt, fsleep, fut>>
MCollect == /\ main.pc = "collect"
            /\ IF main.f0 > Len(fut) \/ ("rethrowFirst" \in Bugs /\ main.exc >= 0)
               THEN main' = [main EXCEPT !.pc = "return"]
               ELSE /\ fut[main.f0].r # "none"
                    /\ main' = [main EXCEPT !.f0 = @ + 1,
                                 !.exc = IF @ < 0 /\ fut[main.f0].r = "exc" THEN fut[main.f0].v ELSE @]
            /\ Quiet /\ UNCHANGED <<prog, q, busy, stop, mtx, w, sleep, wt, fsleep, fut>>
MReturn == /\ main.pc = "return"
           /\ Emit([op |-> "loop1", c |-> Cmd.id, res |-> IF main.exc < 0 THEN "ok" ELSE "exc", v |-> main.exc])
           /\ main' = [main EXCEPT !.pc = "next", !.i = @ + 1, !.todo = <<>>, !.exc = -1]
           /\ UNCHANGED <<prog, q, busy, stop, mtx, w, sleep, wt, fsleep, fut>>
MGet == /\ main.pc = "next" /\ main.i <= Len(prog) /\ Cmd.c = "get"
        /\ LET f == fut[Cmd.f]
           IN /\ f.r # "none"
              /\ Emit([op |-> "get", k |-> Cmd.k, res |-> f.r, v |-> f.v])
        /\ main' = [main EXCEPT !.i = @ + 1]
        /\ UNCHANGED <<prog, q, busy, stop, mtx, w, sleep, wt, fsleep, fut>>
MClose == /\ main.pc = "next" /\ main.i <= Len(prog) /\ Cmd.c = "close"
          /\ \A x \in Waiters : wt[x] = "done"
          /\ Emit([op |-> "close0"])
          /\ main' = [main EXCEPT !.pc = "stop"]
          /\ UNCHANGED <<prog, q, busy, stop, mtx, w, sleep, wt, fsleep, fut>>
MStop == /\ main.pc = "stop" /\ Free
         /\ stop' = TRUE /\ main' = [main EXCEPT !.pc = "wakeall"]
         /\ Quiet /\ UNCHANGED <<prog, q, busy, mtx, w, sleep, wt, fsleep, fut>>
MWakeAll == /\ main.pc = "wakeall"
            /\ LET woken == IF "wakeOneAtStop" \in Bugs THEN (IF sleep = {} THEN {} ELSE {CHOOSE i \in sleep : TRUE}) ELSE sleep
               IN sleep' = sleep \ woken /\ w' = [i \in Ws |-> IF i \in woken THEN [w[i] EXCEPT !.pc = "lock"] ELSE w[i]]
            /\ main' = [main EXCEPT !.pc = "join"]
            /\ Quiet /\ UNCHANGED <<prog, q, busy, stop, mtx, wt, fsleep, fut>>
MJoin == /\ main.pc = "join"
         /\ "noJoin" \in Bugs \/ \A i \in Ws : w[i].pc = "exit"
         /\ fut' = [j \in 1..Len(fut) |-> IF \E x \in 1..Len(q) : q[x].f = j THEN [r |-> "broken", v |-> 0] ELSE fut[j]]
         /\ q' = <<>>
         /\ Emit([op |-> "close1"])
         /\ main' = [main EXCEPT !.pc = "next", !.i = @ + 1]
         /\ UNCHANGED <<prog, busy, stop, mtx, w, sleep, wt, fsleep>>

Done == main.pc = "next" /\ main.i > Len(prog) /\ \A x \in Waiters : wt[x] = "done"
Finished == /\ Done /\ (stop \/ (q = <<>> /\ \A i \in Ws : w[i].pc = "sleep")) /\ UNCHANGED vars
Next == \/ \E i \in Ws : WLock(i) \/ WStart(i) \/ WEnd(i) \/ WEmpty(i) \/ WPost(i) \/ WNotify(i)
        \/ \E x \in Waiters : TBegin(x) \/ TSkip(x) \/ TCheck(x) \/ TSleep(x) \/ TEnd(x)
        \/ MSub \/ MLoop \/ MPush \/ MWake \/ MPushed \/ MSync \/ MInline \/ MCollect \/ MReturn \/ MGet \/ MClose \/ MStop \/ MWakeAll \/ MJoin
        \/ Finished
Spec == Init /\ [][Next]_vars

\* the history is one the contract allows; the other half of the contract - no
\* hang - is that no state without a successor exists besides the finished ones
Contract == S # {}
BusyOk == busy >= 0 /\ busy <= N
=============================================================================
