------------------------------ MODULE MCPoolCmd -------------------------------
(* Commands to a pool whose tasks are held at a gate until they are released:   *)
(* the state graph is walked on the real pool, which has to settle after every  *)
(* command in the state computed here (all workers busy or the queue empty).    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN, MaxT, MaxW
VARIABLES s, last
vars == <<s, last>>
Min(a, b) == IF a < b THEN a ELSE b
\* move queued tasks to free workers, let waiters go when nothing is left
Settle(x) ==
    LET m == IF x.up = "up" THEN Min(x.que, x.n - x.run) ELSE 0
        y == [x EXCEPT !.que = @ - m, !.run = @ + m]
    IN [y EXCEPT !.w = IF y.que = 0 /\ y.run = 0 THEN 0 ELSE @,
                 !.up = IF @ = "closing" /\ y.run = 0 THEN "down" ELSE @]
Init == s \in [n : 1..MaxN, sub : {0}, que : {0}, run : {0}, w : {0}, up : {"up"}] /\ last = [op |-> "pool"]
Do(x, o) == s' = Settle(x) /\ last' = o
Next ==
    \/ s.up = "up" /\ s.sub < MaxT /\ \E t \in BOOLEAN : Do([s EXCEPT !.sub = @ + 1, !.que = @ + 1], [op |-> "submit", thr |-> t])
    \/ s.run > 0 /\ \E i \in 1..s.run : Do([s EXCEPT !.run = @ - 1], [op |-> "release", i |-> i])
    \/ s.up = "up" /\ s.w < MaxW /\ Do([s EXCEPT !.w = @ + 1], [op |-> "wait"])
    \/ s.up = "up" /\ s.w = 0 /\ Do([s EXCEPT !.up = "closing"], [op |-> "close"])
Spec == Init /\ [][Next]_vars
Bounded == s.run <= s.n /\ (s.up = "up" => (s.que = 0 \/ s.run = s.n)) /\ (s.w > 0 => s.que + s.run > 0)
PrintEdges == PrintT(<<"EDGE", ToJson([n |-> s', o |-> last', s |-> s])>>)
View == s
=============================================================================
