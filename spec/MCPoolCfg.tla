------------------------------ MODULE MCPoolCfg -------------------------------
EXTENDS MCPool
Sub(k, t) == [c |-> "sub", k |-> k, thr |-> t]
GetF(k) == [c |-> "get", k |-> k, f |-> k]
Loop(id, n, t) == [c |-> "loop", id |-> id, items |-> n, thr |-> t]
CloseC == [c |-> "close"]
ProgLoop == { <<Loop(1, n, t), CloseC>> : n \in 0..4, t \in {<<>>, <<0>>, <<1, 3>>} }
ProgLoopBig == { <<Loop(1, 14, t), CloseC>> : t \in {<<>>, <<1>>, <<0, 13>>} }
ProgTask == { <<Sub(1, a), Sub(2, b), Sub(3, FALSE), GetF(2), GetF(1), GetF(3), CloseC>> : a, b \in BOOLEAN }
            \cup { <<Sub(1, a), Sub(2, b), Sub(3, FALSE), CloseC>> \o IF d THEN <<GetF(1), GetF(2), GetF(3)>> ELSE <<>> : a, b, d \in BOOLEAN }
ProgMix == { <<Sub(1, FALSE), Loop(1, 3, t), Sub(2, TRUE), GetF(1), CloseC>> : t \in {<<>>, <<2>>} }
ProgAll == ProgLoop \cup ProgTask \cup ProgMix
=============================================================================
