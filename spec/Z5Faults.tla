------------------------------ MODULE Z5Faults ------------------------------
(* Damaged storage, failing storage writes and crashes.  Beside the store a  *)
(* state tells which stored objects do not hold what the library wrote:      *)
(*    cd   numbers of chunks whose encoded bytes were damaged                *)
(*    od   shards whose index was damaged:                                   *)
(*         [o |-> shard position, how |-> "index" | "slot", k, fh]           *)
(*         "index": the index as a whole is unreadable; "slot": only the     *)
(*         entry of chunk k is impossible; fh fingerprint of the file        *)
(* The contents in st stay what they were before the damage: damage may be   *)
(* reported, or not matter, but never shows other values.                    *)
EXTENDS Z5Par

ObjOf(d, k) == LET p == ChunkPos(k, d.shape, d.chunks) IN IF Sharded(d) THEN ShardPos(d, p) ELSE p
KsOf(d, o) == {k \in 0..(NumChunks(d.shape, d.chunks) - 1) : ObjOf(d, k) = o}
BadObjs(s) == {r.o : r \in s.od}

RegionOps == {"read", "write", "scalar"}
ChunkOps == {"wchunk", "rmchunk", "rchunk", "rraw", "exists", "cinfo"}
WholeOps == {"unique", "counts", "trivial"}
Looks == {"read", "rchunk", "rraw", "exists", "cinfo", "unique", "counts"}
Changes == {"write", "scalar", "wchunk", "rmchunk", "trivial"}

\* chunks an operation addresses
Addressed(d, e) ==
    CASE e.op \in RegionOps -> IF ValidRegion(e.off, e.shp, d.shape) THEN RegionChunks(d, e.off, e.shp) ELSE {}
      [] e.op \in ChunkOps  -> IF ValidPos(e.p, d.shape, d.chunks) THEN {ChunkNum(e.p, d.shape, d.chunks)} ELSE {}
      [] e.op \in WholeOps  -> 0..(NumChunks(d.shape, d.chunks) - 1)
      [] OTHER -> {}

\* chunks whose old contents an operation needs not know
Replaced(d, e) ==
    CASE e.op \in {"wchunk", "rmchunk"} -> Addressed(d, e)
      [] e.op \in {"write", "scalar"} ->
            {k \in Addressed(d, e) : Covers(ChunkPos(k, d.shape, d.chunks), e.off, e.shp, d.shape, d.chunks)}
      [] OTHER -> {}

\* damage that a completed operation leaves behind
Healed(d, e, s) ==
    IF e.op \notin Changes THEN s
    ELSE [s EXCEPT !.cd = @ \ Addressed(d, e),
                   !.od = {r \in @ : ~(KsOf(d, r.o) \subseteq Replaced(d, e) /\ e.op \in {"write", "scalar"})}]

\* the states of a change that was interrupted: every storage object that it
\* addresses is as before or as after it
Partial(d, e, s) ==
    LET objs == {ObjOf(d, k) : k \in Addressed(d, e)}
        full == PostSeq(d, [e EXCEPT !.res = "ok"], s)
    IN {s} \cup UNION {{[Healed(d, e, s) EXCEPT
                  !.st = [k \in 1..Len(s.st) |-> IF ObjOf(d, k - 1) \in T THEN x.st[k] ELSE s.st[k]],
                  !.cd = {k \in s.cd : k \in @ \/ ObjOf(d, k) \notin T},
                  !.od = {r \in s.od : r \in @ \/ r.o \notin T}] :
                x \in full} : T \in SUBSET objs}


PostDamaged(d, e, s) ==
    LET ks == Addressed(d, e)
        bc == ks \cap s.cd
        bo == {r \in s.od : r.o \in {ObjOf(d, k) : k \in ks}}
        reported == When(Err(e) /\ Untouched(e), s)
    IN IF bc = {} /\ bo = {} THEN PostSeq(d, e, s)
       ELSE IF e.op \in Looks
       THEN reported \cup
            (IF e.op # "exists" /\ \E r \in bo : r.how = "index" \/ r.k \in ks
             THEN {} ELSE PostSeq(d, e, s))
       ELSE IF e.op \in {"wchunk", "rmchunk"}
       THEN IF bo # {} THEN reported
            ELSE {Healed(d, e, x) : x \in PostSeq(d, e, s)}
       ELSE IF e.op \in {"write", "scalar"} /\ WriteOk(d, s.st, e.off, e.shp)
       THEN LET rep == Replaced(d, e)
                must == \E r \in bo : ~(KsOf(d, r.o) \subseteq rep)
                may == must \/ bo # {} \/ ~(bc \subseteq rep)
            IN (IF Err(e) /\ may
                THEN {x \in Partial(d, e, s) : \A r \in bo : KsOf(d, r.o) \subseteq rep \/ r \in x.od}
                ELSE {})
               \cup (IF must THEN {} ELSE {Healed(d, e, x) : x \in PostSeq(d, e, s)})
       ELSE PostSeq(d, e, s)

\* a file was damaged behind the back of the library
PostMutate(d, e, s) ==
    LET k == ChunkNum(e.p, d.shape, d.chunks)
        o == ObjOf(d, k)
        there == IF e.lvl = "chunk" THEN s.st[k + 1].kind # "none"
                 ELSE \E j \in KsOf(d, o) : s.st[j + 1].kind # "none"
    IN IF ~Ok(e) THEN {}
       ELSE IF e.same THEN {s}
       ELSE IF e.none THEN When(~there, s)
       ELSE IF ~there THEN {}
       ELSE IF e.lvl = "chunk" THEN {[s EXCEPT !.cd = @ \cup {k}]}
       ELSE {[s EXCEPT !.od = {r \in @ : r.o # o} \cup {[o |-> o, how |-> e.lvl, k |-> k, fh |-> e.fh]}]}

\* damaged shards are left as they are until they are replaced as a whole
PostFileHash(d, e, s) ==
    LET o == ObjOf(d, ChunkNum(e.p, d.shape, d.chunks))
    IN When(Ok(e) /\ \A r \in s.od : r.o = o => r.fh = e.fh, s)

\* an operation during which a storage call failed or the process died
PostFault(d, e, s) ==
    IF ~e.fired THEN PostDamaged(d, e.in, s)
    ELSE IF Ok(e.in) THEN PostDamaged(d, e.in, s)
    ELSE IF e.in.op \in Changes THEN Partial(d, e.in, s)
    ELSE {s}

PostF(d, e, s) ==
    CASE e.op = "mutate" -> PostMutate(d, e, s)
      [] e.op = "fhash"  -> PostFileHash(d, e, s)
      [] e.op = "fault"  -> PostFault(d, e, s)
      [] e.op = "par"    -> PostPar(d, e, s)
      [] OTHER -> PostDamaged(d, e, s)
=============================================================================
