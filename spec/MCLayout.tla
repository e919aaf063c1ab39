----------------------------- MODULE MCLayout -------------------------------
(* The stored representation is an encoding of the chunk store: an           *)
(* implementation-shaped writer (one object per chunk; shards are read,      *)
(* taken apart, changed in one slot, and built again) and a foreign writer   *)
(* that lays out the blobs of a shard in another order and with gaps keep    *)
(* the objects such that Z5Layout!DiskOk accepts them for the current store  *)
(* and for no other store.  Keys name positions one to one.                  *)
EXTENDS Z5Layout

CONSTANTS Descriptions, MaxVal, Fault

VARIABLES d, store, files      \* files: set of records [key, ...]
vars == <<d, store, files>>

Ks == 0..(NumChunks(d.shape, d.chunks) - 1)
Pos(k) == ChunkPos(k, d.shape, d.chunks)
Datas(p) == [1..ChunkLen(d, p) -> 0..MaxVal]
Vars(p) == IF IsZarr(d) THEN {} ELSE {<<>>, <<1>>, [i \in 1..ChunkLen(d, p) |-> MaxVal]}

\* an encoded chunk; its size depends on the contents (as if compressed)
RECURSIVE Sum(_, _)
Sum(x, i) == IF i > Len(x) THEN 0 ELSE x[i] + Sum(x, i + 1)
Rec(p, ent) ==
    LET clip == ClippedShape(p, d.shape, d.chunks)
    IN [data |-> ent.x, mode |-> IF ent.kind = "var" THEN 1 ELSE 0,
        n |-> IF ent.kind = "var" THEN Len(ent.x) ELSE IF d.fmt = "n5" THEN Prod(clip) ELSE Prod(d.chunks),
        dims |-> IF Fault = "dims" THEN clip ELSE Reverse(clip)]
BlobLen(rec) == 1 + Sum(rec.data, 1)
NoRec == [data |-> <<>>, mode |-> 0, n |-> 0, dims |-> <<>>]

ImplKey(p) == IF Fault = "noreverse" /\ d.fmt = "n5" THEN JoinFrom(p, "/", 1) ELSE KeyOf(d, p)
ImplSlot(p) ==
    IF Fault # "column" THEN SlotOf(d, p)
    ELSE LET cps == ChunksPerShard(d)
         IN Lin(Reverse([a \in 1..Len(p) |-> p[a] % cps[a]]), Reverse(cps))

FileAt(key) == CHOOSE f \in files : f.key = key
HasFile(key) == \E f \in files : f.key = key

\* a shard: blobs of the used slots one after the other in the order ord,
\* with a gap of g bytes in front
RECURSIVE Layed(_, _, _, _)
Layed(recs, ord, i, at) ==
    IF i > Len(ord) THEN <<>>
    ELSE <<[s |-> ord[i], off |-> at]>> \o Layed(recs, ord, i + 1, at + BlobLen(recs[ord[i]]))
Build(key, recs, ord, g) ==
    LET places == Layed(recs, ord, 1, g)
        data   == g + (IF ord = <<>> THEN 0
                       ELSE LET l == places[Len(places)] IN l.off - g + BlobLen(recs[l.s]))
    IN [key |-> key, bad |-> "", crc |-> TRUE, size |-> data + 16 * NumSlots(d) + 4, recs |-> recs,
        slots |-> [i \in 1..NumSlots(d) |->
                     IF \E j \in 1..Len(places) : places[j].s = i
                     THEN LET pl == CHOOSE q \in SetOf(places) : q.s = i
                          IN [e |-> FALSE, off |-> pl.off, len |-> BlobLen(recs[i])]
                     ELSE [e |-> TRUE, off |-> -1, len |-> -1]]]
Used(f) == {i \in 1..NumSlots(d) : ~f.slots[i].e}
InOrder(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

\* replace one slot of a shard (rec = NoRec: empty it)
PutSlot(key, i, rec) ==
    LET old  == IF HasFile(key) THEN FileAt(key).recs ELSE [j \in 1..NumSlots(d) |-> NoRec]
        used == (IF HasFile(key) THEN Used(FileAt(key)) ELSE {}) \ {i}
        now  == IF rec = NoRec THEN used ELSE used \cup {i}
        rest == {f \in files : f.key # key}
    IN IF now = {} /\ Fault # "keepempty" THEN rest
       ELSE rest \cup {Build(key, [old EXCEPT ![i] = rec], InOrder(now), 0)}

SetEntry(k, ent) ==
    /\ store' = [store EXCEPT ![k + 1] = ent]
    /\ files' = IF Sharded(d)
                THEN PutSlot(ImplKey(ShardPos(d, Pos(k))), ImplSlot(Pos(k)) + 1,
                             IF ent = None THEN NoRec ELSE Rec(Pos(k), ent))
                ELSE LET rest == {f \in files : f.key # ImplKey(Pos(k))}
                     IN IF ent = None THEN rest
                        ELSE rest \cup {[key |-> ImplKey(Pos(k)), bad |-> "", rec |-> Rec(Pos(k), ent)]}
    /\ UNCHANGED d

\* another writer arranges the blobs of a shard differently
Rearrange ==
    /\ Sharded(d)
    /\ \E f \in files : \E ord \in SetToSeqs(Used(f)), g \in 0..1 :
          files' = (files \ {f}) \cup {Build(f.key, f.recs, ord, g)}
    /\ UNCHANGED <<d, store>>

Init == /\ d \in Descriptions
        /\ store = EmptyStore(d) /\ files = {}
Next == \/ \E k \in Ks :
             \/ \E x \in Datas(Pos(k)) : SetEntry(k, Put(d, x))
             \/ \E x \in Vars(Pos(k)) : SetEntry(k, IF x = <<>> THEN None ELSE Var(x))
        \/ Rearrange
Spec == Init /\ [][Next]_vars

Listed == SetToSeq(files)
Represents == DiskOk(d, store, Listed)
\* entries a store can hold at chunk k
Entries(k) == {Put(d, x) : x \in Datas(Pos(k))} \cup {Var(x) : x \in Vars(Pos(k)) \ {<<>>}}
\* no other store has the same representation (changing any one chunk shows)
Unique == \A k \in Ks : \A e \in Entries(k) :
             e # store[k + 1] => ~DiskOk(d, [store EXCEPT ![k + 1] = e], Listed)

\* names: one to one, also for positions with several digits
Wide == [a \in 1..Len(d.shape) |-> 12]
Positions == {Unlin(i, Wide) : i \in 0..(Prod(Wide) - 1)}
KeysInjective == files = {} => Cardinality({KeyOf(d, p) : p \in Positions}) = Cardinality(Positions)
SlotBijection == (files = {} /\ Sharded(d)) =>
    \A p \in Positions : /\ SlotPos(d, ShardPos(d, p), SlotOf(d, p)) = p
                         /\ SlotOf(d, p) \in 0..(NumSlots(d) - 1)

One(n) == [a \in 1..n |-> 1]
Desc(fmt, sh, ch, shd, sep, enc) ==
    [fmt |-> fmt, shape |-> sh, chunks |-> ch, shards |-> shd, fill |-> 0, sep |-> sep, enc |-> enc,
     scale |-> One(Len(sh))]
Plain == {Desc("n5", <<3>>, <<2>>, <<>>, "/", ""), Desc("n5", <<2, 3>>, <<1, 2>>, <<>>, "/", ""),
          Desc("zarr2", <<3>>, <<2>>, <<>>, ".", ""), Desc("zarr2", <<2, 3>>, <<2, 2>>, <<>>, "/", ""),
          Desc("zarr3", <<3>>, <<2>>, <<>>, "/", "default"), Desc("zarr3", <<2, 2>>, <<1, 2>>, <<>>, ".", "v2")}
Shards == {Desc("zarr3", <<5>>, <<2>>, <<4>>, "/", "default"), Desc("zarr3", <<2, 2>>, <<1, 1>>, <<2, 2>>, "/", "default"),
           Desc("zarr3", <<2, 3>>, <<1, 1>>, <<2, 2>>, ".", "v2")}
MoreShards == Shards \cup {Desc("zarr3", <<3, 3>>, <<2, 1>>, <<4, 2>>, "/", "default"),
                           Desc("zarr3", <<2, 2, 2>>, <<1, 1, 2>>, <<2, 2, 2>>, ".", "v2"),
                           Desc("zarr3", <<1, 4>>, <<1, 1>>, <<1, 3>>, "/", "default")}
QuickSet == Plain \cup Shards
ThoroughSet == Plain \cup MoreShards
=============================================================================
