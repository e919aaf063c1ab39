------------------------------ MODULE MCArray -------------------------------
(* Exhaustive check of the chunked store: refinement of a flat logical array *)
(* by a sparse store of chunks, for several tiny datasets at once.           *)
(*   arr   the logical array: coordinate -> last value written               *)
(*   store what the library keeps (Z5Array)                                  *)
EXTENDS Z5Array, TLC, Json

CONSTANTS Datasets, Vals, VarData, MaxArea, Edges

VARIABLES c, store, arr, last
vars == <<c, store, arr, last>>
D == Datasets[c]

Elems(d) == {Unlin(i, d.shape) : i \in 0..(Prod(d.shape) - 1)}
Regions(d) == {r \in [1..Len(d.shape) -> (0..8) \X (1..8)] :
                 \A a \in 1..Len(d.shape) : r[a][1] + r[a][2] <= d.shape[a]}
Off(r) == [a \in 1..Len(r) |-> r[a][1]]
Shp(r) == [a \in 1..Len(r) |-> r[a][2]]
Ks(d) == 0..(NumChunks(d.shape, d.chunks) - 1)
InChunk(e, p) == OwnerPos(e, D.chunks) = p

Init == /\ c \in DOMAIN Datasets
        /\ store = EmptyStore(Datasets[c])
        /\ arr = [e \in Elems(Datasets[c]) |-> Datasets[c].fill]
        /\ last = [op |-> "create"]

RegionOp ==
    \E r \in Regions(D) :
      /\ Prod(Shp(r)) <= MaxArea
      /\ WriteOk(D, store, Off(r), Shp(r))
      /\ \/ \E data \in [1..Prod(Shp(r)) -> Vals] :
              /\ store' = WriteRegion(D, store, Off(r), Shp(r), data)
              /\ arr' = [e \in Elems(D) |-> IF InRegion(e, Off(r), Shp(r))
                           THEN data[Lin([a \in 1..Len(e) |-> e[a] - Off(r)[a]], Shp(r)) + 1] ELSE arr[e]]
              /\ last' = [op |-> "write", off |-> Off(r), shp |-> Shp(r), data |-> data]
         \/ \E v \in Vals :
              /\ store' = WriteScalarRegion(D, store, Off(r), Shp(r), v)
              /\ arr' = [e \in Elems(D) |-> IF InRegion(e, Off(r), Shp(r)) THEN v ELSE arr[e]]
              /\ last' = [op |-> "scalar", off |-> Off(r), shp |-> Shp(r), v |-> v]

ChunkOp ==
    \E k \in Ks(D) :
      LET p == ChunkPos(k, D.shape, D.chunks) cs == ClippedShape(p, D.shape, D.chunks) IN
      \/ \E x \in [1..Prod(cs) -> Vals] :
           /\ WriteChunkOk(D, p, x)
           /\ store' = WriteChunk(D, store, p, x)
           /\ arr' = [e \in Elems(D) |-> IF InChunk(e, p)
                        THEN x[Lin([a \in 1..Len(e) |-> e[a] - ChunkBegin(p, D.chunks)[a]], cs) + 1] ELSE arr[e]]
           /\ last' = [op |-> "wchunk", p |-> p, data |-> x]
      \/ /\ store' = RemoveChunk(D, store, p)
         /\ arr' = [e \in Elems(D) |-> IF InChunk(e, p) THEN D.fill ELSE arr[e]]
         /\ last' = [op |-> "rmchunk", p |-> p]
      \/ \E x \in VarData :
           /\ WriteVarlenOk(D, p)
           /\ store' = WriteVarlen(D, store, p, x)
           \* region reads never see a variable-length chunk
           /\ arr' = [e \in Elems(D) |-> IF InChunk(e, p) THEN D.fill ELSE arr[e]]
           /\ last' = [op |-> "wchunk", p |-> p, var |-> TRUE, data |-> x]

Next == (RegionOp \/ ChunkOp) /\ c' = c
Spec == Init /\ [][Next]_vars
View == <<c, store, arr>>

\* ---------------------------------------------------------------- invariants
WellFormed == StoreOk(D, store) /\ Len(store) = NumChunks(D.shape, D.chunks)
\* C01: every readable region reads the logical array
Refines == \A r \in Regions(D) :
    ReadOk(D, store, Off(r), Shp(r)) =>
      LET x == ReadRegion(D, store, Off(r), Shp(r)) IN
      \A i \in 0..(Prod(Shp(r)) - 1) :
         LET u == Unlin(i, Shp(r)) IN x[i + 1] = arr[[a \in 1..Len(u) |-> Off(r)[a] + u[a]]]
\* C02: a regular chunk is present iff some element differs from the fill value
Sparse == \A k \in Ks(D) :
    store[k + 1].kind # "var" =>
      (k \in Present(store) <=> \E e \in Elems(D) : InChunk(e, ChunkPos(k, D.shape, D.chunks)) /\ arr[e] # D.fill)
\* a shard object exists iff one of its chunks is present
ShardObjects == Sharded(D) =>
    /\ Cardinality(Objects(D, store)) <= Cardinality(Present(store))
    /\ \A k \in Ks(D) : k \in Present(store) => ShardPos(D, ChunkPos(k, D.shape, D.chunks)) \in Objects(D, store)
    /\ \A o \in Objects(D, store) : \E k \in Present(store) : ShardPos(D, ChunkPos(k, D.shape, D.chunks)) = o
\* slots of one shard do not collide
SlotsDistinct == Sharded(D) => \A k, j \in Ks(D) :
    LET p == ChunkPos(k, D.shape, D.chunks) q == ChunkPos(j, D.shape, D.chunks)
    IN k # j => ShardPos(D, p) # ShardPos(D, q) \/ SlotOf(D, p) # SlotOf(D, q)
\* writing back what was read changes nothing
Idempotent == \A r \in Regions(D) :
    (ReadOk(D, store, Off(r), Shp(r)) /\ WriteOk(D, store, Off(r), Shp(r))) =>
       WriteRegion(D, store, Off(r), Shp(r), ReadRegion(D, store, Off(r), Shp(r))) = store

\* edges of the state graph, for replay into the implementation
PrintEdges == Edges => PrintT(<<"EDGE", ToJson([c |-> c, s |-> store, o |-> last', n |-> store'])>>)
=============================================================================
