------------------------------ MODULE Z5Array -------------------------------
(* One dataset: a sparse store of chunks, and the operations of the library  *)
(* on it.  The store is a tuple indexed by chunk number + 1; an entry is     *)
(*    [kind |-> "none"]                     chunk absent (reads as fill)     *)
(*    [kind |-> "reg", x |-> <<...>>]       regular chunk, the clipped       *)
(*                                          contents in row-major order      *)
(*    [kind |-> "var", x |-> <<...>>]       N5 variable-length chunk         *)
(* A dataset description is a record                                         *)
(*    [fmt |-> "n5"|"zarr2"|"zarr3", shape, chunks, shards, fill]            *)
(* Every operator below is written the way the code works: chunk by chunk,   *)
(* partially covered chunks by read-modify-write, all-fill chunks erased.    *)
EXTENDS Z5Grid

None == [kind |-> "none", x |-> <<>>]
Reg(x) == [kind |-> "reg", x |-> x]
Var(x) == [kind |-> "var", x |-> x]

IsZarr(d) == d.fmt # "n5"
Sharded(d) == d.shards # <<>>

EmptyStore(d) == [k \in 1..NumChunks(d.shape, d.chunks) |-> None]

\* store an encoded chunk: chunks that hold only the fill value are erased
Put(d, x) == IF \A i \in 1..Len(x) : x[i] = d.fill THEN None ELSE Reg(x)

\* contents of a chunk as an array (absent -> fill); not defined for varlen
Contents(d, store, k) ==
    IF store[k + 1].kind = "reg" THEN store[k + 1].x
    ELSE [i \in 1..Prod(ClippedShape(ChunkPos(k, d.shape, d.chunks), d.shape, d.chunks)) |-> d.fill]

Present(store) == {k \in 0..(Len(store) - 1) : store[k + 1].kind # "none"}
VarlenAt(store) == {k \in 0..(Len(store) - 1) : store[k + 1].kind = "var"}

\* ------------------------------------------------------------- one element
ElemAt(d, store, c) ==
    LET p == OwnerPos(c, d.chunks)
        k == ChunkNum(p, d.shape, d.chunks)
    IN IF store[k + 1].kind # "reg" THEN d.fill
       ELSE LET cs == ClippedShape(p, d.shape, d.chunks)
                l  == [a \in 1..Len(c) |-> c[a] - p[a] * d.chunks[a]]
            IN store[k + 1].x[Lin(l, cs) + 1]

\* ---------------------------------------------------------------- regions
RegionChunks(d, off, shp) ==
    LET ps == Overlapping(off, shp, d.chunks)
    IN {ChunkNum(ps[i], d.shape, d.chunks) : i \in 1..Len(ps)}

\* a region request is refused if it does not fit or meets a varlen chunk
\* (of a partially covered chunk for writes, of any chunk for reads)
ReadOk(d, store, off, shp) ==
    /\ ValidRegion(off, shp, d.shape)
    /\ RegionChunks(d, off, shp) \cap VarlenAt(store) = {}

ReadRegion(d, store, off, shp) ==
    LET st == Strides(shp)
    IN [i \in 1..Prod(shp) |->
          LET u == UnlinSt(i - 1, shp, st)
          IN ElemAt(d, store, [a \in 1..Len(off) |-> off[a] + u[a]])]

WriteOk(d, store, off, shp) ==
    /\ ValidRegion(off, shp, d.shape)
    /\ \A k \in RegionChunks(d, off, shp) \cap VarlenAt(store) :
          Covers(ChunkPos(k, d.shape, d.chunks), off, shp, d.shape, d.chunks)

\* new contents of chunk k after writing `val(i)` (i = 0-based index in the
\* request) into the region: read-modify-write of the chunk
Merged(d, store, k, off, shp, Val(_)) ==
    LET p   == ChunkPos(k, d.shape, d.chunks)
        cs  == ClippedShape(p, d.shape, d.chunks)
        old == Contents(d, store, k)
        cst == Strides(cs)
        rst == Strides(shp)
    IN [i \in 1..Prod(cs) |->
          LET u == UnlinSt(i - 1, cs, cst)
              c == [a \in 1..Len(off) |-> p[a] * d.chunks[a] + u[a]]
          IN IF InRegion(c, off, shp)
             THEN Val(DotFrom([a \in 1..Len(off) |-> c[a] - off[a]], rst, 1))
             ELSE old[i]]

WriteRegion(d, store, off, shp, data) ==
    LET touched == RegionChunks(d, off, shp)
        Val(i) == data[i + 1]
    IN [k \in 1..Len(store) |->
          IF (k - 1) \in touched THEN Put(d, Merged(d, store, k - 1, off, shp, Val))
          ELSE store[k]]

WriteScalarRegion(d, store, off, shp, v) ==
    LET touched == RegionChunks(d, off, shp)
        Val(i) == v
    IN [k \in 1..Len(store) |->
          IF (k - 1) \in touched THEN Put(d, Merged(d, store, k - 1, off, shp, Val))
          ELSE store[k]]

\* ------------------------------------------------------------ single chunks
ChunkLen(d, p) == Prod(ClippedShape(p, d.shape, d.chunks))

WriteChunkOk(d, p, x) == ValidPos(p, d.shape, d.chunks) /\ Len(x) = ChunkLen(d, p)
WriteChunk(d, store, p, x) ==
    [store EXCEPT ![ChunkNum(p, d.shape, d.chunks) + 1] = Put(d, x)]

\* variable-length chunks exist in N5 only; length 0 means "no chunk"
WriteVarlenOk(d, p) == ~IsZarr(d) /\ ValidPos(p, d.shape, d.chunks)
WriteVarlen(d, store, p, x) ==
    [store EXCEPT ![ChunkNum(p, d.shape, d.chunks) + 1] = IF x = <<>> THEN None ELSE Var(x)]

RemoveChunk(d, store, p) ==
    [store EXCEPT ![ChunkNum(p, d.shape, d.chunks) + 1] = None]

ChunkAt(d, store, p) == store[ChunkNum(p, d.shape, d.chunks) + 1]

\* ---------------------------------------------------------------- storage
\* storage objects (files): one per present chunk, or one per shard that
\* holds at least one present chunk
ChunksPerShard(d) == [a \in 1..Len(d.shape) |-> d.shards[a] \div d.chunks[a]]
ShardPos(d, p) == [a \in 1..Len(p) |-> p[a] \div ChunksPerShard(d)[a]]
SlotOf(d, p) ==
    LET cps == ChunksPerShard(d)
    IN Lin([a \in 1..Len(p) |-> p[a] % cps[a]], cps)
Objects(d, store) ==
    LET pos == {ChunkPos(k, d.shape, d.chunks) : k \in Present(store)}
    IN IF Sharded(d) THEN {ShardPos(d, p) : p \in pos} ELSE pos

\* every stored regular chunk holds some non-fill value and fits its slot
StoreOk(d, store) ==
    \A k \in 0..(Len(store) - 1) :
       store[k + 1].kind = "reg" =>
          /\ Len(store[k + 1].x) = ChunkLen(d, ChunkPos(k, d.shape, d.chunks))
          /\ \E i \in 1..Len(store[k + 1].x) : store[k + 1].x[i] # d.fill
=============================================================================
