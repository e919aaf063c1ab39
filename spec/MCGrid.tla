------------------------------- MODULE MCGrid -------------------------------
(* Exhaustive check of the grid geometry for every array shape, chunk shape  *)
(* and region within the bounds: the chunks partition the array, chunk       *)
(* numbers and positions map one to one, the chunks reported for a region    *)
(* are exactly those that intersect it and their overlaps tile the region.   *)
EXTENDS Z5Grid, TLC

CONSTANTS MaxDim, MaxExt, MaxChunk

Exts(n, m) == [1..n -> 1..m]
VARIABLES shape, chunks, off, shp
vars == <<shape, chunks, off, shp>>

Regions(s) == {r \in [1..Len(s) -> (0..MaxExt) \X (1..MaxExt)] :
                 \A d \in 1..Len(s) : r[d][1] + r[d][2] <= s[d]}

Init == \E n \in 1..MaxDim :
          /\ shape \in Exts(n, MaxExt) /\ chunks \in Exts(n, MaxChunk)
          /\ off = [d \in 1..n |-> 0] /\ shp = shape
Next == /\ off = [d \in 1..Len(shape) |-> 0] /\ shp = shape
        /\ \E r \in Regions(shape) : /\ off' = [d \in 1..Len(shape) |-> r[d][1]]
                                      /\ shp' = [d \in 1..Len(shape) |-> r[d][2]]
        /\ UNCHANGED <<shape, chunks>>
Spec == Init /\ [][Next]_vars

Elems == {Unlin(i, shape) : i \in 0..(Prod(shape) - 1)}
Ks == 0..(NumChunks(shape, chunks) - 1)
InChunk(c, p) == \A d \in 1..Len(c) : c[d] >= ChunkBegin(p, chunks)[d] /\ c[d] < ChunkEnd(p, shape, chunks)[d]

Bijection == \A k \in Ks : /\ ValidPos(ChunkPos(k, shape, chunks), shape, chunks)
                           /\ ChunkNum(ChunkPos(k, shape, chunks), shape, chunks) = k
LinBijection == \A i \in 0..(Prod(shape) - 1) : Lin(Unlin(i, shape), shape) = i
Partition == \A c \in Elems :
    /\ ValidPos(OwnerPos(c, chunks), shape, chunks)
    /\ {k \in Ks : InChunk(c, ChunkPos(k, shape, chunks))} = {ChunkNum(OwnerPos(c, chunks), shape, chunks)}
NonEmptyChunks == \A k \in Ks : Prod(ClippedShape(ChunkPos(k, shape, chunks), shape, chunks)) > 0
Ovl == Overlapping(off, shp, chunks)
OverlapExact ==
    /\ \A i, j \in 1..Len(Ovl) : i # j => Ovl[i] # Ovl[j]
    /\ {ChunkNum(Ovl[i], shape, chunks) : i \in 1..Len(Ovl)}
         = {k \in Ks : \E c \in Elems : InRegion(c, off, shp) /\ InChunk(c, ChunkPos(k, shape, chunks))}
OverlapTiles == \A i \in 1..Len(Ovl) :
    LET p == Ovl[i] b == OvlBegin(p, off, chunks) s == OvlShape(p, off, shp, shape, chunks)
    IN /\ {c \in Elems : InRegion(c, b, s)} = {c \in Elems : InRegion(c, off, shp) /\ InChunk(c, p)}
       /\ \A d \in 1..Len(p) : /\ BeginInRegion(p, off, chunks)[d] + off[d] = b[d]
                               /\ BeginInChunk(p, off, chunks)[d] + ChunkBegin(p, chunks)[d] = b[d]
       /\ Covers(p, off, shp, shape, chunks)
            <=> \A c \in Elems : InChunk(c, p) => InRegion(c, off, shp)
ValidIff == ValidRegion(off, shp, shape)
            /\ \A d \in 1..Len(shape) : ~ValidRegion([off EXCEPT ![d] = shape[d]], shp, shape)
=============================================================================
