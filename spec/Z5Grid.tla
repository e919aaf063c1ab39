------------------------------- MODULE Z5Grid -------------------------------
(* Geometry of an n-dimensional array that is cut into a regular grid of     *)
(* chunks: coordinates, row-major linear indices, clipped border chunks,     *)
(* region/chunk overlaps.  Coordinates are 0-based tuples, axis d of a tuple *)
(* c is c[d] (TLA+ tuples are 1-indexed over the axes).                      *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE ProdFrom(_, _)
ProdFrom(s, d) == IF d > Len(s) THEN 1 ELSE s[d] * ProdFrom(s, d + 1)
Prod(s) == ProdFrom(s, 1)

\* row-major (C order) strides of a box of shape s
Strides(s) == [d \in 1..Len(s) |-> ProdFrom(s, d + 1)]

RECURSIVE DotFrom(_, _, _)
DotFrom(a, b, d) == IF d > Len(a) THEN 0 ELSE a[d] * b[d] + DotFrom(a, b, d + 1)

\* coordinate -> linear index (0-based) and back
Lin(c, s) == DotFrom(c, Strides(s), 1)
UnlinSt(i, s, st) == [d \in 1..Len(s) |-> (i \div st[d]) % s[d]]
Unlin(i, s) == UnlinSt(i, s, Strides(s))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* ---------------------------------------------------------------- grid ---
\* number of chunks along every axis; the grid of chunk positions
GridShape(shape, chunks) ==
    [d \in 1..Len(shape) |-> (shape[d] + chunks[d] - 1) \div chunks[d]]
NumChunks(shape, chunks) == Prod(GridShape(shape, chunks))

ChunkPos(k, shape, chunks) == Unlin(k, GridShape(shape, chunks))
ChunkNum(p, shape, chunks) == Lin(p, GridShape(shape, chunks))
ValidPos(p, shape, chunks) ==
    /\ Len(p) = Len(shape)
    /\ \A d \in 1..Len(p) : p[d] >= 0 /\ p[d] < GridShape(shape, chunks)[d]

ChunkBegin(p, chunks) == [d \in 1..Len(p) |-> p[d] * chunks[d]]
ChunkEnd(p, shape, chunks) ==
    [d \in 1..Len(p) |-> Min2((p[d] + 1) * chunks[d], shape[d])]
\* extent of a chunk inside the array (border chunks are clipped)
ClippedShape(p, shape, chunks) ==
    [d \in 1..Len(p) |-> Min2((p[d] + 1) * chunks[d], shape[d]) - p[d] * chunks[d]]

\* the chunk that owns an element
OwnerPos(c, chunks) == [d \in 1..Len(c) |-> c[d] \div chunks[d]]

\* -------------------------------------------------------------- regions ---
ValidRegion(off, shp, shape) ==
    /\ Len(off) = Len(shape) /\ Len(shp) = Len(shape)
    /\ \A d \in 1..Len(shape) :
         /\ off[d] >= 0 /\ shp[d] > 0
         /\ off[d] <= shape[d] /\ shp[d] <= shape[d] - off[d]

InRegion(c, off, shp) == \A d \in 1..Len(c) : c[d] >= off[d] /\ c[d] < off[d] + shp[d]

\* positions of the chunks that intersect a region
FirstPos(off, chunks) == [d \in 1..Len(off) |-> off[d] \div chunks[d]]
LastPos(off, shp, chunks) == [d \in 1..Len(off) |-> (off[d] + shp[d] - 1) \div chunks[d]]
Overlapping(off, shp, chunks) ==
    LET lo == FirstPos(off, chunks)
        hi == LastPos(off, shp, chunks)
        n  == [d \in 1..Len(off) |-> hi[d] - lo[d] + 1]
        st == Strides(n)
    IN [i \in 1..Prod(n) |-> LET u == UnlinSt(i - 1, n, st)
                             IN [d \in 1..Len(off) |-> lo[d] + u[d]]]

\* overlap of chunk p with a region, in region coordinates / chunk coordinates
OvlBegin(p, off, chunks) == [d \in 1..Len(p) |-> Max2(p[d] * chunks[d], off[d])]
OvlEnd(p, off, shp, shape, chunks) ==
    [d \in 1..Len(p) |-> Min2(Min2((p[d] + 1) * chunks[d], shape[d]), off[d] + shp[d])]
OvlShape(p, off, shp, shape, chunks) ==
    LET b == OvlBegin(p, off, chunks)
        e == OvlEnd(p, off, shp, shape, chunks)
    IN [d \in 1..Len(p) |-> e[d] - b[d]]
BeginInRegion(p, off, chunks) ==
    [d \in 1..Len(p) |-> OvlBegin(p, off, chunks)[d] - off[d]]
BeginInChunk(p, off, chunks) ==
    [d \in 1..Len(p) |-> OvlBegin(p, off, chunks)[d] - p[d] * chunks[d]]
\* the region covers the whole (clipped) chunk
Covers(p, off, shp, shape, chunks) ==
    OvlShape(p, off, shp, shape, chunks) = ClippedShape(p, shape, chunks)
=============================================================================
