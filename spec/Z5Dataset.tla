----------------------------- MODULE Z5Dataset ------------------------------
(* The operations of a dataset as relations between an event (what was       *)
(* requested and what the library answered) and the states before and after. *)
(* Post(d, e, s) is the set of states the dataset may be in after event e    *)
(* was observed in state s; empty = no behaviour of the specification has    *)
(* this event here.  A state is [st |-> store, live |-> BOOLEAN].            *)
EXTENDS Z5Layout

Has(e, f) == f \in DOMAIN e
\* cd, od: damaged chunks and shards (Z5Faults); ext: who wrote it (Z5Interop)
State0 == [st |-> <<>>, live |-> FALSE, cd |-> {}, od |-> {}, ext |-> "own"]

\* an event that left storage untouched (when the recorder hashed the tree)
Untouched(e) == Has(e, "h0") => e.h0 = e.h1
GuardOk(e) == Has(e, "guard") => e.guard

Ok(e) == e.res = "ok"
Err(e) == e.res = "err"

\* refused: an error, nothing changed
Refuse(e, s) == IF Err(e) /\ Untouched(e) THEN {s} ELSE {}
When(c, s) == IF c THEN {s} ELSE {}
Becomes(s, store) == [s EXCEPT !.st = store]

PostWrite(d, e, s) ==
    IF ~WriteOk(d, s.st, e.off, e.shp) THEN Refuse(e, s)
    ELSE When(Ok(e) /\ GuardOk(e), Becomes(s, WriteRegion(d, s.st, e.off, e.shp, e.data)))

PostScalar(d, e, s) ==
    IF ~WriteOk(d, s.st, e.off, e.shp) THEN Refuse(e, s)
    ELSE When(Ok(e), Becomes(s, WriteScalarRegion(d, s.st, e.off, e.shp, e.v)))

PostRead(d, e, s) ==
    IF ~ReadOk(d, s.st, e.off, e.shp) THEN Refuse(e, s)
    ELSE When(/\ Ok(e) /\ GuardOk(e) /\ Untouched(e)
              /\ e.data = ReadRegion(d, s.st, e.off, e.shp), s)

PostWriteChunk(d, e, s) ==
    IF e.var
    THEN IF ~WriteVarlenOk(d, e.p) THEN Refuse(e, s)
         ELSE When(Ok(e), Becomes(s, WriteVarlen(d, s.st, e.p, e.data)))
    ELSE IF ~WriteChunkOk(d, e.p, e.data) THEN Refuse(e, s)
         ELSE When(Ok(e) /\ GuardOk(e), Becomes(s, WriteChunk(d, s.st, e.p, e.data)))

\* reading an absent chunk: the caller was told (none) or an error
PostReadChunk(d, e, s) ==
    IF ~ValidPos(e.p, d.shape, d.chunks)
    THEN When((Err(e) \/ (Ok(e) /\ e.none)) /\ Untouched(e), s)
    ELSE LET c == ChunkAt(d, s.st, e.p)
         IN IF c.kind = "none"
            THEN When((Err(e) \/ (Ok(e) /\ e.none)) /\ Untouched(e), s)
            ELSE When(/\ Ok(e) /\ ~e.none /\ Untouched(e) /\ GuardOk(e)
                      /\ e.var = (c.kind = "var") /\ e.data = c.x, s)

\* presence query: exact inside the grid, never TRUE outside
PostExists(d, e, s) ==
    IF ~ValidPos(e.p, d.shape, d.chunks)
    THEN When((Err(e) \/ (Ok(e) /\ ~e.val)) /\ Untouched(e), s)
    ELSE When(Ok(e) /\ Untouched(e) /\ e.val = (ChunkAt(d, s.st, e.p).kind # "none"), s)

PostRmChunk(d, e, s) ==
    IF ~ValidPos(e.p, d.shape, d.chunks)
    THEN When(Untouched(e), s)
    ELSE \* removing an absent chunk may be reported or ignored
         IF ChunkAt(d, s.st, e.p).kind = "none" THEN When(Untouched(e), s)
         ELSE When(Ok(e), Becomes(s, RemoveChunk(d, s.st, e.p)))

PostCInfo(d, e, s) ==
    LET clip == RealShape(d, ClippedShape(e.p, d.shape, d.chunks))
        c == ChunkAt(d, s.st, e.p)
    IN When(/\ Ok(e) /\ Untouched(e)
            /\ e.cshape = clip
            /\ Has(e, "cdims") =>
                  /\ e.cdims = clip /\ e.csize = Prod(clip)
                  /\ e.coff = RealShape(d, ChunkBegin(e.p, d.chunks))
                  /\ e.var = (c.kind = "var")
                  /\ e.vsize = (IF c.kind = "var" THEN Len(c.x) ELSE Prod(clip))
            /\ Has(e, "hshape") => e.hshape = clip, s)

PostKeyPath(d, e, s) ==
    LET p == IF Sharded(d) THEN ShardPos(d, e.p) ELSE e.p
    IN When(Ok(e) /\ e.key = KeyOf(d, p), s)

PostMeta(d, e, s) ==
    When(/\ Ok(e) /\ Untouched(e)
         /\ e.shape = RealShape(d, d.shape) /\ e.chunks = RealShape(d, d.chunks)
         /\ e.shards = (IF Sharded(d) THEN RealShape(d, d.shards) ELSE <<>>)
         /\ e.grid = GridShape(d.shape, d.chunks) /\ e.nchunks = NumChunks(d.shape, d.chunks)
         /\ e.size = Prod(RealShape(d, d.shape)) /\ e.csize = Prod(RealShape(d, d.chunks))
         /\ e.zarr = IsZarr(d) /\ e.sharded = Sharded(d) /\ e.dtype = d.dtype
         /\ SetOf(d.copts) \subseteq SetOf(e.opts), s)

\* the stored metadata document
PostMetaDoc(d, e, s) == When(Ok(e) /\ MetaDocOk(d, e.doc), s)

\* ------------------------------------------------------ parallel iteration
Flat(vis, f) == [i \in 1..Len(vis) |-> vis[i][f]]
ExactlyOnce(seq, set) == Len(seq) = Cardinality(set) /\ {seq[i] : i \in 1..Len(seq)} = set

\* blocks of shape bs over the array: begin and clipped shape of block p
BlockRec(d, bs, p) ==
    [b |-> ChunkBegin(p, bs), s |-> ClippedShape(p, d.shape, bs)]
AllPos(shape, bs) == {ChunkPos(k, shape, bs) : k \in 0..(NumChunks(shape, bs) - 1)}
RoiPos(lo, hi, bs) ==
    LET shp == [a \in 1..Len(lo) |-> hi[a] - lo[a]]
        o == Overlapping(lo, shp, bs)
    IN {o[i] : i \in 1..Len(o)}

\* scale is 1 for these traces
PostForeach(d, e, s) ==
    LET want == IF e.kind = "chunk" THEN {[p |-> q] : q \in AllPos(d.shape, d.chunks)}
                ELSE IF e.kind = "block" THEN {BlockRec(d, e.bs, q) : q \in AllPos(d.shape, e.bs)}
                ELSE IF e.kind = "chunkroi" THEN {[p |-> q] : q \in RoiPos(e.lo, e.hi, d.chunks)}
                ELSE {BlockRec(d, e.bs, q) : q \in RoiPos(e.lo, e.hi, e.bs)}
    IN When(/\ Ok(e) /\ ~e.overlap /\ Untouched(e)
            /\ e.maxt < (IF e.thr > 0 THEN e.thr ELSE 1024)
            /\ ExactlyOnce(e.vis, want), s)

\* -------------------------------------------------------------- utilities
\* number of elements of present chunks that have value v
RECURSIVE CountIn(_, _, _)
CountIn(x, v, i) == IF i > Len(x) THEN 0 ELSE (IF x[i] = v THEN 1 ELSE 0) + CountIn(x, v, i + 1)
RECURSIVE CountStore(_, _, _)
CountStore(st, v, k) ==
    IF k > Len(st) THEN 0
    ELSE (IF st[k].kind # "none" THEN CountIn(st[k].x, v, 1) ELSE 0) + CountStore(st, v, k + 1)
ValuesIn(st) == UNION {{st[k].x[i] : i \in 1..Len(st[k].x)} : k \in 1..Len(st)}

PostUnique(d, e, s) ==
    When(/\ Ok(e) /\ Untouched(e)
         /\ ExactlyOnce(e.vals, ValuesIn(s.st))
         /\ e.op = "counts" => \A i \in 1..Len(e.vals) : e.counts[i] = CountStore(s.st, e.vals[i], 1), s)

Trivial(x, spec, v) == (\A i \in 1..Len(x) : x[i] = x[1]) /\ (spec => x[1] = v)
PostTrivial(d, e, s) ==
    When(Ok(e), Becomes(s, [k \in 1..Len(s.st) |->
        IF s.st[k].kind # "none" /\ Trivial(s.st[k].x, e.specific, e.v) THEN None ELSE s.st[k]]))

PostRmDs(d, e, s) == When(Ok(e) /\ e.gone, State0)

PostDisk(d, e, s) == When(Ok(e) /\ DiskOk(d, s.st, e.files), s)

\* a grid of blocks by itself: numbering, extents, overlap with a region
PostGeo(d, e, s) ==
    LET NB == NumChunks(e.gs, e.bs)
        o == Overlapping(e.lo, e.shp, e.bs)
    IN When(/\ Ok(e) /\ e.same /\ e.n = NB /\ e.grid = GridShape(e.gs, e.bs) /\ Len(e.blocks) = NB
            /\ \A k \in 1..NB :
                 LET p == ChunkPos(k - 1, e.gs, e.bs) b == e.blocks[k]
                 IN /\ b.p = p /\ b.id = k - 1 /\ b.same /\ b.in
                    /\ b.b = ChunkBegin(p, e.bs) /\ b.s = ClippedShape(p, e.gs, e.bs) /\ b.e = ChunkEnd(p, e.gs, e.bs)
            /\ \A k \in 1..Len(e.el) : e.el[k].p = OwnerPos(e.el[k].c, e.bs)
            /\ Len(e.roi) = Len(o)
            /\ {e.roi[k].p : k \in 1..Len(o)} = SetOf(o)
            /\ \A k \in 1..Len(o) :
                 LET p == e.roi[k].p
                 IN /\ e.roi[k].r = BeginInRegion(p, e.lo, e.bs) /\ e.roi[k].c = BeginInChunk(p, e.lo, e.bs)
                    /\ e.roi[k].s = OvlShape(p, e.lo, e.shp, e.gs, e.bs)
                    /\ e.roi[k].full = Covers(p, e.lo, e.shp, e.gs, e.bs)
            /\ \A k \in 1..Len(e.out) : e.out[k].in = ValidPos(e.out[k].p, e.gs, e.bs), s)

\* ------------------------------------------------------------ dispatching
\* operations on single dataset objects; parallel phases are in Z5Par
PostRw(d, e, s) ==
    CASE e.op = "create"  -> When(Ok(e) /\ ~s.live, [State0 EXCEPT !.st = EmptyStore(d), !.live = TRUE])
      [] e.op = "open"    -> When(Ok(e) /\ s.live /\ Untouched(e), s)
      [] e.op = "write"   -> PostWrite(d, e, s)
      [] e.op = "scalar"  -> PostScalar(d, e, s)
      [] e.op = "read"    -> PostRead(d, e, s)
      [] e.op = "wchunk"  -> PostWriteChunk(d, e, s)
      [] e.op = "rchunk"  -> PostReadChunk(d, e, s)
      [] e.op = "rraw"    -> PostReadChunk(d, e, s)
      [] e.op = "exists"  -> PostExists(d, e, s)
      [] e.op = "rmchunk" -> PostRmChunk(d, e, s)
      [] e.op = "cinfo"   -> PostCInfo(d, e, s)
      [] e.op = "keypath" -> PostKeyPath(d, e, s)
      [] e.op = "meta"    -> PostMeta(d, e, s)
      [] e.op = "disk"    -> PostDisk(d, e, s)
      [] e.op = "metadoc" -> PostMetaDoc(d, e, s)
      [] e.op = "foreach" -> PostForeach(d, e, s)
      [] e.op \in {"unique", "counts"} -> PostUnique(d, e, s)
      [] e.op = "trivial" -> PostTrivial(d, e, s)
      [] e.op = "rmds"    -> PostRmDs(d, e, s)
      [] e.op = "geo" -> PostGeo(d, e, s)
      [] e.op = "wrongtype" -> Refuse(e, s)
      [] OTHER -> {}

\* a handle that was opened read-only refuses whatever would change the store
Mutators == {"write", "scalar", "wchunk", "rmchunk", "rmds", "trivial"}
ReadOnly(e) == Has(e, "ro") /\ e.ro
PostSeq(d, e, s) ==
    IF ReadOnly(e) /\ e.op \in Mutators THEN Refuse(e, s) ELSE PostRw(d, e, s)
=============================================================================
