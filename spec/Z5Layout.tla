----------------------------- MODULE Z5Layout -------------------------------
(* The stored representation prescribed by the N5, Zarr v2 and Zarr v3       *)
(* specifications: names of storage objects, chunk headers, padding, shard   *)
(* index.  d is a dataset description (Z5Array) extended by                  *)
(*    sep    key separator ("." or "/"; N5 always "/")                       *)
(*    enc    Zarr v3 chunk key encoding "default" | "v2"                     *)
(*    scale  real elements per abstract cell and axis                        *)
EXTENDS Z5Array, TLC, SequencesExt

RECURSIVE JoinFrom(_, _, _)
JoinFrom(p, sep, i) ==
    IF i > Len(p) THEN ""
    ELSE (IF i = 1 THEN "" ELSE sep) \o ToString(p[i]) \o JoinFrom(p, sep, i + 1)

\* name of the storage object of position p (a chunk, or a shard if sharded)
KeyOf(d, p) ==
    IF d.fmt = "n5" THEN JoinFrom(Reverse(p), "/", 1)
    ELSE IF d.fmt = "zarr3" /\ d.enc = "default" THEN "c" \o d.sep \o JoinFrom(p, d.sep, 1)
    ELSE JoinFrom(p, d.sep, 1)

RealShape(d, s) == [a \in 1..Len(s) |-> s[a] * d.scale[a]]

\* one decoded chunk payload (rec.data: clipped contents in stored order,
\* rec.n: number of stored elements) is the representation of entry x of chunk p
PayloadOk(d, p, entry, rec) ==
    LET clip == RealShape(d, ClippedShape(p, d.shape, d.chunks))
        full == RealShape(d, d.chunks)
    IN IF entry.kind = "var"
       THEN /\ rec.mode = 1 /\ rec.n = Len(entry.x)
            /\ rec.dims = Reverse(clip) /\ rec.data = entry.x
       ELSE /\ rec.data = entry.x
            /\ IF d.fmt = "n5"
               THEN rec.mode = 0 /\ rec.dims = Reverse(clip) /\ rec.n = Prod(clip)
               ELSE rec.n = Prod(full)

\* shard file: data region, then one (offset, length) pair per slot in
\* row-major slot order, then the checksum of the index
NumSlots(d) == Prod(ChunksPerShard(d))
ShardFileOk(d, f) ==
    /\ f.crc
    /\ Len(f.slots) = NumSlots(d)
    /\ \A i \in 1..Len(f.slots) :
          ~f.slots[i].e => /\ f.slots[i].off >= 0 /\ f.slots[i].len > 0
                           /\ f.slots[i].off + f.slots[i].len <= f.size - (16 * NumSlots(d) + 4)
    /\ \A i, j \in 1..Len(f.slots) :
          (i < j /\ ~f.slots[i].e /\ ~f.slots[j].e) =>
              \/ f.slots[i].off + f.slots[i].len <= f.slots[j].off
              \/ f.slots[j].off + f.slots[j].len <= f.slots[i].off

\* chunk positions of shard sp in slot order; slots beyond the grid are unused
SlotPos(d, sp, slot) ==
    LET cps == ChunksPerShard(d)
        u   == Unlin(slot, cps)
    IN [a \in 1..Len(sp) |-> sp[a] * cps[a] + u[a]]

ShardContentsOk(d, store, sp, f) ==
    \A slot \in 0..(NumSlots(d) - 1) :
       LET p == SlotPos(d, sp, slot)
           e == ~f.slots[slot + 1].e
       IN IF ValidPos(p, d.shape, d.chunks)
          THEN LET ent == ChunkAt(d, store, p)
               IN /\ e <=> ent.kind # "none"
                  /\ e => PayloadOk(d, p, ent, f.recs[slot + 1])
          ELSE ~e

\* the set of storage objects and their contents represent the store:
\* nothing missing, nothing extra, everything in the prescribed form
DiskOk(d, store, files) ==
    LET objs == Objects(d, store)
        want == {KeyOf(d, p) : p \in objs}
    IN /\ Len(files) = Cardinality(objs)
       /\ {files[i].key : i \in 1..Len(files)} = want
       /\ \A i \in 1..Len(files) :
             /\ files[i].bad = ""
             /\ IF Sharded(d)
                THEN /\ ShardFileOk(d, files[i])
                     /\ ShardContentsOk(d, store, CHOOSE p \in objs : KeyOf(d, p) = files[i].key, files[i])
                ELSE LET p == CHOOSE q \in objs : KeyOf(d, q) = files[i].key
                     IN PayloadOk(d, p, ChunkAt(d, store, p), files[i].rec)

\* ------------------------------------------------------ metadata document
\* the name a format gives a codec
CodecId(d) ==
    CASE d.fmt = "zarr2" /\ d.codec = "bzip2" -> "bz2"
      [] OTHER -> d.codec

\* the name and value a format gives a codec option; "" = not stored
OptId(d, o) ==
    CASE d.codec = "blosc" ->
            (CASE o = "codec" -> "cname" [] o = "level" -> "clevel" [] OTHER -> o)
      [] d.codec \in {"gzip", "zlib"} ->
            (CASE o = "level" -> "level"
               [] OTHER -> "")       \* useZlib: see MetaDocOk
      [] d.codec = "bzip2" -> (IF d.fmt = "n5" THEN "blockSize" ELSE "level")
      [] d.codec = "xz" -> "preset"
      [] d.codec = "lz4" -> (IF d.fmt = "n5" THEN "blockSize" ELSE "acceleration")
      [] OTHER -> o
OptVal(d, o, v) ==
    IF d.fmt = "zarr3" /\ d.codec = "blosc" /\ o = "shuffle"
    THEN (CASE v = "0" -> "\"noshuffle\"" [] v = "1" -> "\"shuffle\"" [] OTHER -> "\"bitshuffle\"")
    ELSE v
OptNames(d) ==
    CASE d.codec = "blosc" -> {"cname", "clevel", "shuffle", "blocksize"}
                              \cup (IF d.fmt = "n5" THEN {"nthreads"} ELSE {})
                              \cup (IF d.fmt = "zarr3" THEN {"typesize"} ELSE {})
      [] d.codec \in {"gzip", "zlib"} -> {"level"} \cup (IF d.fmt = "n5" THEN {"useZlib"} ELSE {})
      [] d.codec = "raw" -> {}
      [] d.codec = "zstd" -> {"level"} \cup (IF d.fmt = "zarr3" THEN {"checksum"} ELSE {})
      [] OTHER -> {OptId(d, "level")}

SetOf(q) == {q[i] : i \in 1..Len(q)}

\* doc: the stored document, taken apart field by field by the recorder;
\* doc.odd names whatever in it has no place in the format
MetaDocOk(d, doc) ==
    /\ doc.odd = ""
    /\ doc.fmt = d.fmt
    /\ doc.shape = RealShape(d, d.shape)
    /\ doc.chunks = RealShape(d, d.chunks)
    /\ doc.shards = (IF Sharded(d) THEN RealShape(d, d.shards) ELSE <<>>)
    /\ doc.dtype = d.dtype
    /\ doc.codec = CodecId(d)
    /\ {x[1] : x \in SetOf(doc.opts)} \subseteq OptNames(d)
    /\ \A x \in SetOf(d.copts) :
          OptId(d, x[1]) # "" => <<OptId(d, x[1]), OptVal(d, x[1], x[2])>> \in SetOf(doc.opts)
    \* n5: zlib streams are announced, gzip streams are the default
    /\ (d.fmt = "n5" /\ d.codec = "gzip") =>
          ((<<"useZlib", "true">> \in SetOf(doc.opts)) <=> (<<"useZlib", "true">> \in SetOf(d.copts)))
    /\ d.fmt # "n5" => doc.fill = d.wfill /\ doc.sep = d.sep
    /\ d.fmt = "zarr3" => doc.enc = d.enc
=============================================================================
