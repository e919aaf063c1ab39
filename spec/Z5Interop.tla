----------------------------- MODULE Z5Interop ------------------------------
(* Datasets shared with other implementations of the formats.                *)
(*   foreign   a dataset another implementation has written appears; the     *)
(*             event carries what it holds (st, as in Z5Array) and how far   *)
(*             the library has to understand it:                             *)
(*               "must"   everything in it is required by the format         *)
(*               "may"    uses parts a reader may refuse, but not misread    *)
(*               "never"  no reader can know what it holds                   *)
(*   extread   another implementation reads the whole dataset                *)
EXTENDS Z5Faults

PostForeign(d, e, s) ==
    When(/\ Ok(e) /\ ~s.live /\ e.ext \in {"must", "may", "never"}
         /\ Len(e.st) = NumChunks(d.shape, d.chunks)
         /\ \A k \in 1..Len(e.st) :
               e.st[k].kind = "reg" => Len(e.st[k].x) = ChunkLen(d, ChunkPos(k - 1, d.shape, d.chunks)),
         [State0 EXCEPT !.st = e.st, !.live = TRUE, !.ext = e.ext])

\* what is stored is what every implementation of the format reads
PostExtRead(d, e, s) ==
    When(/\ Ok(e) /\ s.live /\ VarlenAt(s.st) = {}
         /\ e.data = ReadRegion(d, s.st, [a \in 1..Len(d.shape) |-> 0], d.shape), s)

PostI(d, e, s) ==
    CASE e.op = "foreign" -> PostForeign(d, e, s)
      [] e.op = "extread" -> PostExtRead(d, e, s)
      [] s.ext = "may"    -> IF Err(e) THEN When(Untouched(e), s) ELSE PostF(d, e, s)
      [] s.ext = "never"  -> When((Err(e) \/ e.op = "open") /\ Untouched(e), s)
      [] OTHER            -> PostF(d, e, s)
=============================================================================
