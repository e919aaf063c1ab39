---------------------------- MODULE MCTreeFaults ----------------------------
(* MCTree with operations that end half way: the calls that make directories *)
(* and documents happen one after the other, and the process may end between *)
(* any two of them (documents are replaced as a whole).  What is left must   *)
(* be one of the outcomes that Z5TreeFaults allows, and whatever is done     *)
(* after it must again be what Z5Tree says.  Deletions leave an arbitrary    *)
(* part behind; nothing further is done to it (over).                        *)
EXTENDS MCTreeCfg, Z5TreeFaults

VARIABLE over
fvars == <<fmt, fs, ref, last, over>>

\* the directories that a creation at p makes, from the top down
Missing(p) == {q \in StrictPrefixes(p) : ~DirExists(q) \/ ~IsNode(q)}
Chain(p) == LET m == Missing(p) IN [i \in 1..(Cardinality(m) + 1) |->
              IF i > Cardinality(m) THEN p ELSE CHOOSE q \in m : Cardinality({r \in m : Len(r) < Len(q)}) = i - 1]
\* i of them complete, the next one (half) without its document
Part(p, docs, i, half) ==
    LET c == Chain(p)
        doc(q) == IF q = p THEN docs ELSE GroupDocs(FALSE)
        done == {c[j] : j \in 1..i}
        bare == IF half /\ i < Len(c) THEN {c[i + 1]} ELSE {}
    IN [q \in DOMAIN fs \cup done \cup bare |->
          IF q \in done THEN doc(q) ELSE IF q \in bare /\ q \notin DOMAIN fs THEN {} ELSE fs[q]]

IntPlace == ref.ex /\ \E p \in Paths, ds \in BOOLEAN, m \in Metas :
    LET o == [op |-> IF ds THEN "mkds" ELSE "mkgroup", mode |-> "a", path |-> p, m |-> m, v |-> 0, bad |-> FALSE]
    IN /\ PlaceOk(ref, "a", p)
       /\ \E i \in 0..Len(Chain(p)), half \in BOOLEAN :
            fs' = Part(p, IF ds THEN DsDocs(m) ELSE GroupDocs(FALSE), i, half)
       /\ last' = [op |-> "fault", in |-> o] /\ fmt' = fmt /\ over' = FALSE

IntAttr == ref.ex /\ \E p \in DOMAIN ref.n, key \in AKeys, v \in AVals, cut \in BOOLEAN :
    LET o == [op |-> "aset", mode |-> "a", path |-> p, items |-> <<<<key, v>>>>, bad |-> FALSE]
    IN /\ ~Protected(p, key)
       /\ \/ fs' = fs
          \* written in place, the document is lost with everything in it
          \/ "inplace" \in Bugs /\ fs' = With(fs, p, {e \in fs[p] : e[1] # AttrDoc})
          \/ fs' = With(fs, p, SetDoc(fs[p], {<<key, v>>}))
       /\ last' = [op |-> "fault", in |-> o] /\ fmt' = fmt /\ over' = FALSE

\* any entries and directories of the tree below p may be gone
IntDel == ref.ex /\ \E p \in Paths :
    /\ DelOk(ref, "a", p)
    /\ \E gone \in SUBSET {q \in DOMAIN fs : Pfx(p, q)}, bare \in SUBSET {q \in DOMAIN fs : Pfx(p, q)} :
         /\ \A q \in gone : \A r \in DOMAIN fs : Pfx(q, r) => r \in gone
         /\ fs' = [q \in DOMAIN fs \ gone |-> IF q \in bare THEN {} ELSE fs[q]]
    /\ last' = [op |-> "fault", in |-> [op |-> "del", mode |-> "a", path |-> p]]
    /\ fmt' = fmt /\ over' = TRUE

FInit == Init /\ over = FALSE
FNext == ~over /\ ((Next /\ over' = FALSE) \/ ((IntPlace \/ IntAttr \/ IntDel) /\ ref' = Abs'))
FSpec == FInit /\ [][FNext]_fvars
FView == <<fmt, fs, ref, over>>

FRefines == over \/ Abs = ref
Intact(p, s, x) == \A q \in DOMAIN s.n : ~Pfx(p, q) => q \in DOMAIN x.n /\ x.n[q] = s.n[q]
Outcomes ==
    [][ last'.op = "fault" =>
          IF last'.in.op = "del"
          THEN /\ Intact(last'.in.path, ref, ref')
               /\ \A q \in DOMAIN ref'.n : q \in DOMAIN ref.n \/ Pfx(last'.in.path, q)
          ELSE ref' \in Interrupted(D, last'.in, ref) ]_fvars
\* every listed name can be opened: what is no node is not listed
Listed(p) == {q \in DOMAIN fs : q # <<>> /\ Dir(q) = p /\ (IF "listdirs" \in Bugs \/ fmt = "n5" THEN TRUE ELSE LooksDs(fs[q]) \/ LooksGroup(fs[q]))}
Usable == over \/ ~ref.ex \/ \A p \in DOMAIN ref.n : ref.n[p].k = "g" => \A q \in Listed(p) : IsNode(q)
=============================================================================
