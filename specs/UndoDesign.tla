----------------------------- MODULE UndoDesign -----------------------------
(***************************************************************************)
(* Model of the undo history (module UndoCore) with the document's past    *)
(* kept aside: what undo, redo and haschanged promise about the document.  *)
(***************************************************************************)
EXTENDS UndoCore, FiniteSets, Json

CONSTANTS Kinds, Depth, Groups, Switch,
          PRINT

VARIABLES m,      \* the machine
          past,   \* past[i] = document when the history had i-1 entries
          future, \* future[j] = document after redoing the j-th last undone entry
          sdoc,   \* document at the savepoint
          clean,  \* the document was changed through recorded actions only
          prog    \* the calls made so far (not in the VIEW): the behaviour to replay
vars == <<m, past, future, sdoc, clean, prog>>

Init == m = NewMachine /\ past = <<NewDoc>> /\ future = <<>> /\ sdoc = NewDoc /\ clean = TRUE /\ prog = <<>>


ActStep == \E kind \in Kinds, k \in 1..2 :
    LET v == m.n + 1 m2 == Act(m, kind, k, v)
        mid == [m.doc EXCEPT ![k] = v] IN
    /\ m' = m2
    /\ prog' = Append(prog, <<"act", kind, k, v>>)
    /\ IF m.open # <<>> \/ ~m.on \/ kind = "bad" THEN UNCHANGED <<past, future>>
       ELSE /\ past' = (IF kind = "nest" THEN past \o <<mid, m2.doc>> ELSE Append(past, m2.doc))
            /\ future' = <<>>
    /\ clean' = (clean /\ (m.on \/ m2.doc = m.doc))
    /\ sdoc' = sdoc
BeginStep == /\ Len(m.open) < Groups /\ m' = Begin(m, "group") /\ prog' = Append(prog, <<"begin">>)
             /\ UNCHANGED <<past, future, sdoc, clean>>
EndStep == \E raised \in BOOLEAN :
    /\ m.open # <<>> /\ m' = End(m, raised) /\ prog' = Append(prog, <<"end", IF raised THEN 1 ELSE 0>>)
    /\ IF Len(m'.undos) > Len(m.undos) THEN past' = Append(past, m'.doc) /\ future' = <<>>
       ELSE UNCHANGED <<past, future>>
    /\ UNCHANGED <<sdoc, clean>>
UndoStep ==
    /\ m.open = <<>> /\ m.undos # <<>> /\ m' = Undo(m) /\ prog' = Append(prog, <<"undo">>)
    /\ IF UndoRaises(m) THEN past' = <<m'.doc>> /\ future' = <<>>
       ELSE past' = Front(past) /\ future' = Append(future, Last(past))
    /\ clean' = (clean \/ UndoRaises(m)) /\ sdoc' = sdoc
RedoStep ==
    /\ m.open = <<>> /\ m.redos # <<>> /\ m' = Redo(m) /\ prog' = Append(prog, <<"redo">>)
    /\ IF RedoRaises(m) THEN past' = <<m'.doc>> /\ future' = <<>>
       ELSE past' = Append(past, Last(future)) /\ future' = Front(future)
    /\ clean' = (clean \/ RedoRaises(m)) /\ sdoc' = sdoc
ClearStep == /\ m.open = <<>> /\ m.undos \o m.redos # <<>> /\ m' = Clear(m) /\ prog' = Append(prog, <<"clear">>)
             /\ past' = <<m.doc>> /\ future' = <<>> /\ clean' = TRUE /\ sdoc' = sdoc
SaveStep == /\ m.open = <<>> /\ m.saved # Position(m) /\ m' = Savepoint(m) /\ sdoc' = m.doc /\ prog' = Append(prog, <<"savepoint">>)
            /\ UNCHANGED <<past, future, clean>>
SwitchStep == /\ Switch /\ m.open = <<>> /\ UNCHANGED <<past, future, sdoc, clean>>
              /\ \/ m.on /\ m' = Disable(m) /\ prog' = Append(prog, <<"disable">>)
                 \/ ~m.on /\ m' = Enable(m) /\ prog' = Append(prog, <<"enable">>)

Next == ActStep \/ BeginStep \/ EndStep \/ UndoStep \/ RedoStep \/ ClearStep \/ SaveStep \/ SwitchStep
Spec == Init /\ [][Next]_vars

Bound == TLCGet("level") <= Depth

---------------------------------------------------------------------------
(* The document is always the one the history position stands for. *)
DocMatches == (clean /\ m.open = <<>>) => m.doc = Last(past) /\ Len(past) = Len(m.undos) + 1
                                          /\ Len(future) = Len(m.redos)
(* Undo goes to the document before the last recorded step, redo forward. *)
UndoRestores == (clean /\ m.open = <<>> /\ m.undos # <<>> /\ ~UndoRaises(m))
                   => Undo(m).doc = past[Len(past) - 1]
RedoRestores == (clean /\ m.open = <<>> /\ m.redos # <<>> /\ ~RedoRaises(m))
                   => Redo(m).doc = Last(future)
(* "unchanged" is never claimed of a document that differs from the saved one *)
SavedTruth == (clean /\ m.open = <<>> /\ ~HasChanged(m)) => m.doc = sdoc
(* every entry of the history is executed once: identities are distinct *)
RECURSIVE Ids(_)
Ids(s) == IF s = <<>> THEN <<>> ELSE Append(Ids(Front(s)), Last(s).id) \o Ids(Last(s).items)
Distinct == LET all == Ids(m.undos) \o Ids(m.redos) IN Cardinality({all[i] : i \in DOMAIN all}) = Len(all)
View == <<m, past, future, sdoc, clean>>
Emit == PRINT => PrintT("@@T " \o ToJson(prog'))
=============================================================================
