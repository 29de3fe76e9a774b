------------------------------ MODULE UndoCore ------------------------------
(***************************************************************************)
(* The undo stack of bgem/undo.py as a sequential machine.                 *)
(*                                                                         *)
(* The document is a function Key -> value.  An action of kind             *)
(*   "set"     sets a key; its inverse restores the value it overwrote     *)
(*   "bad"     raises before it changes anything                           *)
(*   "badundo" like set, raises when undone  (nothing restored)            *)
(*   "badredo" like set, raises when it is done again                      *)
(*   "via"     like set, but its inverse is carried out by another         *)
(*             undoable action, which must not be recorded                 *)
(*   "plain" "quiet" "alone" "pair"  like set; they give no text, a text    *)
(*             only (as such or as a tuple), or several results            *)
(*   "nest"    first does the undoable action set(k, v) -- recorded on its *)
(*             own, before this one -- and then sets the next key          *)
(* An entry of the history is an action or a group of entries.             *)
(*                                                                         *)
(* m (a machine): [doc, undos, redos, open, on, saved, n, done, undone]    *)
(*   open : stack of unfinished groups, <<[text, items]>>, innermost last  *)
(*   on   : is recording enabled                                           *)
(*   saved: <<>> no savepoint, or <<undo count, id of the topmost entry>>  *)
(*   n    : number of entries created so far (entry identity)              *)
(*   done, undone: number of calls of the two callbacks                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

KEYS == 1..3
Succ(k) == IF k = 3 THEN 1 ELSE k + 1
NewDoc == [k \in KEYS |-> 0]
NewMachine == [doc |-> NewDoc, undos |-> <<>>, redos |-> <<>>, open |-> <<>>, on |-> TRUE,
               saved |-> <<>>, n |-> 0, done |-> 0, undone |-> 0]

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

(* ---- what an entry does to a document; result [doc, ok, entry] -------- *)
Target(e) == IF e.kind = "nest" THEN Succ(e.k) ELSE e.k
RECURSIVE DoEntry(_, _), DoAll(_, _, _, _), UndoEntry(_, _), UndoAll(_, _, _)
DoEntry(d, e) ==
    IF e.kind = "group" THEN DoAll(d, e, 1, <<>>)
    ELSE IF e.kind = "badredo" THEN [doc |-> d, ok |-> FALSE, entry |-> e]
    ELSE LET d1 == IF e.kind = "nest" THEN [d EXCEPT ![e.k] = e.v] ELSE d
         IN [doc |-> [d1 EXCEPT ![Target(e)] = e.v], ok |-> TRUE,
             entry |-> [e EXCEPT !.old = d1[Target(e)]]]
DoAll(d, e, i, acc) ==
    IF i > Len(e.items) THEN [doc |-> d, ok |-> TRUE, entry |-> [e EXCEPT !.items = acc]]
    ELSE LET r == DoEntry(d, e.items[i]) IN
         IF r.ok THEN DoAll(r.doc, e, i + 1, Append(acc, r.entry))
         ELSE [doc |-> r.doc, ok |-> FALSE, entry |-> e]
UndoEntry(d, e) ==
    IF e.kind = "group" THEN UndoAll(d, e, Len(e.items))
    ELSE IF e.kind = "badundo" THEN [doc |-> d, ok |-> FALSE]
    ELSE [doc |-> [d EXCEPT ![Target(e)] = e.old], ok |-> TRUE]
UndoAll(d, e, i) ==
    IF i = 0 THEN [doc |-> d, ok |-> TRUE]
    ELSE LET r == UndoEntry(d, e.items[i]) IN
         IF r.ok THEN UndoAll(r.doc, e, i - 1) ELSE r

(* ---- recording -------------------------------------------------------- *)
Record(m, e) ==
    IF m.open # <<>>
    THEN [m EXCEPT !.open[Len(m.open)].items = Append(@, e)]
    ELSE IF m.on
    THEN [m EXCEPT !.undos = Append(@, e), !.redos = <<>>, !.done = @ + 1]
    ELSE m

Entry(m, kind, k, v, old) ==
    [id |-> m.n + 1, kind |-> kind, k |-> k, v |-> v, old |-> old, items |-> <<>>, text |-> IF kind = "plain" THEN "" ELSE kind]
Numbered(m) == [m EXCEPT !.n = @ + 1]

(* ---- the calls; every operator gives the next machine ------------------ *)
Act(m, kind, k, v) ==
    IF kind = "bad" THEN m                       \* raises; nothing recorded, nothing changed
    ELSE IF kind = "nest"
    THEN LET m1 == Numbered(Record([m EXCEPT !.doc[k] = v], Entry(m, "set", k, v, m.doc[k])))
             e  == Entry(m1, "nest", k, v, m1.doc[Succ(k)])
         IN Numbered(Record([m1 EXCEPT !.doc[Succ(k)] = v], e))
    ELSE Numbered(Record([m EXCEPT !.doc[k] = v], Entry(m, kind, k, v, m.doc[k])))

Begin(m, text) == [m EXCEPT !.open = Append(@, [text |-> text, items |-> <<>>])]

(* leaving a group: one entry in the enclosing group or on the stack; a     *)
(* group left by an exception keeps what was done in it, if anything        *)
End(m, raised) ==
    LET g == Last(m.open)
        e == [id |-> m.n + 1, kind |-> "group", k |-> 1, v |-> 0, old |-> 0, items |-> g.items,
              text |-> IF g.text = "many" THEN "many " \o ToString(Len(g.items)) ELSE g.text]
        m1 == [m EXCEPT !.open = Front(@)]
    IN IF raised /\ g.items = <<>> THEN m1 ELSE Numbered(Record(m1, e))

Cleared(m) == [m EXCEPT !.undos = <<>>, !.redos = <<>>, !.saved = <<>>, !.on = TRUE]

Undo(m) ==
    IF m.undos = <<>> THEN m
    ELSE LET e == Last(m.undos) r == UndoEntry(m.doc, e) IN
         IF r.ok THEN [m EXCEPT !.doc = r.doc, !.undos = Front(@), !.redos = Append(@, e), !.undone = @ + 1]
         ELSE Cleared([m EXCEPT !.doc = r.doc])
UndoRaises(m) == m.undos # <<>> /\ ~UndoEntry(m.doc, Last(m.undos)).ok

Redo(m) ==
    IF m.redos = <<>> THEN m
    ELSE LET e == Last(m.redos) r == DoEntry(m.doc, e) IN
         IF r.ok THEN [m EXCEPT !.doc = r.doc, !.redos = Front(@), !.undos = Append(@, r.entry), !.done = @ + 1]
         ELSE Cleared([m EXCEPT !.doc = r.doc])
RedoRaises(m) == m.redos # <<>> /\ ~DoEntry(m.doc, Last(m.redos)).ok

Clear(m) == Cleared(m)
Position(m) == <<Len(m.undos), IF m.undos = <<>> THEN 0 ELSE Last(m.undos).id>>
Savepoint(m) == [m EXCEPT !.saved = Position(m)]
HasChanged(m) == m.saved # Position(m)
Disable(m) == [m EXCEPT !.on = FALSE]
Enable(m)  == [m EXCEPT !.on = TRUE]

\* the text of a group may count its entries; an action may have no text
Labelled(what, text) == IF text = "" THEN what ELSE what \o " " \o text
UndoText(m) == IF m.undos = <<>> THEN "" ELSE Last(m.undos).text
RedoText(m) == IF m.redos = <<>> THEN "" ELSE Last(m.redos).text
=============================================================================
