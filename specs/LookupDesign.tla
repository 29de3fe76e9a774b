---------------------------- MODULE LookupDesign ---------------------------
(* All ways of filling and emptying a small table of boxes / map of ids.   *)
(* The free list of the id map is a stack; the model checks that this      *)
(* strategy keeps ids unique and dense. Its transitions are replayed.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ids, Boxes, MaxLive, WHAT, PRINT
MCBoxes == {<<0, 0, 0, 0>>, <<1, 1, 3, 2>>, <<-1, 2, 2, 2>>, <<0, -1, 1, 3>>}
VARIABLES box, live, free, next, prog
View == <<box, live, free, next>>
Init == box = <<>> /\ live = {} /\ free = <<>> /\ next = 0 /\ prog = <<>>

Op(o) == prog' = Append(prog, o)
Add(i, b) == /\ box' = [j \in DOMAIN box \cup {i} |-> IF j = i THEN b ELSE box[j]]
             /\ Op(<<"add", i, b>>) /\ UNCHANGED <<live, free, next>>
Rm(i) == /\ i \in DOMAIN box /\ box' = [j \in DOMAIN box \ {i} |-> box[j]]
         /\ Op(<<"rm", i>>) /\ UNCHANGED <<live, free, next>>
New == /\ Cardinality(live) < MaxLive
       /\ IF free # <<>> THEN live' = live \cup {free[Len(free)]} /\ free' = SubSeq(free, 1, Len(free) - 1) /\ UNCHANGED next
                         ELSE live' = live \cup {next} /\ next' = next + 1 /\ UNCHANGED free
       /\ Op(<<"append">>) /\ UNCHANGED box
Del(i) == /\ live' = live \ {i} /\ free' = Append(free, i)
          /\ Op(<<"remove", i>>) /\ UNCHANGED <<box, next>>
Next == \/ WHAT = "boxes" /\ \E i \in Ids, b \in Boxes : Add(i, b)
        \/ WHAT = "boxes" /\ \E i \in Ids : Rm(i)
        \/ WHAT = "ids" /\ (New \/ \E i \in live : Del(i))
Spec == Init /\ [][Next]_<<box, live, free, next, prog>>
Emit == ~PRINT \/ PrintT("@@T " \o ToJson(prog'))
FreeElems == {free[k] : k \in DOMAIN free}
IdInv == /\ live \cap FreeElems = {} /\ live \cup FreeElems = 0..(next - 1)
         /\ Cardinality(FreeElems) = Len(free) /\ next <= MaxLive
=============================================================================
