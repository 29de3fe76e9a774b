----------------------------- MODULE PolyTrace -----------------------------
(***************************************************************************)
(* Trace specification: every recorded call of the real library must be a  *)
(* step of the abstract polygon decomposition.  Verdicts are total: each   *)
(* line yields the set of failed clauses; a history with a failed clause   *)
(* is abandoned up to its next "reset" so that the rest is still checked.  *)
(***************************************************************************)
EXTENDS PolyOps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP  == IOEnv.PROP

VARIABLES l,      \* next line
          prev,   \* last accepted observed state
          pF,     \* its faces
          hist,   \* undo history: number of recorded actions -> canonical state
          dead    \* this history has already failed
vars == <<l, prev, pF, hist, dead>>

NoFaces == Faces(<<>>, <<>>)
EmptySt == [pts |-> <<>>, segs |-> <<>>, wires |-> <<>>, polys |-> <<>>, outer |-> 0, off |-> 0]

Init == l = 1 /\ prev = EmptySt /\ pF = NoFaces /\ hist = <<>> /\ dead = TRUE

Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args,
                                           exc |-> e.exc, clauses |-> bad]))

(* clauses of the state alone *)
StateBad(st, F, P, S) ==
    CASE PROP = "P01" -> EmbeddingClauses(st, F, P, S)
      [] PROP = "P02" -> FaceClauses(st, F, P, S)
      [] PROP = "P03" -> NestingClauses(st, F, P, S)
      [] OTHER -> {}

Keep == UNCHANGED <<prev, pF, hist>>

Judge(e, st, P, S, F, h2, bad, illegal) ==
    IF illegal THEN dead' = TRUE /\ Keep ELSE
    /\ prev' = st /\ pF' = F /\ hist' = h2
    /\ IF bad = {} THEN dead' = FALSE
       ELSE Report(e, bad) /\ dead' = TRUE

(* \E x \in {v} binds a value: TLC re-evaluates LET definitions at each use *)
Consume(e, st) ==
  \E P \in {TLCEval(PtMap(st))}, S \in {TLCEval(SegMap(st))} :
    IF ~(IF e.op = "reset" THEN PlanarDrawing(P, S) ELSE PlanarStep(PtMap(prev), SegMap(prev), P, S))
    THEN (* a move the caller had to avoid is outside the contract: abandon the history *)
         /\ e.op = "move" \/ Report(e, {"planar"})
         /\ dead' = TRUE /\ Keep
    ELSE \E F \in {IF e.op # "reset" /\ P = PtMap(prev) /\ S = SegMap(prev) THEN pF ELSE TLCEval(Faces(P, S))} :
         \E h2 \in {IF PROP = "P08" THEN NextHist(hist, e, st, F) ELSE hist} :
         \E bad \in {StateBad(st, F, P, S)
                      \cup (IF e.op = "reset" THEN (IF PROP = "P04" THEN ChangeBad(st, F, e, st, F, P, S) ELSE {})
                            ELSE StepBad(PROP, prev, pF, e, st, F, P, S))
                      \cup (IF PROP = "P08" THEN HistBad(hist, e, st, F) ELSE {})} :
         Judge(e, st, P, S, F, h2, bad,
               e.op = "move" /\ (F.next # pF.next \/ F.inface # pF.inface \/ F.ptface # pF.ptface
                                 \/ F.pos # pF.pos))

Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ \E e \in {Trace[l]} :
     IF dead /\ e.op # "reset" THEN UNCHANGED <<prev, pF, hist, dead>>
     ELSE IF e.exc # "" THEN Report(e, {"exception"}) /\ dead' = TRUE /\ Keep
     ELSE IF ~WellFormed(e.st) THEN Report(e, {"wellformed"}) /\ dead' = TRUE /\ Keep
     ELSE Consume(e, e.st)

Next == Step
Spec == Init /\ [][Next]_vars
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
