----------------------------- MODULE UndoTrace -----------------------------
(***************************************************************************)
(* Every recorded call on real undo stacks is a step of UndoCore.          *)
(* A line: h, op, args, exc, st (stack in use), obs, regs (its document)   *)
(*   obs: canundo canredo undocount redocount undotext redotext changed    *)
(*        done undone (callback counts since the history began)            *)
(***************************************************************************)
EXTENDS UndoCore, Json, IOUtils, Sequences

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP  == IOEnv.PROP
STACKS == 1..2

VARIABLES l, ms, cur, dead
vars == <<l, ms, cur, dead>>
Init == l = 1 /\ ms = [s \in STACKS |-> NewMachine] /\ cur = 1 /\ dead = TRUE

Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args,
                                           exc |-> e.exc, clauses |-> bad]))

NextM(m, e) ==
    CASE e.op = "act"   -> Act(m, e.args[1], e.args[2], e.args[3])
      [] e.op = "begin" -> Begin(m, e.args[1])
      [] e.op = "end"   -> End(m, e.args[1] = 1)
      [] e.op = "undo"  -> Undo(m)
      [] e.op = "redo"  -> Redo(m)
      [] e.op = "clear" -> Clear(m)
      [] e.op = "savepoint" -> Savepoint(m)
      [] e.op = "disable" -> Disable(m)
      [] e.op = "enable"  -> Enable(m)
      [] OTHER -> m

Raises(m, e) ==
    CASE e.op = "act"  -> e.args[1] = "bad"
      [] e.op = "undo" -> UndoRaises(m)
      [] e.op = "redo" -> RedoRaises(m)
      [] OTHER -> FALSE

(* U01: the document follows the linear history; U02: groups are one entry;   *)
(* U03: what is reported about the history                                    *)
Bad(m, e) ==
    LET o == e.obs IN
    IF PROP \in {"U01", "U02"}
    THEN   {c \in {"document"}  : e.regs # [i \in 1..3 |-> m.doc[i]]}
      \cup {c \in {"canundo"}   : (o.canundo = 1) # (m.undos # <<>>)}
      \cup {c \in {"canredo"}   : (o.canredo = 1) # (m.redos # <<>>)}
      \cup {c \in {"undocount"} : o.undocount # Len(m.undos)}
    ELSE   {c \in {"undocount"} : o.undocount # Len(m.undos)}
      \cup {c \in {"redocount"} : o.redocount # Len(m.redos)}
      \cup {c \in {"canundo"}   : (o.canundo = 1) # (m.undos # <<>>)}
      \cup {c \in {"canredo"}   : (o.canredo = 1) # (m.redos # <<>>)}
      \cup {c \in {"undotext"}  : o.undotext # (IF m.undos = <<>> THEN "none" ELSE Labelled("Undo", UndoText(m)))}
      \cup {c \in {"redotext"}  : o.redotext # (IF m.redos = <<>> THEN "none" ELSE Labelled("Redo", RedoText(m)))}
      \cup {c \in {"haschanged"}: (o.changed = 1) # HasChanged(m)}
      \cup {c \in {"docallback"}   : o.done # m.done}
      \cup {c \in {"undocallback"} : o.undone # m.undone}

ExcBad(m, e) ==
    IF Raises(m, e) THEN {c \in {"raise"} : e.exc # "Boom"}
    ELSE {c \in {"exception"} : e.exc # ""}

Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \E e \in {Trace[l]} :
     IF e.op = "reset"
     THEN ms' = [s \in STACKS |-> NewMachine] /\ cur' = 1 /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<ms, cur, dead>>
     ELSE IF e.op = "driver" THEN Report(e, {"exception"}) /\ dead' = TRUE /\ UNCHANGED <<ms, cur>>
     ELSE \E c2 \in {IF e.op = "switch" THEN e.args[1] ELSE cur} :
          \E m2 \in {TLCEval(NextM(ms[c2], e))} :
          \E bad \in {ExcBad(ms[c2], e) \cup Bad(m2, e)} :
          /\ cur' = c2 /\ ms' = [ms EXCEPT ![c2] = m2]
          /\ IF bad = {} THEN dead' = FALSE ELSE Report(e, bad) /\ dead' = TRUE

Spec == Init /\ [][Step]_vars
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
