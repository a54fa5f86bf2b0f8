----------------------------- MODULE MachineGen -----------------------------
(***************************************************************************)
(* Specification -> code.  Explores the machine itself (model checking of  *)
(* MInv with VIEW = the abstract state) and emits its behaviours, with the *)
(* observation the specification demands after each event, for replay into *)
(* the real code.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MInit(_), MStep(_, _), MInv(_), MStarts, MEvents(_), MDepth

VARIABLES st, hist

Init == \E s \in MStarts : st = MInit(s) /\ hist = <<[init |-> s]>>

Next == /\ Len(hist) <= MDepth
        /\ \E ev \in MEvents(st) :
             LET r == MStep(st, ev)
             IN  /\ st' = r.st
                 /\ hist' = Append(hist, [ev |-> ev, out |-> r.out])

View == st

Inv == MInv(st)

Emit == (Len(hist) = MDepth + 1 \/ (Len(hist) > 1 /\ MEvents(st) = {}))
           => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
