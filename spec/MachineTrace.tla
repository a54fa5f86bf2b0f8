---------------------------- MODULE MachineTrace ----------------------------
(***************************************************************************)
(* Code -> specification.  Validates a batch of recorded executions of the *)
(* real code against a machine given by the operators                      *)
(*    MInit(init)      abstract state the recorded run starts from         *)
(*    MStep(st, ev)    record [st |-> next state, out |-> observation]     *)
(*    MMatch(out, ob)  is the recorded observation allowed?                *)
(*    MInv(st)         invariant of the abstract state                     *)
(* One TLC state per consumed event.  A rejected event is reported with    *)
(* the trace number, the event number and what the specification expected; *)
(* the rest of that trace is then dropped (its abstract state is unknown). *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS MInit(_), MStep(_, _), MMatch(_, _), MInv(_)

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, pos, st, ok

Init == /\ tr \in 1..Len(Traces)
        /\ pos = 1
        /\ st = MInit(Traces[tr].init)
        /\ ok = TRUE

Next == /\ ok
        /\ pos <= Len(Traces[tr].events)
        /\ LET ev == Traces[tr].events[pos]
               r  == MStep(st, ev)
           IN  IF MMatch(r.out, ev.obs)
               THEN st' = r.st /\ ok' = TRUE
               ELSE /\ PrintT("REJECT " \o ToJson([trace |-> tr, event |-> pos, expected |-> r.out]))
                    /\ st' = st /\ ok' = FALSE
        /\ pos' = pos + 1
        /\ UNCHANGED tr

Inv == MInv(st)
=============================================================================
