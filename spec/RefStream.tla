----------------------------- MODULE RefStream ------------------------------
(***************************************************************************)
(* Stream processors with real-valued coefficients.  The reference is what *)
(* a fresh object answers to the whole stream in one call (fixed point,    *)
(* ref[output][channel][sample]).  Abstract state: how many samples of     *)
(* each channel have been consumed since the last reset.  Every block (or  *)
(* sample) must answer exactly the next slice of the reference, however    *)
(* the stream is cut and the channels are interleaved; a reset starts over.*)
(***************************************************************************)
EXTENDS Base

RSInit(i) == [ref |-> i.ref, pos |-> [c \in 1..Len(i.ref[1]) |-> 0]]

Slice(s, from, n) == SubSeq(s, from + 1, from + n)

RSStep(st, ev) ==
    CASE ev.op = "block" ->      \* n samples of all channels at once
           [st |-> [st EXCEPT !.pos = [c \in DOMAIN st.pos |-> st.pos[c] + ev.n]],
            out |-> [o \in 1..Len(st.ref) |-> [c \in 1..Len(st.ref[o]) |->
                        Slice(st.ref[o][c], st.pos[c], ev.n)]]]
      [] ev.op = "one" ->        \* n samples of a single channel
           [st |-> [st EXCEPT !.pos[ev.ch] = @ + ev.n],
            out |-> [o \in 1..Len(st.ref) |-> <<Slice(st.ref[o][ev.ch], st.pos[ev.ch], ev.n)>>]]
      [] ev.op = "reset" ->
           [st |-> [st EXCEPT !.pos = [c \in DOMAIN st.pos |-> 0]], out |-> "done"]
      [] ev.op = "other" ->      \* an operation that must not disturb the stream
           [st |-> st, out |-> "done"]

RSMatch(out, ob) ==
    IF ToString(ob) = ToString("done") \/ ToString(out) = ToString("done") \/ IsErr(ob)
    THEN Conforms(out, ob)
    ELSE Near3(out, ob, 2)

RSInv(st) == \A c \in DOMAIN st.pos : st.pos[c] >= 0
=============================================================================
