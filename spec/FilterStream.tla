---------------------------- MODULE FilterStream ----------------------------
(***************************************************************************)
(* Offline filter objects (Filter, FilterBank) applied to a stream of      *)
(* blocks.  Abstract state: the filters (cascades of integer sections) and *)
(* for each filter the retained state per channel ("mem"; <<>> before the  *)
(* first use).  The property: whatever the partition into blocks, the      *)
(* selected channels and the interleaved stateless calls, the outputs are  *)
(* those of the difference equation running over the whole stream.         *)
(***************************************************************************)
EXTENDS LTI

FSInit(i) == [filters |-> i.filters, mem |-> [k \in 1..Len(i.filters) |-> <<>>]]

(* state a filter has when a stateful call with n channels arrives *)
Ready(secs, mem, n) ==
    IF Len(mem) = n THEN mem ELSE [c \in 1..n |-> Steady(secs)]

(* one filter, one block (a sequence of channels), channels sel (1-based set).
   Unselected channels pass through untouched and keep their state. *)
OneFilter(secs, mem, blk, sel, keep) ==
    LET n == Len(blk)
        h == IF keep THEN Ready(secs, mem, n) ELSE [c \in 1..n |-> FiltZero(secs)]
        r == [c \in 1..n |-> IF c \in sel THEN RunBlock(secs, h[c], blk[c])
                             ELSE [y |-> blk[c], h |-> h[c]]]
    IN  [y |-> [c \in 1..n |-> r[c].y],
         mem |-> IF keep THEN [c \in 1..n |-> r[c].h] ELSE mem]

RECURSIVE Chain(_, _, _, _)
Chain(fs, ms, blk, keep) ==
    IF fs = <<>> THEN [y |-> blk, mem |-> <<>>]
    ELSE LET r == OneFilter(Head(fs), Head(ms), blk, 1..Len(blk), keep)
             q == Chain(Tail(fs), Tail(ms), r.y, keep)
         IN  [y |-> q.y, mem |-> <<r.mem>> \o q.mem]

FSStep(st, ev) ==
    LET K == Len(st.filters) IN
    CASE ev.op = "init" ->
           [st |-> [st EXCEPT !.mem = [k \in 1..K |-> [c \in 1..ev.n |-> Steady(st.filters[k])]]],
            out |-> "done"]
      [] ev.op = "filter" ->
           LET r == OneFilter(st.filters[1], st.mem[1], ev.x, ToSet(ev.sel), ev.keep)
           IN  [st |-> [st EXCEPT !.mem[1] = r.mem], out |-> r.y]
      [] ev.op \in {"parallel", "multiband"} ->
           LET r == [k \in 1..K |->
                       LET b == IF ev.op = "parallel" THEN ev.x ELSE ev.x[k]
                       IN  OneFilter(st.filters[k], st.mem[k], b, 1..Len(b), ev.keep)]
           IN  [st |-> [st EXCEPT !.mem = [k \in 1..K |-> r[k].mem]],
                out |-> [k \in 1..K |-> r[k].y]]
      [] ev.op = "summed" ->
           LET r == [k \in 1..K |-> OneFilter(st.filters[k], st.mem[k], ev.x, 1..Len(ev.x), ev.keep)]
           IN  [st |-> [st EXCEPT !.mem = [k \in 1..K |-> r[k].mem]],
                out |-> [c \in 1..Len(ev.x) |-> AddSeqs([k \in 1..K |-> r[k].y[c]])]]
      [] ev.op = "sequential" ->
           LET r == Chain(st.filters, st.mem, ev.x, ev.keep)
           IN  [st |-> [st EXCEPT !.mem = r.mem], out |-> r.y]
      [] ev.op = "ir" ->      \* impulse response of the bank, never touches the state
           LET imp == <<[i \in 1..ev.len |-> IF i = 1 THEN 1 ELSE 0]>>
               each == [k \in 1..K |-> OneFilter(st.filters[k], <<>>, imp, {1}, FALSE).y]
           IN  [st |-> st,
                out |-> CASE ev.mode = "parallel" -> each
                          [] ev.mode = "summed" -> <<AddSeqs([k \in 1..K |-> each[k][1]])>>
                          [] ev.mode = "sequential" -> Chain(st.filters, st.mem, imp, FALSE).y]

FSMatch(out, ob) == Conforms(out, ob)

FSInv(st) ==
    \A k \in 1..Len(st.filters) : \A c \in 1..Len(st.mem[k]) :
        Len(st.mem[k][c]) = Len(st.filters[k])

(* --- small exhaustive model: behaviours handed to the real code --- *)
FIR1 == <<[b |-> <<1, -2>>, a |-> <<1>>]>>
FIR2 == <<[b |-> <<0, 1, 3>>, a |-> <<1>>]>>
IIR1 == <<[b |-> <<2, 4, 0>>, a |-> <<1, 1, 1>>]>>
SOS1 == <<[b |-> <<1, 1, 0>>, a |-> <<1, 0, 1>>]>>
SOS2 == <<[b |-> <<1, 0, 1>>, a |-> <<1, 1, 0>>], [b |-> <<2, 0, 1>>, a |-> <<1, 1, 1>>]>>
FSStarts == { [filters |-> <<f>>] : f \in {FIR1, FIR2, IIR1, SOS2} }
              \cup { [filters |-> <<FIR2, SOS2>>], [filters |-> <<SOS1, IIR1, FIR1>>] }
Blocks == { << <<1>> >>, << <<2, -1, 3>> >>,
            << <<1, 0>>, <<-3, 2>> >>, << <<5, 2, 0, 1>>, <<1, -4, 7, 2>> >> }
FSEvents(st) ==
    LET one == Len(st.filters) = 1 IN
    { [op |-> "init", n |-> 2] }
    \cup (IF one
          THEN { [op |-> "filter", x |-> b, sel |-> [i \in 1..Len(b) |-> i], keep |-> k]
                    : b \in Blocks, k \in BOOLEAN }
               \cup { [op |-> "filter", x |-> b, sel |-> <<2>>, keep |-> TRUE]
                    : b \in {c \in Blocks : Len(c) = 2} }
          ELSE { [op |-> o, x |-> b, keep |-> TRUE]
                    : o \in {"parallel", "summed", "sequential"}, b \in Blocks }
               \cup { [op |-> "multiband", x |-> [k \in 1..Len(st.filters) |-> b], keep |-> TRUE]
                    : b \in {c \in Blocks : Len(c) = 2} }
               \cup { [op |-> "ir", mode |-> m, len |-> 4] : m \in {"parallel", "summed", "sequential"} })
=============================================================================
