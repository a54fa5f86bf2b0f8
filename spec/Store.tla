------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Objects of the library as values with identity: a store of slots and of *)
(* files.  A copy, a saved and a loaded object has the content of the      *)
(* original at that moment - settings (v), stream states (h, the samples   *)
(* each channel has been fed so far) - and no later change of the one is   *)
(* seen by the other.  Every event observes the content of all slots.      *)
(* init: [n slots, files, v: initial settings, dom: values per setting     *)
(*        (0..dom-1), clear: per setting those that setting it resets to 0,*)
(*        ch: stream channels, pre: ones a stream is preceded by (blocks   *)
(*        start from the steady state), secs: per output the sections b/a  *)
(*        in series]                                                       *)
(***************************************************************************)
EXTENDS Base

None == <<>>
SRInit(i) == [par |-> i,
              slot |-> [k \in 1..i.n |-> IF k = 1 THEN <<[v |-> i.v, h |-> [c \in 1..i.ch |-> Const(i.pre, 1)]]>> ELSE None],
              file |-> [k \in 1..i.files |-> None]]

(* output of one section for the whole history *)
RECURSIVE Sec(_, _, _, _)
Sec(s, x, y, n) ==
    IF n > Len(x) THEN y
    ELSE LET ff == SumTo([k \in 1..Len(s.b) |-> IF n - k + 1 >= 1 THEN s.b[k] * x[n - k + 1] ELSE 0], Len(s.b))
             fb == SumTo([k \in 1..(Len(s.a) - 1) |-> IF n - k >= 1 THEN s.a[k + 1] * y[n - k] ELSE 0], Len(s.a) - 1)
         IN  Sec(s, x, Append(y, ff - fb), n + 1)
RECURSIVE Series(_, _)
Series(ss, x) == IF ss = <<>> THEN x ELSE Series(Tail(ss), TLCEval(Sec(Head(ss), x, <<>>, 1)))
Feed(par, c, x) == [c EXCEPT !.h = [k \in 1..Len(x) |-> c.h[k] \o x[k]]]
(* the outputs for the last L samples, per output and channel *)
Out(par, c, L) == [o \in 1..Len(par.secs) |-> [k \in 1..Len(c.h) |->
                     LET y == Series(par.secs[o], c.h[k]) IN SubSeq(y, Len(y) - L + 1, Len(y))]]

Set(par, c, k, x) == [c EXCEPT !.v = [m \in 1..Len(c.v) |-> IF m = k THEN x
                                 ELSE IF m \in ToSet(par.clear[k]) THEN 0 ELSE c.v[m]]]

See(st) == [k \in 1..Len(st.slot) |-> IF st.slot[k] = None THEN <<-1>> ELSE st.slot[k][1].v]
Res(st, r) == [st |-> st, out |-> [res |-> r, slots |-> See(st)]]
Fail(st) == [st |-> st, out |-> [res |-> "refused", slots |-> See(st)]]

(* a PCM file holds full scale - 1 LSB at most; float files hold any value  *)
Sample(x, den, bits) ==
    LET full == 2^(bits - 1)
        v == x * (full \div den)
    IN  IF x >= den THEN <<full - 1, 1>> ELSE IF x <= -den THEN <<-full, 1>> ELSE <<v, 1>>
AudioOk(ev) == /\ \/ ev.fmt = "wav" /\ ev.bits \in {16, 24, 32, 64}
                  \/ ev.fmt = "flac" /\ ev.bits \in {16, 24}
               /\ ev.name # "other"
Audio(ev) == [c \in 1..Len(ev.x) |-> [i \in 1..Len(ev.x[c]) |->
                IF ev.bits >= 32 THEN <<ev.x[c][i] * (65536 \div ev.den), 1>> ELSE Sample(ev.x[c][i], ev.den, Min2(ev.bits, 20))]]

SRStep(st, ev) ==
    LET from == IF "i" \in DOMAIN ev THEN st.slot[ev.i] ELSE None
        put(j, c) == [st EXCEPT !.slot[j] = <<c>>]
    IN
    CASE ev.op = "copy" -> Res(put(ev.j, from[1]), "done")
      [] ev.op = "save" -> IF ev.name = "other" THEN Fail(st) ELSE Res([st EXCEPT !.file[ev.f] = from], "done")
      [] ev.op = "load" -> IF st.file[ev.f] = None THEN Fail(st) ELSE Res(put(ev.j, st.file[ev.f][1]), "done")
      [] ev.op = "set" -> Res(put(ev.i, Set(st.par, from[1], ev.k, ev.x)), "done")
      [] ev.op = "use" -> Res(st, "done")
      [] ev.op = "feed" -> LET c == Feed(st.par, from[1], ev.x) IN Res(put(ev.i, c), Out(st.par, c, Len(ev.x[1])))
      [] ev.op = "reset" -> Res(put(ev.i, [from[1] EXCEPT !.h = [k \in 1..Len(from[1].h) |-> Const(st.par.pre, 1)]]), "done")
      [] ev.op = "renew" -> Res(put(ev.j, Set(st.par, from[1], 1, ev.x)), "done")
      [] ev.op = "audio" -> IF AudioOk(ev) THEN [st |-> st, out |-> [audio |-> Audio(ev), fs |-> ev.fs]]
                            ELSE [st |-> st, out |-> [audio |-> "refused"]]

SRMatch(out, ob) ==
    IF "audio" \in DOMAIN out
    THEN /\ ~IsErr(ob)
         /\ IF "fs" \in DOMAIN out
            THEN /\ "fs" \in DOMAIN ob /\ ob.fs = out.fs /\ Len(ob.audio) = Len(out.audio)
                 /\ \A c \in 1..Len(out.audio) : /\ Len(ob.audio[c]) = Len(out.audio[c])
                      /\ \A i \in 1..Len(out.audio[c]) : Abs(ob.audio[c][i] - out.audio[c][i][1]) <= out.audio[c][i][2]
            ELSE Conforms(out, ob)
    ELSE Conforms(out, ob)

SRInv(st) ==
    /\ \A k \in 1..Len(st.slot) : st.slot[k] = None \/ Len(st.slot[k][1].v) = Len(st.par.v)
    /\ \A k \in 1..Len(st.file) : st.file[k] = None \/ Len(st.file[k][1].h) = st.par.ch

Live(st) == {k \in 1..Len(st.slot) : st.slot[k] # None}
Start(kind, impl, v, dom, ch, pre, secs) ==
    [kind |-> kind, impl |-> impl, n |-> 2, files |-> 1, v |-> v, dom |-> dom, clear |-> [k \in 1..Len(v) |-> <<>>],
     ch |-> ch, pre |-> pre, secs |-> secs]
SRStarts == {Start("rt", "fir", <<>>, <<>>, 1, 0, << << [b |-> <<1, 2, -1>>, a |-> <<1>>] >> >>),
             Start("rt", "iir", <<>>, <<>>, 1, 0, << << [b |-> <<1, 1>>, a |-> <<1, -1>>] >> >>),
             Start("filter", "ba", <<>>, <<>>, 1, 4, << << [b |-> <<2, 1, 3>>, a |-> <<1>>] >> >>),
             Start("bank", "bank", <<>>, <<>>, 1, 4, << << [b |-> <<1, 3>>, a |-> <<1>>] >>, << [b |-> <<0, 1, 1>>, a |-> <<1>>] >> >>),
             Start("signal", "signal", <<1, 0, 0, 0>>, <<3, 2, 2, 1>>, 0, 0, <<>>),
             Start("spec", "complex", <<1, 0>>, <<4, 2>>, 0, 0, <<>>),
             Start("mbs", "mbs", <<1, 2>>, <<4, 4>>, 0, 0, <<>>)}
SREvents(st) ==
    UNION {{[op |-> "copy", i |-> i, j |-> j] : j \in (1..st.par.n) \ {i}} : i \in Live(st)}
    \cup {[op |-> "save", i |-> i, f |-> 1, name |-> "bare"] : i \in Live(st)}
    \cup {[op |-> "load", f |-> 1, j |-> j] : j \in {2}}
    \cup (IF st.par.ch > 0
          THEN {[op |-> "feed", i |-> i, x |-> <<<<a>>>>] : i \in Live(st), a \in {1, -2}}
          ELSE UNION {{[op |-> "set", i |-> i, k |-> k, x |-> IF k = 1 THEN (st.slot[i][1].v[1] % (st.par.dom[1] - 1)) + 1 ELSE (st.slot[i][1].v[k] + 1) % st.par.dom[k]] :
                        k \in {m \in 1..Len(st.par.v) : st.par.dom[m] > 1}} : i \in Live(st)}
               \cup {[op |-> "use", i |-> i] : i \in {1}})
=============================================================================
