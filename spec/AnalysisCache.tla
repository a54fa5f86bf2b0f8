--------------------------- MODULE AnalysisCache ----------------------------
(***************************************************************************)
(* A signal and its cached analyses.  Samples are symbolic: a channel is a *)
(* sum of terms <<source id, divisor>>.  The state has the settings that   *)
(* determine every analysis and, per analysis, the cached value together   *)
(* with its validity flag; a cached value is the projection of the         *)
(* settings it was computed from.  Coherence: a valid cache entry equals   *)
(* the projection of the current settings, so a read answers what a newly  *)
(* built signal with these settings answers.  "alt" is a second, derived   *)
(* or original signal which must not be affected by edits of the first.    *)
(***************************************************************************)
EXTENDS Base

Sources == 1..5
SrcLen(s) == IF s <= 3 THEN 37 ELSE 46
Peak(s) == IF s \in {2, 4} THEN 2 ELSE 1          \* source 2 and 4 exceed full scale

NoCache == [v |-> FALSE, val |-> <<>>]
Fresh(s) == [spec |-> NoCache, csm |-> NoCache, gram |-> NoCache, tv |-> NoCache]

Chan(s) == << <<s, 1>> >>

Plain(i) == [cls |-> i.cls, ch |-> [k \in 1..Len(i.src) |-> Chan(i.src[k])],
             len |-> SrcLen(i.src[1]), fs |-> 1,
             sp |-> [m |-> i.m, sc |-> 5, sm |-> 0, var |-> 0],
             sg |-> 0, win |-> 0, cache |-> i.cache]

ACInit(i) == [s |-> Plain(i), c |-> Fresh(0), alt |-> [has |-> FALSE], t |-> 0]

(* ---- what each analysis is a function of ---- *)
Proj(kind, s) ==
    CASE kind = "spec" -> [cls |-> s.cls, ch |-> s.ch, len |-> s.len, fs |-> s.fs, sp |-> s.sp, win |-> s.win]
      [] kind = "csm" -> [cls |-> s.cls, ch |-> s.ch, len |-> s.len, fs |-> s.fs, sp |-> s.sp, win |-> s.win]
      [] kind = "gram" -> [cls |-> s.cls, ch |-> s.ch, len |-> s.len, fs |-> s.fs, sg |-> s.sg]
      [] kind = "tv" -> [len |-> s.len, fs |-> s.fs]

(* ---- reads through the cache ---- *)
ReadOne(st, kind, force) ==
    LET e == st.c[kind]
        hit == e.v /\ ~force /\ (st.s.cache \/ kind = "tv")
        val == IF hit THEN e.val ELSE Proj(kind, st.s)
        c2 == IF hit \/ ~(st.s.cache \/ kind = "tv") THEN st.c
              ELSE [st.c EXCEPT ![kind] = [v |-> TRUE, val |-> val]]
    IN  [st |-> [st EXCEPT !.c = c2], out |-> val]

Drop(c, kinds) == [k \in DOMAIN c |-> IF k \in kinds THEN NoCache ELSE c[k]]
AllKinds == {"spec", "csm", "gram", "tv"}

Edit(st, s2) == [st EXCEPT !.s = s2, !.c = Drop(st.c, AllKinds)]

PeakOf(ch) == LET p == {  Peak(ch[k][1][1]) \div ch[k][1][2] : k \in 1..Len(ch) }
              IN  IF 2 \in p THEN 2 ELSE 1
NoSums(ch) == \A k \in 1..Len(ch) : Len(ch[k]) = 1
Scale(ch, m) == [k \in 1..Len(ch) |-> << <<ch[k][1][1], ch[k][1][2] * m>> >>]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

(* a signal made from channels of another one *)
Derived(st, ch) ==
    [st EXCEPT !.alt = [has |-> TRUE, s |-> st.s, c |-> st.c],
               !.s = [st.s EXCEPT !.ch = ch, !.win = 0,
                                  !.sp.m = IF st.s.cls = "ir" THEN 2 ELSE @],
               !.c = Fresh(0)]

Done(s) == [st |-> s, out |-> "done"]

(* a new settings record drops the caches only if something changed, exactly
   what a mechanism may do; coherence must hold either way *)
NewSp(st, sp) == [st EXCEPT !.s.sp = sp,
                            !.c = IF sp = st.s.sp THEN st.c ELSE Drop(st.c, {"spec", "csm"})]
NewSg(st, v) == [st EXCEPT !.s.sg = v,
                           !.c = IF v = st.s.sg THEN st.c ELSE Drop(st.c, {"gram"})]

RECURSIVE ReadAll(_, _, _)
ReadAll(st, kinds, force) ==
    IF kinds = <<>> THEN [st |-> st, out |-> <<>>]
    ELSE LET r == IF Head(kinds) = "csm" /\ Len(st.s.ch) < 2
                  THEN [st |-> st, out |-> "none"]
                  ELSE ReadOne(st, Head(kinds), force)
             q == ReadAll(r.st, Tail(kinds), force)
         IN  [st |-> q.st, out |-> <<r.out>> \o q.out]

Step0(st, ev) ==
    CASE ev.op = "read" ->
           LET r == ReadAll(st, ev.kinds, ev.force)
           IN  [st |-> r.st, out |-> [kinds |-> ev.kinds, vals |-> r.out,
                 meta |-> <<Len(r.st.s.ch), r.st.s.len, r.st.s.fs, r.st.s.sp.m, r.st.s.sp.sc, r.st.s.sp.sm>>]]
      [] ev.op = "use" -> Done(st)               \* plots and other readers
      [] ev.op = "reject" -> [st |-> st, out |-> "rejected"]
      [] ev.op = "data" ->
           Done(Edit(st, [st.s EXCEPT !.ch = [k \in 1..Len(ev.src) |-> Chan(ev.src[k])],
                                      !.len = SrcLen(ev.src[1]), !.win = 0]))
      [] ev.op = "add" -> Done(Edit(st, [st.s EXCEPT !.ch = Append(@, Chan(ev.one)), !.win = 0]))
      [] ev.op = "remove" ->
           Done(Edit(st, [st.s EXCEPT !.ch = SubSeq(@, 1, ev.k - 1) \o SubSeq(@, ev.k + 1, Len(@)), !.win = 0]))
      [] ev.op = "swap" -> Done(Edit(st, [st.s EXCEPT !.ch = [k \in 1..Len(@) |-> @[ev.p[k]]], !.win = 0]))
      [] ev.op = "constrain" ->                  \* amplitude limiting switched on and off again
           Done(Edit(st, [st.s EXCEPT !.ch = Scale(@, PeakOf(@)), !.win = 0]))
      [] ev.op = "fs" -> Done(Edit(st, [st.s EXCEPT !.fs = ev.v]))
      [] ev.op = "cache" -> Done([st EXCEPT !.s.cache = ev.on])
      [] ev.op = "sp" -> Done(NewSp(st, [m |-> ev.m, sc |-> ev.sc, sm |-> ev.sm, var |-> ev.var]))
      [] ev.op = "method" -> Done(NewSp(st, [st.s.sp EXCEPT !.m = ev.v]))
      [] ev.op = "scaling" -> Done(NewSp(st, [st.s.sp EXCEPT !.sc = ev.v]))
      [] ev.op = "smoothing" -> Done(NewSp(st, [st.s.sp EXCEPT !.sm = ev.v]))
      [] ev.op = "sg" -> Done(NewSg(st, ev.v))
      [] ev.op = "window" -> Done(Edit(st, [st.s EXCEPT !.win = ev.v]))
      [] ev.op = "copy" -> Done([st EXCEPT !.alt = [has |-> TRUE, s |-> st.s, c |-> st.c]])
      [] ev.op = "get" -> Done(Derived(st, [k \in 1..Len(ev.c) |-> st.s.ch[ev.c[k]]]))
      [] ev.op = "sum" -> Done(Derived(st, << Concat(st.s.ch) >>))
      [] ev.op = "newdata" -> Done([Derived(st, [k \in 1..Len(ev.src) |-> Chan(ev.src[k])])
                                       EXCEPT !.s.len = SrcLen(ev.src[1])])
      [] ev.op = "other" ->                      \* continue with the other signal
           Done([st EXCEPT !.s = st.alt.s, !.c = st.alt.c, !.alt = [has |-> TRUE, s |-> st.s, c |-> st.c]])

ACStep(st, ev) == LET r == Step0(st, ev) IN [st |-> [r.st EXCEPT !.t = @ + 1], out |-> r.out]

ACMatch(out, ob) == TRUE       \* compared in the harness (real-valued analyses)

CoherentOne(s, c) == \A k \in AllKinds : c[k].v => c[k].val = Proj(k, s)
ACInv(st) == /\ CoherentOne(st.s, st.c)
             /\ (st.alt.has => CoherentOne(st.alt.s, st.alt.c))

(* ------------------------------ behaviours ------------------------------ *)
ReadEv(kinds, f) == [op |-> "read", kinds |-> kinds, force |-> f]
ReadAllEv == ReadEv(<<"spec", "csm", "gram", "tv">>, FALSE)

Rejects == {"fs_float", "method_str", "scaling_int", "smoothing_neg", "data_3d", "remove_far",
            "swap_repeat", "swap_short", "add_fs", "window_shape", "constrain_int"}
Plots == {"magnitude", "magnitude_norm", "phase", "group_delay", "spl", "spectrogram", "time", "bode",
          "plot_csm", "info", "save"}

Swaps(n) == CASE n = 1 -> {<<1>>} [] n = 2 -> {<<2, 1>>} [] n = 3 -> {<<2, 3, 1>>, <<1, 3, 2>>} [] OTHER -> {}

Edits(st) ==
    LET n == Len(st.s.ch)
        ir == st.s.cls = "ir"
    IN
    { [op |-> "data", src |-> x] : x \in { <<1>>, <<2, 3>>, <<4, 5>> } }
    \cup (IF n < 3 THEN { [op |-> "add", one |-> x] : x \in {3, 4} } ELSE {})
    \cup (IF n > 1 THEN { [op |-> "remove", k |-> x] : x \in {1, n} } ELSE {})
    \cup { [op |-> "swap", p |-> p] : p \in Swaps(n) }
    \cup (IF NoSums(st.s.ch) THEN { [op |-> "constrain"] } ELSE {})
    \cup { [op |-> "fs", v |-> x] : x \in {1, 2} }
    \cup { [op |-> "cache", on |-> x] : x \in BOOLEAN }
    \cup { [op |-> "method", v |-> x] : x \in {1, 2} }
    \cup { [op |-> "scaling", v |-> x] : x \in {1, 4, 6} }
    \cup { [op |-> "smoothing", v |-> x] : x \in {0, 3} }
    \cup { [op |-> "sp", m |-> m, sc |-> 5, sm |-> 0, var |-> v] : m \in {1, 2}, v \in {0, 1, 3, 6} }
    \cup { [op |-> "sp", m |-> 1, sc |-> 2, sm |-> 0, var |-> v] : v \in {2, 4, 5} }
    \cup { [op |-> "sp", m |-> 2, sc |-> 3, sm |-> 6, var |-> 0] }
    \cup { [op |-> "sg", v |-> x] : x \in 0..7 }
    \cup (IF ir THEN { [op |-> "window", v |-> x] : x \in 0..2 } ELSE {})
    \cup { [op |-> "copy"], [op |-> "get", c |-> <<n>>], [op |-> "get", c |-> [k \in 1..n |-> n + 1 - k]],
           [op |-> "sum"], [op |-> "newdata", src |-> <<5, 1>>] }
    \cup (IF st.alt.has THEN { [op |-> "other"] } ELSE {})

Others(st) ==
    { [op |-> "use", what |-> p] : p \in
         {q \in Plots : /\ (q = "bode" => st.s.cls = "ir")
                        /\ (q = "phase" => st.s.sp.m = 2)
                        /\ (q = "plot_csm" => Len(st.s.ch) = 2)} }
    \cup { [op |-> "reject", what |-> r] : r \in
         {q \in Rejects : /\ (q = "window_shape" => st.s.cls = "ir")
                          /\ (q = "swap_repeat" => Len(st.s.ch) > 1)} }
    \cup { ReadEv(<<k>>, f) : k \in {"spec", "gram"}, f \in BOOLEAN }
    \cup (IF Len(st.s.ch) > 1 THEN { ReadEv(<<"csm">>, f) : f \in BOOLEAN } ELSE {})

ACStarts == { [cls |-> c, src |-> s, m |-> m, cache |-> TRUE] :
                 c \in {"sig", "ir"}, s \in {<<1, 2>>}, m \in {1, 2} }

(* read everything; two arbitrary steps; read everything *)
ACEvents(st) ==
    CASE st.t \in {0, 3} -> { ReadAllEv }
      [] st.t \in {1, 2} -> Edits(st) \cup Others(st)
      [] OTHER -> {}

(* free-running histories *)
ACFree(st) == IF st.t % 3 = 2 THEN { ReadAllEv }
              ELSE Edits(st) \cup (IF st.t % 7 = 3 THEN Others(st) ELSE {e \in Others(st) : e.op # "use"})
ACFreeStarts == { [cls |-> c, src |-> s, m |-> m, cache |-> k] :
                 c \in {"sig", "ir"}, s \in {<<1>>, <<1, 2>>, <<4, 5, 1>>}, m \in {1, 2}, k \in BOOLEAN }
=============================================================================
