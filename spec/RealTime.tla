------------------------------ MODULE RealTime ------------------------------
(***************************************************************************)
(* Real-time (sample or block) filter structures.                          *)
(* Abstract state: the structure, and one independent memory per channel.  *)
(* Kinds (init.kind):                                                      *)
(*   lti    cascade of integer sections (IIR, FIR, state space, lattice,   *)
(*          partitioned / overlap-save convolution, chains of those);      *)
(*          one cascade per channel in init.secs, or a common one           *)
(*   tapped y = SUM c[i] * D^(i-1) x with D = (z^-1 - p/q)/(1 - p/q z^-1)   *)
(*          (warped FIR; p = 0 is a plain tapped delay line)                *)
(*   wiir   B(D)/A(D), the same D (warped IIR)                              *)
(*   svf    state variable filter with g = 1 and integer resonance r        *)
(*   ema    exponential averager with rise/fall coefficients over den       *)
(* init.sig says what whole-signal filtering does with the memory:          *)
(*   "fresh"  starts from zero memory and leaves the memory alone           *)
(*   "live"   runs on the memory (re-created when the channel count differs)*)
(***************************************************************************)
EXTENDS LTI

SecsFor(st, c) == IF st.perch THEN st.secs[c] ELSE st.secs

AP(p, q) == [b |-> <<-p, q>>, a |-> <<q, -p>>]
ChainSecs(n, p, q) == [i \in 1..n |-> AP(p, q)]

Fresh(st, c) ==
    CASE st.kind = "lti" -> FiltZero(SecsFor(st, c))
      [] st.kind = "tapped" -> FiltZero(ChainSecs(Len(st.c) - 1, st.p, st.q))
      [] st.kind = "wiir" -> FiltZero(ChainSecs(Max2(Len(st.b), Len(st.a)) - 1, st.p, st.q))
      [] st.kind = "svf" -> <<0, 0>>
      [] st.kind = "ema" -> <<0>>

RTInit(i) == LET s == [mem |-> <<>>] @@ i
             IN  [s EXCEPT !.mem = [c \in 1..i.n |-> Fresh(s, c)]]

(* all taps of the chain for input x: <<x, D x, D^2 x, ...>> and new memory *)
RECURSIVE Taps(_, _, _)
Taps(secs, h, x) ==
    IF secs = <<>> THEN [t |-> <<x>>, h |-> <<>>]
    ELSE LET r == SecSample(Head(secs), Head(h), x)
             q == Taps(Tail(secs), Tail(h), r.y)
         IN  [t |-> <<x>> \o q.t, h |-> <<r.h>> \o q.h]

Dot(c, t) == SumTo([i \in 1..Len(c) |-> c[i] * t[i]], Len(c))

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)

(* one sample through one channel's memory *)
OneSample(st, c, h, x) ==
    CASE st.kind = "lti" -> CasSample(SecsFor(st, c), h, x)
      [] st.kind = "tapped" ->
           LET r == Taps(ChainSecs(Len(st.c) - 1, st.p, st.q), h, x)
           IN  [y |-> Dot(st.c, r.t), h |-> r.h]
      [] st.kind = "wiir" ->
           \* solve SUM a[k] D^k w = x for w; D^k w[n] = rest[k] + (-p/q)^k w[n]
           LET m == Max2(Len(st.b), Len(st.a)) - 1
               ss == ChainSecs(m, st.p, st.q)
               a == Fit(st.a, m + 1)
               b == Fit(st.b, m + 1)
               rest == Taps(ss, h, 0).t
               num == (x - Dot(a, rest)) * Pow(st.q, m)
               den == SumTo([k \in 1..(m + 1) |-> a[k] * Pow(-st.p, k - 1) * Pow(st.q, m - k + 1)], m + 1)
               w == ExactZ(num, den)
               r == Taps(ss, h, w)
           IN  [y |-> Dot(b, r.t), h |-> r.h]
      [] st.kind = "svf" ->
           LET yh == ExactZ(x - (st.r + 1) * h[1] - h[2], 2 + st.r)
               yb == yh + h[1]
               yl == yb + h[2]
           IN  [y |-> <<yl, yh, yb, yl - st.r * yb + yh>>, h |-> <<yh + yb, yb + yl>>]
      [] st.kind = "ema" ->
           LET k == IF x > h[1] THEN st.inc ELSE st.dec
               y == ExactZ(x * k + (st.den - k) * h[1], st.den)
           IN  [y |-> y, h |-> <<y>>]

RECURSIVE Many(_, _, _, _)
Many(st, c, h, xs) ==
    IF xs = <<>> THEN [y |-> <<>>, h |-> h]
    ELSE LET r == OneSample(st, c, h, Head(xs))
             q == Many(st, c, r.h, Tail(xs))
         IN  [y |-> <<r.y>> \o q.y, h |-> q.h]

RTStep(st, ev) ==
    CASE ev.op = "run" ->        \* samples (or one block) of one channel, in order
           LET r == Many(st, ev.ch, st.mem[ev.ch], ev.x)
           IN  [st |-> [st EXCEPT !.mem[ev.ch] = r.h], out |-> r.y]
      [] ev.op = "all" ->        \* one block of every channel at once
           LET r == [c \in 1..st.n |-> Many(st, c, st.mem[c], ev.x[c])]
           IN  [st |-> [st EXCEPT !.mem = [c \in 1..st.n |-> r[c].h]],
                out |-> [c \in 1..st.n |-> r[c].y]]
      [] ev.op = "reset" ->
           [st |-> [st EXCEPT !.mem = [c \in 1..st.n |-> Fresh(st, c)]], out |-> "done"]
      [] ev.op = "channels" ->   \* (re)dimension: every memory starts at zero
           [st |-> [st EXCEPT !.n = ev.n, !.mem = [c \in 1..ev.n |-> Fresh(st, c)]],
            out |-> "done"]
      [] ev.op = "signal" ->     \* whole-signal filtering
           LET n == Len(ev.x)
               m == IF st.sig = "live" /\ n = st.n THEN st.mem ELSE [c \in 1..n |-> Fresh(st, c)]
               r == [c \in 1..n |-> Many(st, c, m[c], ev.x[c])]
           IN  [st |-> IF st.sig = "live"
                       THEN [st EXCEPT !.n = n, !.mem = [c \in 1..n |-> r[c].h]] ELSE st,
                out |-> [c \in 1..n |-> r[c].y]]

RTMatch(out, ob) == Conforms(out, ob)

RTInv(st) == Len(st.mem) = st.n

(* --- small exhaustive model --- *)
RTStarts ==
    { [kind |-> "lti", perch |-> FALSE, n |-> 2, sig |-> "none", impl |-> m, secs |-> s] :
        m \in {"iir"}, s \in { <<[b |-> <<1, 2>>, a |-> <<1, 1>>]>>,
                               <<[b |-> <<2>>, a |-> <<1, -1, 1>>]>> } }
    \cup { [kind |-> "lti", perch |-> FALSE, n |-> 2, sig |-> "none", impl |-> m,
            secs |-> <<[b |-> <<1, -2, 3>>, a |-> <<1>>]>>] : m \in {"fir", "chain"} }
    \cup { [kind |-> "svf", n |-> 2, sig |-> "live", impl |-> "svf", r |-> 0] }
    \cup { [kind |-> "tapped", n |-> 2, sig |-> "fresh", impl |-> "wfir", p |-> 0, q |-> 1, c |-> <<1, 3>>] }
RTEvents(st) ==
    { [op |-> "run", ch |-> c, x |-> <<v>>] : c \in 1..st.n, v \in {4096, -16384} }
    \cup { [op |-> "run", ch |-> c, x |-> <<16384, 0>>] : c \in 1..st.n }
    \cup { [op |-> "reset"], [op |-> "channels", n |-> 1], [op |-> "channels", n |-> 2] }
    \cup (IF st.sig = "none" THEN {} ELSE { [op |-> "signal", x |-> << <<4096, 8192, 0>>, <<-4096, 0, 0>> >>] })
=============================================================================
