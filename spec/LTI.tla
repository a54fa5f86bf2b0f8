-------------------------------- MODULE LTI ---------------------------------
(***************************************************************************)
(* Exact linear time-invariant filtering over the integers.                *)
(* A section is [b, a, d]: the difference equation                         *)
(*     a[1] y[n] = SUM b[k] x[n-k+1] - SUM_{k>1} a[k] y[n-k+1]             *)
(* with integer coefficients; y is an integer because the drivers only use *)
(* inputs for which every division is exact (Exact asserts it).            *)
(* A filter is a sequence of sections (a cascade).  The state of a section *)
(* is its past inputs and past outputs, most recent first.                 *)
(***************************************************************************)
EXTENDS Base

(* memory of one section: as many past samples as the coefficients reach *)
Mem(sec) == Max2(Len(sec.b), Len(sec.a)) - 1
SecZero(sec) == [xs |-> Zeros(Mem(sec)), ys |-> Zeros(Mem(sec))]

PushFront(v, s) == IF s = <<>> THEN s ELSE <<v>> \o SubSeq(s, 1, Len(s) - 1)

(* one sample through one section: [y, h] *)
SecSample(sec, h, x) ==
    LET feed == SumTo([k \in 1..Len(sec.b) |->
                          IF k = 1 THEN sec.b[1] * x ELSE sec.b[k] * h.xs[k - 1]], Len(sec.b))
        back == SumTo([k \in 1..Len(sec.a) |->
                          IF k = 1 THEN 0 ELSE sec.a[k] * h.ys[k - 1]], Len(sec.a))
        y == ExactZ(feed - back, sec.a[1])
    IN  [y |-> y, h |-> [xs |-> PushFront(x, h.xs), ys |-> PushFront(y, h.ys)]]

FiltZero(secs) == [i \in 1..Len(secs) |-> SecZero(secs[i])]

(* one sample through a cascade: [y, h] *)
RECURSIVE CasSample(_, _, _)
CasSample(secs, h, x) ==
    IF secs = <<>> THEN [y |-> x, h |-> <<>>]
    ELSE LET r == SecSample(Head(secs), Head(h), x)
             q == CasSample(Tail(secs), Tail(h), r.y)
         IN  [y |-> q.y, h |-> <<r.h>> \o q.h]

(* a block through a cascade, from state h: [y |-> outputs, h |-> state] *)
RECURSIVE RunBlock(_, _, _)
RunBlock(secs, h, xs) ==
    IF xs = <<>> THEN [y |-> <<>>, h |-> h]
    ELSE LET r == CasSample(secs, h, Head(xs))
             q == RunBlock(secs, r.h, Tail(xs))
         IN  [y |-> <<r.y>> \o q.y, h |-> q.h]

(* Steady state for a constant unit input since forever ("step response
   steady state"): the state scipy's *_zi functions deliver, and the one a
   filter with activated state starts from. *)
RECURSIVE SteadyFrom(_, _)
SteadyFrom(secs, level) ==
    IF secs = <<>> THEN <<>>
    ELSE LET s == Head(secs)
             out == ExactZ(level * SumSeq(s.b), SumSeq(s.a))
         IN  <<[xs |-> Const(Mem(s), level), ys |-> Const(Mem(s), out)]>>
               \o SteadyFrom(Tail(secs), out)
Steady(secs) == SteadyFrom(secs, 1)

(* direct convolution, full length *)
Conv(x, h) ==
    IF x = <<>> \/ h = <<>> THEN <<>>
    ELSE [n \in 1..(Len(x) + Len(h) - 1) |->
           SumTo([k \in 1..Len(h) |-> IF n - k + 1 \in 1..Len(x) THEN h[k] * x[n - k + 1] ELSE 0],
                 Len(h))]

RECURSIVE AddSeqs(_)
AddSeqs(ss) == IF Len(ss) = 1 THEN ss[1]
               ELSE LET r == AddSeqs(Tail(ss)) IN [i \in 1..Len(ss[1]) |-> ss[1][i] + r[i]]
=============================================================================
