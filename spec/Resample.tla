------------------------------ MODULE Resample ------------------------------
(***************************************************************************)
(* Changing the sampling rate: with a filter (decimation, interpolation),  *)
(* of signals with the built-in filter, and of filters.                    *)
(*                                                                         *)
(* The state is the filter in use: FIR ("fir"), recursive ("iir") or given *)
(* in sections ("sos", coefficients can be replaced).  Samples are         *)
(* integers; a FIR filter is applied centred (its first half is skipped),  *)
(* a recursive one causally.  Decimation by f keeps every f-th filtered    *)
(* sample from the first one on; interpolation inserts zeros, multiplies   *)
(* by f and filters.                                                       *)
(***************************************************************************)
EXTENDS Base

At(c, i) == IF i >= 1 /\ i <= Len(c) THEN c[i] ELSE 0
FirAt(b, x, t) == SumTo([j \in 1..Len(b) |-> b[j] * At(x, t + 1 - j)], Len(b))      \* 1-based t
RECURSIVE IirTo(_, _, _, _)
IirTo(b, a, x, n) ==
    IF n = 0 THEN <<>>
    ELSE LET y == IirTo(b, a, x, n - 1)
         IN  Append(y, FirAt(b, x, n) - SumTo([j \in 1..(Len(a) - 1) |-> a[j + 1] * At(y, n - j)], Len(a) - 1))
Half(b) == (Len(b) - 1) \div 2
Ceil(n, f) == (n + f - 1) \div f
Stuff(x, f) == [t \in 1..(Len(x) * f) |-> IF (t - 1) % f = 0 THEN f * x[(t - 1) \div f + 1] ELSE 0]

Down(st, x, f) ==
    IF st.k = "fir" THEN [i \in 1..Ceil(Len(x), f) |-> FirAt(st.b, x, (i - 1) * f + 1 + Half(st.b))]
    ELSE LET y == TLCEval(IirTo(st.b, st.a, x, Len(x))) IN [i \in 1..Ceil(Len(x), f) |-> y[(i - 1) * f + 1]]
Up(st, x, f) ==
    LET s == TLCEval(Stuff(x, f))
    IN  IF st.k = "fir" THEN [i \in 1..Len(s) |-> FirAt(st.b, s, i + Half(st.b))]
        ELSE IirTo(st.b, st.a, s, Len(s))
Filt(st, x) == IF st.k = "fir" THEN [t \in 1..Len(x) |-> FirAt(st.b, x, t)] ELSE IirTo(st.b, st.a, x, Len(x))

(* value of a straight line at i d / u in 1e-3, inside the reach of the filter *)
Ramp(ev) ==
    LET N == ev.n
        L == Ceil(N * ev.u, ev.d)
        reach == 10 * Max2(ev.u, ev.d)          \* in 1/u samples
        den == IF ev.rescale THEN ev.u * ev.u ELSE ev.u
        num == IF ev.rescale THEN ev.d ELSE 1
    IN  [c \in 1..Len(ev.p) |-> [i \in 1..L |->
            LET pos == (i - 1) * ev.d
                v == (1000 * num * (ev.p[c][1] * ev.u + ev.p[c][2] * pos)) \div den
            IN  IF pos > reach /\ pos < N * ev.u - reach THEN <<v, 5 + Abs(v) \div 100>> ELSE <<0, 2000000000>>]]
(* interpolation by u keeps the samples *)
Kept(ev) == [c \in 1..Len(ev.x) |-> [i \in 1..(Len(ev.x[c]) * ev.u) |->
                IF (i - 1) % ev.u = 0 THEN <<1000 * ev.x[c][(i - 1) \div ev.u + 1], 80>> ELSE <<0, 2000000000>>]]

(* response of b over a at 1, -1 and j: <<num re, num im>> , <<den re, den im>> *)
Dc(c) == <<SumSeq(c), 0>>
Ny(c) == <<SumTo([i \in 1..Len(c) |-> IF i % 2 = 1 THEN c[i] ELSE -c[i]], Len(c)), 0>>
Jj(c) == << SumTo([i \in 1..Len(c) |-> IF i % 4 = 1 THEN c[i] ELSE IF i % 4 = 3 THEN -c[i] ELSE 0], Len(c)),
            SumTo([i \in 1..Len(c) |-> IF i % 4 = 2 THEN -c[i] ELSE IF i % 4 = 0 THEN c[i] ELSE 0], Len(c)) >>
Rnd(a, b) == a \div b + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
Ratio(n, d) == LET q == d[1] * d[1] + d[2] * d[2]
               IN  IF q = 0 THEN << <<0, 2000000000>>, <<0, 2000000000>> >>
                   ELSE << <<Rnd(1000 * (n[1] * d[1] + n[2] * d[2]), q), 2>>, <<Rnd(1000 * (n[2] * d[1] - n[1] * d[2]), q), 2>> >>

RsInit(i) == [k |-> i.k, b |-> i.b, a |-> i.a]
Ok(st, kind, res) == [st |-> st, out |-> [ok |-> TRUE, kind |-> kind, res |-> res]]
Fail(st) == [st |-> st, out |-> [ok |-> FALSE]]
RsStep(st, ev) ==
    CASE ev.op \in {"new", "change"} -> Ok([k |-> ev.k, b |-> ev.b, a |-> ev.a], "none", <<>>)
      [] ev.op = "down" -> IF ev.bad # "" THEN Fail(st) ELSE Ok(st, "exact", [c \in 1..Len(ev.x) |-> Down(st, ev.x[c], ev.f)])
      [] ev.op = "up" -> IF ev.bad # "" THEN Fail(st) ELSE Ok(st, "exact", [c \in 1..Len(ev.x) |-> Up(st, ev.x[c], ev.f)])
      [] ev.op = "filt" -> Ok(st, "exact", [c \in 1..Len(ev.x) |-> Filt(st, ev.x[c])])
      [] ev.op = "same" -> Ok(st, "exact", ev.x)
      [] ev.op = "ramp" -> Ok(st, "near", Ramp(ev))
      [] ev.op = "kept" -> Ok(st, "near", Kept(ev))
      [] ev.op = "rfilt" -> Ok(st, "near", << Ratio(Dc(ev.b), Dc(ev.a))  , Ratio(Jj(ev.b), Jj(ev.a)), Ratio(Ny(ev.b), Ny(ev.a)) >>)

CloseV(e, o) == LET d == o - e[1] IN d <= e[2] /\ -d <= e[2]
Close1(e, o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : CloseV(e[i], o[i])
RsMatch(out, ob) ==
    /\ "ok" \in DOMAIN ob /\ ob.ok = out.ok
    /\ ob.touched = FALSE
    /\ out.ok => CASE out.kind = "exact" -> ob.res = out.res
                   [] out.kind = "near" -> Len(ob.res) = Len(out.res) /\ \A c \in 1..Len(out.res) : Close1(out.res[c], ob.res[c])
                   [] OTHER -> TRUE
RsInv(st) == st.k \in {"fir", "iir", "sos"} /\ Len(st.b) >= 1 /\ st.a[1] = 1

(* exhaustive: every filter and signal length with every factor *)
X1(n) == [t \in 1..n |-> ((t * t * 7 + 3 * t) % 11) - 5]
X2(n) == [t \in 1..n |-> ((t * t * t + 5) % 13) - 6]
B(n) == [t \in 1..n |-> ((t * 5 + n) % 7) - 3]
RsStarts == {[k |-> "fir", b |-> B(n), a |-> <<1>>] : n \in 1..9}
            \cup {[k |-> "iir", b |-> B(n), a |-> <<1, -1>>] : n \in 1..3}
            \cup {[k |-> "sos", b |-> <<1, 2, -1>>, a |-> <<1, 0, 1>>], [k |-> "sos", b |-> <<3, 0, 0>>, a |-> <<1, -1, 1>>]}
RsEvents(st) ==
    {[op |-> "down", x |-> IF Ceil(n, f) > 1 THEN <<X1(n), X2(n)>> ELSE <<X1(n)>>, f |-> f, bad |-> ""] : n \in 2..11, f \in 1..5}
    \cup {[op |-> "up", x |-> <<X1(n), X2(n)>>, f |-> f, bad |-> ""] : n \in 2..5, f \in 1..5}
    \cup {[op |-> "down", x |-> <<X1(4)>>, f |-> 2, bad |-> s] : s \in {"rate", "frac"}}
=============================================================================
