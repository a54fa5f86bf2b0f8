------------------------------- MODULE Levels -------------------------------
(***************************************************************************)
(* Gain, normalization, fades, trends and level measures of a signal with  *)
(* bands b (one: a plain signal) of channels of samples x/den, constrained *)
(* to 0 dBFS or not.  Gains and targets are rational amplitude factors p/q *)
(* (given to the code in dB).  Samples are expected in 1e-3.               *)
(***************************************************************************)
EXTENDS Base

Peak1(c) == LET v == {Abs(c[i]) : i \in 1..Len(c)} IN CHOOSE m \in v : \A w \in v : w <= m
Peak(b) == LET v == {Peak1(b[i]) : i \in 1..Len(b)} IN CHOOSE m \in v : \A w \in v : w <= m
SqSum(c) == SumTo([i \in 1..Len(c) |-> c[i] * c[i]], Len(c))
Rnd(a, b) == a \div b + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

(* 10^(-k/4) in 1e-4 *)
Quart(k) == LET m == <<10000, 5623, 3162, 1778>>[(k % 4) + 1] IN
            CASE k \div 4 = 0 -> m [] k \div 4 = 1 -> Rnd(m, 10) [] k \div 4 = 2 -> Rnd(m, 100) [] OTHER -> Rnd(m, 10^(k \div 4))
(* a fade-in of n samples, 1e-4 *)
FadeIn(t, n) ==
    CASE t = "Linear" -> [k \in 1..n |-> IF n = 1 THEN 0 ELSE Rnd(10000 * (k - 1), n - 1)]
      [] t = "Exponential" -> [k \in 1..n |-> IF n = 1 THEN 0 ELSE Quart(20 - (20 * (k - 1)) \div (n - 1))]     \* 100 dB
      [] t = "Logarithmic" -> CASE n = 0 -> <<>> [] n = 1 -> <<0>> [] n = 2 -> <<0, 10000>> [] n = 3 -> <<0, 8644, 10000>>
                                [] n = 5 -> <<0, 7299, 8644, 9436, 10000>>
FadeW(t, n, L, s, e) ==
    LET f == IF t = "NoFade" THEN <<>> ELSE FadeIn(t, n)
        a(i) == IF s /\ i <= Len(f) THEN f[i] ELSE 10000
        z(i) == IF e /\ L + 1 - i <= Len(f) THEN f[L + 1 - i] ELSE 10000
    IN  TLCEval([i \in 1..L |-> Rnd(a(i) * z(i), 10000)])

Chan(b, F(_)) == [k \in 1..Len(b) |-> F(b[k])]
Map2(bands, F(_)) == TLCEval([i \in 1..Len(bands) |-> [k \in 1..Len(bands[i]) |-> F(bands[i][k])]])

(* rational samples as <<value, tolerance>> in 1e-3 *)
Vals(c, num, den) == [i \in 1..Len(c) |-> <<Rnd(c[i] * num * 1000, den), 2>>]

(* limits the amplitude of one band of numerators over den *)
Lim(b, den, con) == IF con THEN Max2(den, Peak(b)) ELSE den

(* --- operations: the expected samples of every band and channel -------- *)
Gain(st, ev) ==
    LET Q == Prod(ev.q)
        g(ch) == LET k == IF Len(ev.p) = 1 THEN 1 ELSE ch IN (ev.p[k] * Q) \div ev.q[k]
        one(b, im) == LET n == TLCEval([ch \in 1..Len(b) |-> [i \in 1..Len(b[ch]) |-> b[ch][i] * g(ch)]])
                          m == [ch \in 1..Len(im) |-> [i \in 1..Len(im[ch]) |-> im[ch][i] * g(ch)]]
                          d == Lim(n, st.den * Q, st.con)
                      IN  << [ch \in 1..Len(n) |-> Vals(n[ch], 1, d)], [ch \in 1..Len(m) |-> Vals(m[ch], 1, d)] >>
    IN  IF Len(ev.p) # 1 /\ Len(ev.p) # Len(st.b[1]) THEN <<FALSE, <<>>>>
        ELSE <<TRUE, [i \in 1..Len(st.b) |-> one(st.b[i], st.im)[1]]
                     \o (IF st.im = <<>> THEN <<>> ELSE << one(st.b[1], st.im)[2] >>)>>

Norm(st, ev) ==
    LET lim == st.con /\ ev.p > ev.q
        p == IF lim THEN 1 ELSE ev.p
        q == IF lim THEN 1 ELSE ev.q
        one(b) == [ch \in 1..Len(b) |-> LET m == IF ev.each THEN Peak1(b[ch]) ELSE Peak(b) IN Vals(b[ch], p, q * m)]
    IN  <<TRUE, [i \in 1..Len(st.b) |-> one(st.b[i])]>>

(* signed squares of the samples, 1e-3 *)
SqVals(c, num, den) == [i \in 1..Len(c) |-> <<(IF c[i] < 0 THEN -1 ELSE 1) * Rnd(c[i] * c[i] * num * 100, den) , 2>>]
NormRms(st, ev) ==
    LET one(b) ==
            LET L == Len(b[1])
                all == SumTo([ch \in 1..Len(b) |-> SqSum(b[ch])], Len(b))
                sq(ch) == IF ev.each THEN SqSum(b[ch]) ELSE all
                n(ch) == (IF ev.each THEN 1 ELSE Len(b)) * L
                over == {ch \in 1..Len(b) : Peak1(b[ch]) * Peak1(b[ch]) * ev.p * ev.p * n(ch) > ev.q * ev.q * sq(ch)}
            IN  IF ~st.con \/ over = {} THEN [ch \in 1..Len(b) |-> SqVals(b[ch], ev.p * ev.p * n(ch), ev.q * ev.q * sq(ch))]
                ELSE IF ~ev.each THEN [ch \in 1..Len(b) |-> SqVals(b[ch], 1, Peak(b) * Peak(b))]
                ELSE \* the channel with the highest crest factor reaches full scale
                     LET top == CHOOSE c \in 1..Len(b) : \A d \in 1..Len(b) :
                                    Peak1(b[c]) * Peak1(b[c]) * sq(d) >= Peak1(b[d]) * Peak1(b[d]) * sq(c)
                     IN  [ch \in 1..Len(b) |-> [i \in 1..L |->
                            LET v == Rnd(Rnd(b[ch][i] * b[ch][i] * 1000 * sq(top), sq(ch)), 1)
                            IN  <<(IF b[ch][i] < 0 THEN -1 ELSE 1) * Rnd(v, 10 * Peak1(b[top]) * Peak1(b[top])), 2>>]]
    IN  <<TRUE, [i \in 1..Len(st.b) |-> one(st.b[i])]>>

Fade(st, ev) ==
    LET L == Len(st.b[1][1])
        len == IF ev.n = -1 THEN (25 * L) \div 1000 ELSE ev.n
        w == FadeW(ev.t, len, L, ev.s, ev.e)
    IN  IF ~(ev.s \/ ev.e) \/ (ev.n # -1 /\ ev.n >= L) THEN <<FALSE, <<>>>>
        ELSE <<TRUE, Map2(st.b, LAMBDA c : [i \in 1..L |-> <<Rnd(c[i] * w[i], 10 * st.den), 3 + Abs(c[i]) \div (5 * st.den)>>])>>

Levels(st) ==      \* mean square, square of the crest factor, square of the peak (1e-3)
    <<TRUE, Map2(st.b, LAMBDA c : << <<Rnd(Rnd(SqSum(c) * 100, Len(c)) * 10, st.den * st.den), 12>>,
                                     <<Rnd(1000 * Peak1(c) * Peak1(c) * Len(c), SqSum(c)), 12>>,
                                     <<Rnd(1000 * Peak1(c) * Peak1(c), st.den * st.den), 12>>,
                                     <<1, 0>> >>)>>

(* residual of the regression line, 1e-2 of the numerators *)
Resid(c) ==
    LET n == Len(c)
        St == (n * (n - 1)) \div 2
        Stt == SumTo([t \in 1..n |-> (t - 1) * (t - 1)], n)
        Sx == SumTo(c, n)
        Sxt == SumTo([t \in 1..n |-> (t - 1) * c[t]], n)
        D == n * Stt - St * St
        B == n * Sxt - St * Sx
    IN  TLCEval([t \in 1..n |-> Rnd(100 * (c[t] * n * D - (Sx * D - B * St) - B * n * (t - 1)), n * D)])
Env(st, ev) ==
    LET one(c) == LET r == Resid(c) IN
            [t \in 1..Len(c) |->
                LET lo == Max2(1, t - ev.m + 1)
                    s == SumTo([k \in 1..(t - lo + 1) |-> r[lo + k - 1] * r[lo + k - 1]], t - lo + 1)
                    a == SumTo([k \in 1..(t - lo + 1) |-> Abs(r[lo + k - 1])], t - lo + 1)
                IN  <<Rnd(s, ev.m * st.den * st.den), 4 + (a + ev.m) \div (ev.m * st.den * st.den)>>]
    IN  <<TRUE, Map2(st.b, one)>>

(* powers in 1e-5 *)
RECURSIVE Track(_, _, _, _, _)
Track(P, g, i, a, r) ==
    IF i > Len(P) THEN g
    ELSE LET o == g[Len(g)]
             c == IF P[i] > o THEN a ELSE r
         IN  Track(P, Append(g, o + Rnd(c * (P[i] - o), 4)), i + 1, a, r)
Active(st, ev) ==
    LET c == st.b[1][ev.ch]
        m == Peak1(c)
        P == TLCEval([i \in 1..Len(c) |-> IF ev.rel THEN Rnd(c[i] * c[i] * 10000, m * m) * 10
                                          ELSE Rnd(c[i] * c[i] * 10000, st.den * st.den) * 10])
        g == TLCEval(Track(P, <<0>>, 2, ev.a, ev.r))
        t == Rnd(100000 * ev.p, ev.q)
    IN  <<TRUE, [i \in 1..Len(c) |-> IF Abs(g[i] - t) <= 20 + 2 * Len(c) THEN <<1, 1>>     \* either (0, 1 or 2 as seen)
                                     ELSE <<IF g[i] > t THEN 2 ELSE 0, 0>>]>>

RECURSIVE Conv(_, _)
Conv(a, b) == IF a = <<>> THEN <<>>
              ELSE LET rest == Conv(Tail(a), b)
                       n == Max2(Len(b), IF rest = <<>> THEN 0 ELSE Len(rest) + 1)
                   IN  [i \in 1..n |-> (IF i <= Len(b) THEN a[1] * b[i] ELSE 0) + (IF i > 1 /\ i - 1 <= Len(rest) THEN rest[i - 1] ELSE 0)]
RECURSIVE ConvAll(_)
ConvAll(s) == IF Len(s) = 1 THEN s[1] ELSE Conv(s[1], ConvAll(Tail(s)))
(* filters are lists of FIR sections; response of every filter, 1e-3 *)
FGain(ev) ==
    LET n == Len(ev.f)
        k(i) == IF Len(ev.p) = 1 THEN 1 ELSE i
    IN  IF Len(ev.p) # 1 /\ Len(ev.p) # n THEN <<FALSE, <<>>>>
        ELSE <<TRUE, << [i \in 1..n |-> Vals(Fit(ConvAll(ev.f[i]), 8), ev.p[k(i)], ev.q[k(i)])] >> >>

Res(st, ev) ==
    CASE ev.op = "gain" -> Gain(st, ev)
      [] ev.op = "norm" -> IF ev.rms THEN NormRms(st, ev) ELSE Norm(st, ev)
      [] ev.op = "fade" -> Fade(st, ev)
      [] ev.op = "levels" -> Levels(st)
      [] ev.op = "env" -> Env(st, ev)
      [] ev.op = "active" -> IF ev.p >= ev.q THEN <<FALSE, <<>>>> ELSE <<TRUE, << <<Active(st, ev)[2]>> >> >>
      [] ev.op = "fgain" -> FGain(ev)
      [] ev.op = "detrend" -> IF ev.k < 0 THEN <<FALSE, <<>>>> ELSE <<TRUE, st.b>>
      [] ev.op = "dither" -> <<TRUE, << << << <<1, 0>>, <<1, 0>>, <<1, 0>> >> >> >> >>
      [] ev.op = "lufs" -> <<TRUE, << << << <<Rnd(1000 * ev.p * ev.p, ev.q * ev.q), 3>>, <<IF ev.ch >= 3 THEN 1410 ELSE 1000, 3>>,
                                            <<1000, 3>>, <<1, 0>> >> >> >> >>

LVInit(s) == [b |-> s.b, den |-> s.den, con |-> s.con, im |-> s.im]
(* gains and common normalizations can be kept as the next signal *)
LVStep(st, ev) ==
    LET r == TLCEval(Res(st, ev))
        keep == r[1] /\ "keep" \in DOMAIN ev /\ ev.keep
        num == IF keep THEN ev.p[1] ELSE 1
        n == [i \in 1..Len(st.b) |-> [c \in 1..Len(st.b[i]) |-> [t \in 1..Len(st.b[i][c]) |-> st.b[i][c][t] * num]]]
        n2 == IF st.im = <<>> THEN <<>> ELSE [c \in 1..Len(st.im) |-> [t \in 1..Len(st.im[c]) |-> st.im[c][t] * num]]
        d == Lim(n[1], st.den * (IF keep THEN ev.q[1] ELSE 1), st.con)
    IN  [st |-> IF keep THEN [st EXCEPT !.b = TLCEval(n), !.den = d, !.im = n2] ELSE st,
         out |-> [ok |-> r[1], op |-> ev.op, k |-> IF ev.op = "detrend" THEN ev.k ELSE 0, den |-> st.den,
                  res |-> r[2], touched |-> FALSE]]

Close(e, o) == LET d == o - e[1] IN d <= e[2] /\ -d <= e[2]
Close3(e, o) == /\ Len(e) = Len(o)
                /\ \A i \in 1..Len(e) : /\ Len(e[i]) = Len(o[i])
                                        /\ \A j \in 1..Len(e[i]) : /\ Len(e[i][j]) = Len(o[i][j])
                                                                   /\ \A t \in 1..Len(e[i][j]) : Close(e[i][j][t], o[i][j][t])
(* the residual r (1e-4, times den) of c: orthogonal to all t^m, m <= k, and c - r a polynomial of degree k *)
Diff(c) == [i \in 1..(Len(c) - 1) |-> c[i + 1] - c[i]]
RECURSIVE DiffN(_, _)
DiffN(c, n) == IF n = 0 THEN c ELSE DiffN(TLCEval(Diff(c)), n - 1)
PowT(t, m) == IF m = 0 THEN 1 ELSE IF m = 1 THEN t ELSE t * t
Residual(c, r, k) ==
    /\ Len(r) = Len(c)
    /\ \A m \in 0..k : LET s == SumTo([t \in 1..Len(c) |-> r[t] * PowT(t - 1, m)], Len(c))
                           tol == SumTo([t \in 1..Len(c) |-> PowT(t - 1, m)], Len(c))
                       IN  s <= tol + 2 /\ -s <= tol + 2
    /\ LET d == DiffN([t \in 1..Len(c) |-> 10000 * c[t] - r[t]], k + 1)
       IN  \A i \in 1..Len(d) : d[i] <= 8 /\ -d[i] <= 8
LVMatch(out, ob) ==
    /\ ob.ok = out.ok
    /\ ob.touched = FALSE
    /\ out.ok =>
        IF out.op = "detrend"
        THEN /\ Len(ob.res) = Len(out.res)
             /\ \A i \in 1..Len(out.res) :
                    /\ Len(ob.res[i]) = Len(out.res[i])
                    /\ \A j \in 1..Len(out.res[i]) : Residual(out.res[i][j], ob.res[i][j], out.k)
        ELSE Close3(out.res, ob.res)

(* a constrained signal never exceeds full scale *)
LVInv(st) == st.den > 0 /\ (st.con => \A i \in 1..Len(st.b) : Peak(st.b[i]) <= st.den)

LVStarts == {[b |-> b, den |-> d, con |-> c, im |-> <<>>] :
                b \in { << << <<1, -3, 2, 0, 3, 1>> >> >>, << << <<1, -3, 2, 0, 3, 1>>, <<2, 1, 0, -1, -1, 0>> >> >>,
                        << << <<3, -3, 2, 0, 3, 1>>, <<2, 1, 0, -1, -1, 0>> >>, << <<0, 1, 0, 1, 3, 2>>, <<1, 1, 1, 1, 1, 3>> >> >> },
                d \in {3, 4}, c \in {TRUE, FALSE}}
            \cup {[b |-> << << <<1, -3, 2, 0, 3, 1>>, <<2, 1, 0, -1, -1, 0>> >> >>, den |-> d, con |-> FALSE,
                   im |-> << <<0, 2, 1, 4, -1, 1>>, <<1, 0, 0, 2, -3, 1>> >>] : d \in {1, 3}}
LVEvents(st) ==
    [op : {"gain"}, p : {<<2>>, <<1>>}, q : {<<3>>, <<1>>}, keep : {Len(st.b) = 1 \/ ~st.con}]
    \cup [op : {"gain"}, p : {<<1, 2>>, <<3, 1>>}, q : {<<2, 1>>}, keep : {FALSE}]
    \cup (IF st.im # <<>> THEN {} ELSE
          [op : {"norm"}, p : {1, 2}, q : {1, 2}, each : BOOLEAN, rms : BOOLEAN]
          \cup (IF Len(st.b) > 1 THEN {} ELSE [op : {"fade"}, t : {"Linear", "Logarithmic", "Exponential"}, n : {1, 2, 3, 5}, s : BOOLEAN, e : BOOLEAN])
          \cup [op : {"levels"}] \cup [op : {"detrend"}, k : {-1, 0, 1, 2}] \cup [op : {"env"}, m : {1, 2, 4}]
          \cup (IF Len(st.b) > 1 THEN {} ELSE [op : {"active"}, ch : {Len(st.b[1])}, a : {4, 3, 1}, r : {4, 2}, p : {1, 2}, q : {2, 9}, rel : BOOLEAN]))
=============================================================================
