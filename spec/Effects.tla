------------------------------ MODULE Effects -------------------------------
(***************************************************************************)
(* Audio effects: their settings, which can be changed one by one, and the *)
(* samples they give.  Signals are channels of integers s (samples s/100,  *)
(* |s| <= 100) at 1000 Hz, so that milliseconds are samples; the           *)
(* compressor takes samples on a 5 dB grid.  Results in 1e-4.              *)
(***************************************************************************)
EXTENDS Base, Trig

Rnd(a, b) == a \div b + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
RndS(a, b) == IF a < 0 THEN -Rnd(-a, b) ELSE Rnd(a, b)
Peak1(c) == LET v == {Abs(c[i]) : i \in 1..Len(c)} IN CHOOSE m \in v : \A w \in v : w <= m
RECURSIVE Isq(_, _, _)
Isq(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Isq(n, m, hi) ELSE Isq(n, lo, m - 1)
Isqrt(n) == Isq(n, 0, 46340)
(* 10^(-q/20), 1e-4 *)
T20 == <<10000, 8913, 7943, 7079, 6310, 5623, 5012, 4467, 3981, 3548, 3162, 2818, 2512, 2239, 1995, 1778, 1585, 1413, 1259, 1122>>
(* 10^(m/20000), 1e-4, for m in -inf..40000 *)
Pow(m) == IF m <= 0
          THEN LET q == (-m) \div 1000
                   b == (((-m) % 1000) * 11513) \div 10000          \* 1e-4 neper
                   e == 10000 - b + (b * b) \div 20000 - (((b * b) \div 10000) * b) \div 60000
               IN  IF q >= 160 THEN 0 ELSE Rnd(T20[(q % 20) + 1] * e, 10^(4 + q \div 20))
          ELSE LET q == m \div 1000
                   b == ((m % 1000) * 11513) \div 10000
                   e == 10000 + b + (b * b) \div 20000 + (((b * b) \div 10000) * b) \div 60000
                   t == T20[((20 - (q % 20)) % 20) + 1] * 10^((q + 19) \div 20)
               IN  (t \div 1000) * (e \div 10) + ((t % 1000) * e) \div 10000
(* arctan of z/1e4, 1e-4 rad *)
AtanS(t) == LET t2 == (t * t) \div 10000 IN t - (t * t2) \div 30000 + (((t * t2) \div 10000) * t2) \div 50000
Atan1(z) == IF z <= 2500 THEN AtanS(z) ELSE 4636 + AtanS(((z - 5000) * 10000) \div (10000 + z \div 2))
AtanP(z) == IF z <= 10000 THEN Atan1(z) ELSE 15708 - Atan1((100000000 + z \div 2) \div z)
Atan(z) == IF z < 0 THEN -AtanP(-z) ELSE AtanP(z)

Tol(c, t) == [i \in 1..Len(c) |-> <<c[i], t>>]
(* y scaled to the peak of x (1e-4 of s/100) *)
Restore(y, x) == LET p == Peak1(x)
                     m == Peak1(y)
                 IN  TLCEval([i \in 1..Len(y) |-> IF m = 0 THEN 0 ELSE RndS(y[i] * p, m) * 100])
(* the same with fractions: y up to 2e5 *)
RestoreF(y, x) == LET p == Peak1(x)
                      m == Peak1(y)
                  IN  TLCEval([i \in 1..Len(y) |-> IF m = 0 THEN 0 ELSE RndS(y[i] * p * 100, m)])
Chans(x, F(_)) == TLCEval([c \in 1..Len(x) |-> F(x[c])])

(* --- oscillators ------------------------------------------------------- *)
(* phase at n in 1/9600 turns *)
Phase(l, n) == (((n * l.f[1]) % (l.f[2] * 1000)) * 9600) \div (l.f[2] * 1000)
TriP(n, f1, D, k) == LET r == (n * f1) % D
                     IN  (IF 4 * r <= D THEN 4 * r ELSE IF 4 * r <= 3 * D THEN 2 * D - 4 * r ELSE 4 * r - 4 * D) \div k
Wave(l, N) ==
    CASE l.w = "harmonic" -> [n \in 1..N |-> Sine(Phase(l, n - 1))]
      [] l.w = "square" -> [n \in 1..N |-> LET p == Phase(l, n - 1) IN IF n = 1 THEN 0 ELSE IF p < 4800 THEN 10000 ELSE -10000]
      [] l.w = "sawtooth" -> [n \in 1..N |-> LET p == Phase(l, n - 1) IN RndS((2 * p - 9600) * 10000, 9600)]
      [] l.w = "triangle" -> LET D == l.f[2] * 1000
                                   t == [n \in 1..N |-> TriP(n - 1, l.f[1], D, 1 + D \div 100000)]
                               IN  [n \in 1..N |-> RndS(t[n] * 10000, Peak1(t))]
Beats(r) == LET b == CASE r.note = "quarter" -> <<1, 1>> [] r.note = "half" -> <<2, 1>> [] r.note = "whole" -> <<4, 1>>
                       [] r.note = "eighth" -> <<1, 2>> [] r.note = "sixteenth" -> <<1, 4>> [] r.note = "32th" -> <<1, 8>>
                       [] r.note = "quintuplet" -> <<1, 5>>
                t == IF r.tri THEN <<b[1] * 2, b[2] * 3>> ELSE b
            IN  IF r.dot THEN <<t[1] * 3, t[2] * 2>> ELSE t
RFreq(r) == LET b == Beats(r) IN <<r.bpm * b[2], 60 * b[1]>>

(* --- the effects ------------------------------------------------------- *)
Tremolo(st, x) ==
    LET N == Len(x[1])
        m == TLCEval(IF st.trem.lfo THEN Wave(st.lfo, N) ELSE [n \in 1..N |-> 1000 * Fit(st.trem.arr, N)[n]])
        g == TLCEval([n \in 1..N |-> Abs((m[n] * st.trem.depth) \div 100 + 10000)])
        free(n) == st.trem.lfo /\ st.lfo.w = "square" /\ n > 1 /\ (2 * (n - 1) * st.lfo.f[1]) % (st.lfo.f[2] * 1000) = 0
    IN  Chans(x, LAMBDA c : [n \in 1..N |-> IF free(n) THEN <<0, 2000000000>> ELSE <<RndS(c[n] * g[n], 100), 15>>])

Bc(v, n) == IF Len(v) = 1 THEN [i \in 1..n |-> v[1]] ELSE v
Chorus(st, x) ==
    LET N == Len(x[1])
        ch == st.chor
        V == ch.voices
        w == TLCEval(IF ch.lfo THEN Wave(st.lfo, N) ELSE <<>>)
        del(n, v) == IF ch.lfo THEN RndS(w[n] * ch.depth[v] + 10000 * ch.base[v], 10000)
                     ELSE RndS(Fit(ch.arr[v], N)[n], 10)
        one(c) == LET y == TLCEval([n \in 1..N |-> 100 * c[n] + ch.mix *
                                SumTo([v \in 1..V |-> LET k == n - del(n, v) IN IF k \in 1..N THEN c[k] ELSE 0], V)])
                  IN  Tol(RestoreF(y, c), 4)
    IN  Chans(x, LAMBDA c : one(c))

Sat(s, v) == CASE s = "none" -> v [] s = "arctan" -> Atan(2 * v) \div 2
               [] s = "clip" -> IF v > 3000 THEN 3000 ELSE IF v < -3000 THEN -3000 ELSE v
RECURSIVE Echo(_, _, _, _)
Echo(y, n, d, st) == IF n > Len(y) THEN y
                     ELSE Echo(TLCEval([y EXCEPT ![n] = @ + RndS(st.del.fb * Sat(st.del.sat, y[n - d]), 10)]), n + 1, d, st)
Delay(st, x) ==
    LET d == st.del.ms
        M == Len(x[1]) + (d * (10 + 15 * st.del.fb)) \div 10
        one(c) == LET y == Echo([n \in 1..M |-> IF n <= Len(c) THEN 100 * c[n] ELSE 0], d + 1, d, st)
                  IN  Tol(RestoreF(y, c), 40)
    IN  Chans(x, LAMBDA c : one(c))

Cube(z) == z - ((((z * z) \div 10000) * z) \div 10000) \div 3
Lim(z, m) == IF z > m THEN m ELSE IF z < -m THEN -m ELSE z
Dist(t, l, o, s, P) ==          \* one sample, level l (5 dB), offset o (5 dB down, -1: none)
    LET L == Pow(5000 * l)
        O == IF o < 0 THEN 0 ELSE Pow(-5000 * o)
        z == IF P = 0 THEN 0 ELSE RndS(s * L, P)
    IN  CASE t = "NoDistortion" -> 100 * s
          [] t = "Arctan" -> Atan(z + O)
          [] t = "HardClip" -> Lim(z + O, 10000)
          [] t = "SoftClip" -> Cube(Lim(RndS(2 * z, 3) + RndS(O * (L \div 10), 1000), 10000))
Distort(st, x) ==
    LET e == st.dist
        one(c) == LET P == Peak1(c)
                      part(k) == RestoreF([n \in 1..Len(c) |-> Dist(e.types[k], e.lev[k], e.off[k], c[n], P)], c)
                      parts == TLCEval([k \in 1..Len(e.types) |-> IF e.mix[k] = 0 THEN [n \in 1..Len(c) |-> 0] ELSE part(k)])
                      g == Pow(5000 * e.post)
                  IN  [n \in 1..Len(c) |-> <<RndS(RndS(SumTo([k \in 1..Len(parts) |-> e.mix[k] * parts[k][n]], Len(parts)), 100) * g, 10000), 25 + 25 * (g \div 10000)>>]
    IN  Chans(x, LAMBDA c : one(c))

(* --- compressor: a sample is 0 or +-(k+1), of level -5 k dB ------------- *)
Coef(n) == <<10000, 9500, 7764, 6316, 5271>>[n + 1]
Lev(st, s) == (-5) * (Abs(s) - 1) + st.comp.pre
GainM(st, d) ==      \* gain in mdB, d dB above the threshold
    LET p == st.comp.ratio[1]
        q == st.comp.ratio[2]
        W == st.comp.knee
    IN  IF p = 0 THEN (IF st.comp.down THEN (IF 2 * d < -W THEN 0 ELSE IF 2 * d <= W /\ W > 0 THEN RndS((-1000) * (2 * d + W) * (2 * d + W), 8 * W) ELSE (-1000) * d)
                       ELSE 0)                             \* infinite ratio (not for upward compression)
        ELSE IF st.comp.down THEN (IF 2 * d < -W THEN 0 ELSE IF 2 * d <= W /\ W > 0 THEN RndS(1000 * (q - p) * (2 * d + W) * (2 * d + W), 8 * W * p)
                              ELSE RndS(1000 * (q - p) * d, p))
        ELSE (IF 2 * d < -W THEN RndS(1000 * (q - p) * d, p) ELSE IF 2 * d <= W /\ W > 0 THEN RndS((-1000) * (q - p) * (2 * d - W) * (2 * d - W), 8 * W * p) ELSE 0)
RECURSIVE Gains(_, _, _, _, _)
Gains(st, c, top, n, g) ==
    IF n > Len(c) THEN <<>>
    ELSE LET t == IF c[n] = 0 THEN 10000 ELSE Pow(GainM(st, Lev(st, c[n]) - top - st.comp.thr))
             k == IF (t < g) = st.comp.down THEN Coef(st.comp.att) ELSE Coef(st.comp.rel)
             h == RndS(k * t + (10000 - k) * g, 10000)
         IN  <<h>> \o Gains(st, c, top, n + 1, h)
Compress(st, x) ==
    LET one(c) ==
            LET lev == {Lev(st, c[n]) : n \in {i \in 1..Len(c) : c[i] # 0}}
                top == IF st.comp.rel_peak /\ lev # {} THEN CHOOSE a \in lev : \A b \in lev : b <= a ELSE 0
                g == TLCEval(Gains(st, c, top, 1, 10000))
                amp(n) == IF c[n] = 0 THEN 0 ELSE (IF c[n] < 0 THEN -1 ELSE 1) * Pow(1000 * Lev(st, c[n]))
                y == TLCEval([n \in 1..Len(c) |-> RndS(amp(n) * RndS(st.comp.mix * g[n] + (100 - st.comp.mix) * 10000, 100), 10000)])
                p == Pow(1000 * st.comp.post)
                m == Peak1(y)
            IN  IF st.comp.makeup THEN [n \in 1..Len(c) |-> <<(IF m = 0 THEN 0 ELSE RndS(y[n] * 10000, m)), 40 + 30000 \div (m + 1)>>]
                ELSE [n \in 1..Len(c) |-> <<RndS(y[n] * p, 10000), 25 + p \div 500>>]
        rat(c) == IF Peak1(c) = 0 THEN <<0, 0>> ELSE <<Pow(1000 * (st.comp.pre + st.comp.post)) \div 10, 3 + Pow(1000 * (st.comp.pre + st.comp.post)) \div 5000>>
    IN  [res |-> Chans(x, LAMBDA c : one(c)),
         rms |-> IF st.comp.makeup THEN Chans(x, LAMBDA c : rat(c)) ELSE <<>>]

(* --- spectral subtraction with blocks of 4 samples ---------------------- *)
Fr(c, i) == [n \in 1..4 |-> IF (i - 1) * 4 + n <= Len(c) THEN c[(i - 1) * 4 + n] ELSE 0]
F0(f) == f[1] + f[2] + f[3] + f[4]
F2(f) == f[1] - f[2] + f[3] - f[4]
F1(f) == <<f[1] - f[3], f[4] - f[2]>>
Mag2(f) == <<F0(f) * F0(f), F1(f)[1] * F1(f)[1] + F1(f)[2] * F1(f)[2], F2(f) * F2(f)>>
Mags(f) == TLCEval([k \in 1..3 |-> Isqrt(Mag2(f)[k] * 10000)])         \* in 1e-2
(* remaining magnitudes in 1e-2; noise magnitudes in 1e-2 *)
Left(sub, m, noise) == TLCEval([k \in 1..3 |->
    IF sub.exp = 1 THEN Max2(0, m[k] - (sub.fac * noise[k]) \div 10)
    ELSE LET t == m[k] * m[k] - sub.fac * ((noise[k] * noise[k]) \div 10) IN IF t <= 0 THEN 0 ELSE Isqrt(t)])
Back(f, m, r) ==          \* 100 times 4 times the samples
    LET q(v, k) == IF m[k] = 0 THEN 0 ELSE RndS(v * r[k], m[k])
        X0 == q(100 * F0(f), 1)
        X1 == <<q(100 * F1(f)[1], 2), q(100 * F1(f)[2], 2)>>
        X2 == q(100 * F2(f), 3)
    IN  << X0 + 2 * X1[1] + X2, X0 - 2 * X1[2] - X2, X0 - 2 * X1[1] + X2, X0 + 2 * X1[2] - X2 >>
Quiet(f, thr) == (4 * (f[1] * f[1] + f[2] * f[2] + f[3] * f[3] + f[4] * f[4]) - F0(f) * F0(f)) * 10^thr < 80190
RECURSIVE Blocks(_, _, _, _)
Blocks(sub, c, i, noise) ==
    IF (i - 1) * 4 >= Len(c) THEN <<>>
    ELSE LET f == Fr(c, i)
             m == Mags(f)
             nn == TLCEval(IF sub.adaptive /\ Quiet(f, sub.thr) THEN [k \in 1..3 |-> Rnd(noise[k] * sub.forget + m[k] * (10 - sub.forget), 10)] ELSE noise)
         IN  Back(f, m, Left(sub, m, nn)) \o Blocks(sub, c, i + 1, nn)
Subtract(sub, x) ==
    Chans(x, LAMBDA c : LET y == Blocks(sub, c, 1, IF sub.adaptive THEN <<0, 0, 0>> ELSE [k \in 1..3 |-> Isqrt(sub.spec[k] * 10000)])
                            z == [n \in 1..Len(c) |-> RndS(y[n], 4)]
                        IN  Tol(RestoreF(z, c), 60 + (400 * Peak1(c)) \div (Peak1(z) + 1)))
(* noise estimated from the quiet part of the signal itself: the estimate has
   the units of the signal, so twice the signal (and threshold) is twice the
   result, and something is removed from a noisy signal *)
Static(ev) == << [n \in 1..(8 * (ev.nq + ev.nl)) |-> <<0, 4>>], << <<1, 0>> >> >>

(* --- settings ----------------------------------------------------------- *)
Set(r, s) == [k \in DOMAIN r |-> IF k \in DOMAIN s THEN s[k] ELSE r[k]]
EfInit(i) == [trem |-> [depth |-> 50, lfo |-> TRUE, arr |-> <<0>>],
              lfo |-> [f |-> <<1, 1>>, w |-> "harmonic"],
              chor |-> [base |-> <<15>>, depth |-> <<5>>, lfo |-> TRUE, arr |-> <<>>, mix |-> 100, voices |-> 1],
              del |-> [ms |-> 300, fb |-> 1, sat |-> "none"],
              dist |-> [types |-> <<"Arctan", "NoDistortion">>, lev |-> <<4, 0>>, mix |-> <<100, 0>>, off |-> <<-1, -1>>, post |-> 0],
              comp |-> [thr |-> -10, att |-> 0, rel |-> 4, ratio |-> <<3, 1>>, rel_peak |-> TRUE, knee |-> 0, pre |-> 0, post |-> 0, mix |-> 100,
                        makeup |-> TRUE, down |-> TRUE],
              sub |-> [adaptive |-> TRUE, thr |-> 2, spec |-> <<>>, fac |-> 20, exp |-> 2, forget |-> 9]]
Ok(st, kind, res) == [st |-> st, out |-> [ok |-> TRUE, kind |-> kind, res |-> res, rms |-> <<>>]]
Fail(st) == [st |-> st, out |-> [ok |-> FALSE]]
ChorSet(c, s) ==
    LET r == Set(c, s)
        a == Max2(Len(r.base), Len(r.depth))
        n == IF "lfo" \notin DOMAIN s THEN Max2(a, c.voices) ELSE IF r.lfo THEN a ELSE Max2(a, Len(r.arr))
    IN  [r EXCEPT !.base = Bc(@, n), !.depth = Bc(@, n), !.voices = n]
SubSet(c, s) == LET r == Set(c, s) IN IF r.spec # <<>> THEN [r EXCEPT !.adaptive = FALSE] ELSE r
Apply(st, e, x) ==
    CASE e = "trem" -> Tremolo(st, x) [] e = "chor" -> Chorus(st, x) [] e = "del" -> Delay(st, x) [] e = "dist" -> Distort(st, x)
      [] e = "sub" -> Subtract(st.sub, x)
EfStep(st, ev) ==
    CASE ev.op = "bad" -> Fail(st)
      [] ev.op = "set" /\ ev.e = "chor" -> Ok([st EXCEPT !.chor = ChorSet(@, ev.s)], "none", <<>>)
      [] ev.op = "set" /\ ev.e = "sub" -> Ok([st EXCEPT !.sub = SubSet(@, ev.s)], "none", <<>>)
      [] ev.op = "set" -> Ok([st EXCEPT ![ev.e] = Set(@, ev.s)], "none", <<>>)
      [] ev.op = "apply" /\ ev.e = "comp" -> LET r == Compress(st, ev.x) IN [st |-> st, out |-> [ok |-> TRUE, kind |-> "near", res |-> r.res, rms |-> r.rms]]
      [] ev.op = "apply" -> Ok(st, "near", Apply(st, ev.e, ev.x))
      [] ev.op = "static" -> Ok(st, "near", Static(ev))
      [] ev.op = "rhythm" -> LET f == RFreq(ev.r) IN Ok(st, "near", << << <<Rnd(f[1] * 1000, f[2]), 1>>, <<Rnd(f[2] * 1000, f[1]), 1>> >> >>)
      [] ev.op = "wave" -> Ok(st, "near", << Tol(Wave(st.lfo, ev.n), 8) >>)

CloseV(e, o) == LET d == o - e[1] IN d <= e[2] /\ -d <= e[2]
Close1(e, o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : CloseV(e[i], o[i])
EfMatch(out, ob) ==
    /\ "ok" \in DOMAIN ob /\ ob.ok = out.ok
    /\ ob.touched = FALSE
    /\ out.ok => /\ out.kind = "near" => /\ Len(ob.res) = Len(out.res)
                                         /\ \A c \in 1..Len(out.res) : Close1(out.res[c], ob.res[c])
                 /\ out.rms # <<>> => Close1(out.rms, ob.rms)
EfInv(st) == st.chor.voices = Len(st.chor.base) /\ Len(st.dist.types) = Len(st.dist.mix)

X1(n) == [t \in 1..n |-> (((t * t * 7 + 3 * t) % 41) - 20) * 5]
X2(n) == [t \in 1..n |-> (((t * t * t + 5) % 33) - 16) * 3]
EfStarts == {[seed |-> 0]}
EfEvents(st) ==
    {[op |-> "set", e |-> "dist", s |-> [types |-> <<t, "NoDistortion">>, lev |-> <<l, 0>>, mix |-> <<m, 100 - m>>, off |-> <<o, -1>>, post |-> 0]] :
        t \in {"Arctan", "HardClip", "SoftClip", "NoDistortion"}, l \in {0, 3}, m \in {100, 40}, o \in {-1, 2}}
    \cup {[op |-> "set", e |-> "comp", s |-> [thr |-> t, ratio |-> r, knee |-> k, makeup |-> FALSE, att |-> a]] :
        t \in {0, -15}, r \in {<<1, 1>>, <<2, 1>>, <<0, 1>>}, k \in {0, 10}, a \in {0, 2}}
    \cup {[op |-> "set", e |-> "chor", s |-> [depth |-> <<2>>, base |-> b, mix |-> m]] : b \in {<<1>>, <<4>>, <<2, 5>>}, m \in {100, 50}}
    \cup {[op |-> "set", e |-> "del", s |-> [ms |-> m, fb |-> f, sat |-> "none"]] : m \in 1..4, f \in {2, 5}}
    \cup {[op |-> "set", e |-> "lfo", s |-> [f |-> <<f, 1>>, w |-> w]] : f \in {125, 250}, w \in {"harmonic", "triangle"}}
    \cup {[op |-> "set", e |-> "trem", s |-> [depth |-> d]] : d \in {10, 100}}
    \cup {[op |-> "apply", e |-> e, x |-> <<X1(9), X2(9), [t \in 1..9 |-> 0]>>] : e \in {"trem", "chor", "del", "dist"}}
    \cup {[op |-> "apply", e |-> "comp", x |-> << <<-1, 3, 5, 2, -7, 0, 1, 9, -4>>, <<2, 2, -3, 4, -4, 8, 8, 3, 0>> >>]}
=============================================================================
