------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* Filter design and the representations of a filter: biquads, classic     *)
(* recursive designs, window-method FIR designs, matched biquads,          *)
(* frequency weightings, pink slope, fractional delay, Gaussian kernel,    *)
(* FIR filters with given magnitude and group delay, phase linearization,  *)
(* autoregressive models; order, kind, coefficients, transfer function and *)
(* group delay of a filter.                                                *)
(* Frequencies are k/(2N) of the sampling rate; angles are in 1/9600 turn. *)
(***************************************************************************)
EXTENDS Base, Trig

Cosine(p) == Sine(p + 2400)
Rnd(a, b) == a \div b + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
RndS(a, b) == IF b < 0 THEN Rnd(-a, -b) ELSE Rnd(a, b)
Get(x, i) == IF i >= 1 /\ i <= Len(x) THEN x[i] ELSE 0
Sq(x) == x * x
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Digits(_, _, _)
Digits(r, b, n) == IF n = 0 THEN 0 ELSE ((r * 10) \div b) * Pow(10, n - 1) + Digits((r * 10) % b, b, n - 1)
(* a / b in 1e-4 *)
Frac4(a, b) == LET s == IF a < 0 THEN -1 ELSE 1
               IN  s * ((Abs(a) \div b) * 10000 + Digits(Abs(a) % b, b, 4))
(* quotient of complex numbers, 1e-4 *)
CDiv(n, d) ==
    LET m == Max2(Abs(d[1]), Abs(d[2]))
        g == Max2(1, m \div 2000)
        r(x) == RndS(x, g)
        q == Sq(r(d[1])) + Sq(r(d[2]))
    IN   IF q = 0 THEN <<0, 0>>
        ELSE << Frac4(r(n[1]) * r(d[1]) + r(n[2]) * r(d[2]), q), Frac4(r(n[2]) * r(d[1]) - r(n[1]) * r(d[2]), q) >>

(* --- analog frequency u/v of bin k relative to bin k0 (bilinear transform) ---- *)
Ang(k, n) == (2400 * k) \div n
Rel(k, k0, n) == << RndS(Sine(Ang(k, n)) * Cosine(Ang(k0, n)), 10000), RndS(Cosine(Ang(k, n)) * Sine(Ang(k0, n)), 10000) >>
Unit(w) == LET m == Max2(1, Max2(Abs(w[1]), Abs(w[2]))) IN << RndS(w[1] * 1000, m), RndS(w[2] * 1000, m) >>
Fine(w) == LET m == Max2(1, Max2(Abs(w[1]), Abs(w[2]))) IN << RndS(w[1] * 10000, m), RndS(w[2] * 10000, m) >>
(* c1 + c2 s + c3 s^2 at s = j u / v *)
Proto(c, w) == << c[1] * w[2] * w[2] - c[3] * w[1] * w[1], c[2] * w[1] * w[2] >>

(* --- biquads: numerator and denominator; gain g1/g2, for shelves and bells its
       fourth root; quality q/10 ------------------------------------------------- *)
Num(t, g1, g2, q) ==
    CASE t = "Lowpass" -> <<g1 * q, 0, 0>>
      [] t = "Highpass" -> <<0, 0, g1 * q>>
      [] t = "BandpassSkirt" -> <<0, g1 * q, 0>>
      [] t = "BandpassPeak" -> <<0, 10 * g1, 0>>
      [] t = "Notch" -> <<g1 * q, 0, g1 * q>>
      [] t = "Allpass" -> <<g1 * q, -10 * g1, g1 * q>>
      [] t = "LowpassFirstOrder" -> <<g1, g1, 0>>
      [] t = "HighpassFirstOrder" -> <<0, g1, g1>>
      [] t = "AllpassFirstOrder" -> <<g1, 0, -g1>>
      [] t = "Peaking" -> <<q * g1 * g1 * g2 * g2, 10 * Pow(g1, 4), q * g1 * g1 * g2 * g2>>
      [] t = "Lowshelf" -> <<g1 * g1 * q * g1 * g1, 10 * g1 * g1 * g1 * g2, g1 * g1 * q * g2 * g2>>
      [] OTHER -> <<g1 * g1 * q * g2 * g2, 10 * g1 * g1 * g1 * g2, g1 * g1 * q * g1 * g1>>
Den(t, g1, g2, q) ==
    CASE t \in {"LowpassFirstOrder", "HighpassFirstOrder", "AllpassFirstOrder"} -> <<g2, 2 * g2, g2>>
      \* the skirt gain of the band-pass is the quality
      [] t = "BandpassSkirt" -> <<g2 * q, 10 * g2, g2 * q>>
      [] t = "Peaking" -> <<q * g1 * g1 * g2 * g2, 10 * Pow(g2, 4), q * g1 * g1 * g2 * g2>>
      [] t = "Lowshelf" -> <<g2 * g2 * q * g2 * g2, 10 * g1 * Pow(g2, 3), g2 * g2 * q * g1 * g1>>
      [] t = "Highshelf" -> <<g2 * g2 * q * g1 * g1, 10 * g1 * Pow(g2, 3), g2 * g2 * q * g2 * g2>>
      [] OTHER -> <<g2 * q, 10 * g2, g2 * q>>
Bell(t) == t \in {"Peaking", "Lowshelf", "Highshelf"}
(* the largest value the magnitude takes, 1e-4 *)
Peak(t, g1, g2, q) == IF Bell(t) THEN Max2(10000, (10000 * Pow(g1, 4)) \div Pow(g2, 4))
                      ELSE (IF t \in {"Lowpass", "Highpass", "BandpassSkirt"} THEN (1000 * Max2(12, q) * g1) \div g2 ELSE (10000 * g1) \div g2)
Biq(t, k, k0, n, g1, g2, q) == LET w == Unit(Rel(k, k0, n)) IN CDiv(Proto(Num(t, g1, g2, q), w), Proto(Den(t, g1, g2, q), w))

(* --- squared magnitude of the classic designs ------------------------------------ *)
(* normalized frequency of a pass at the edges ks *)
Edge(pass, k, ks, n) ==
    LET s(i) == Sine(Ang(i, n))
        c(i) == Cosine(Ang(i, n))
        m3(a, b) == RndS(a * b, 10000)
        low == Rel(k, ks[1], n)
        band == << m3(m3(s(k), s(k)), m3(c(ks[1]), c(ks[2]))) - m3(m3(c(k), c(k)), m3(s(ks[1]), s(ks[2]))),
                   m3(m3(s(k), c(k)), Sine(Ang(ks[2] - ks[1], n))) >>
        sw(w) == <<w[2], w[1]>>
        w == CASE pass = "Lowpass" -> low [] pass = "Highpass" -> sw(low) [] pass = "Bandpass" -> band [] OTHER -> sw(band)
    IN  Fine(<<Abs(w[1]), Abs(w[2])>>)
RECURSIVE Pow4(_, _)
Pow4(r, n) == IF n = 0 THEN 10000 ELSE LET p == TLCEval(Pow4(r, n - 1)) IN Rnd(p * r, 10000)
Inv1(x) == Rnd(100000000, 10000 + x)                              \* 1 / (1 + x)
Butter(w, n) == IF w[1] <= w[2] THEN Inv1(Pow4((10000 * w[1]) \div w[2], 2 * n))
                ELSE 10000 - Inv1(Pow4((10000 * w[2]) \div w[1], 2 * n))
Cap == 300000
RECURSIVE Cheb(_, _, _, _)
(* Chebyshev polynomial of order n at x (1e-4), in 1e-4, at most Cap *)
Cheb(x, n, a, b) == IF n = 0 THEN a ELSE IF Abs(b) >= Cap THEN Cap
                    ELSE Cheb(x, n - 1, b, LET v == 2 * (RndS(b * (x \div 1000), 10) + RndS(b * (x % 1000), 10000)) - a IN IF Abs(v) > Cap THEN Cap ELSE v)
Tn(w, n) == IF 31 * w[2] <= w[1] THEN Cap
            ELSE LET x == (10000 * w[1]) \div w[2] IN Abs(Cheb(x, n, 10000, x))
(* e/1000 of the squared polynomial, 1e-4 *)
Rip(t, e) == LET h == Sq(t \div 100) IN (h \div 1000) * e + ((h % 1000) * e) \div 1000
ChebOne(w, n, e) == Inv1(Rip(Tn(w, n), e))
ChebTwo(w, n, e) == 10000 - Inv1(Rip(Tn(<<w[2], w[1]>>, n), e))
Bw(w) == (10000 * w[1]) \div Max2(1, w[2])
(* squared magnitude and tolerance *)
Mag(ev, k) ==
    LET w == Edge(ev.pass, k, ev.ks, ev.n)
        e == ev.e
    IN  CASE ev.meth = "Butterworth" -> <<Butter(w, ev.ord), 60 * ev.ord>>
          [] ev.meth = "Chebyshev1" -> LET v == ChebOne(w, ev.ord, e) IN IF Tn(w, ev.ord) >= Cap THEN <<v \div 2, v \div 2 + 10>> ELSE <<v, 80 * ev.ord>>
          [] ev.meth = "Chebyshev2" -> LET v == ChebTwo(w, ev.ord, e) IN IF Tn(<<w[2], w[1]>>, ev.ord) >= Cap THEN <<(v + 10000) \div 2, (10000 - v) \div 2 + 10>> ELSE <<v, 100 * ev.ord>>
          \* ripple in the pass band, attenuation far from it
          [] OTHER -> LET lo == Inv1(10 * e) IN
                      IF w[1] = w[2] THEN <<lo, 60>>
                      ELSE IF w[1] < w[2] THEN <<(10000 + lo) \div 2, (10000 - lo) \div 2 + 10>>
                      ELSE IF w[1] >= 4 * w[2] THEN <<5, 6>> ELSE <<5000, 5001>>

(* --- FIR filters by the window method, m2 = twice the distance from the middle ----- *)
Sinc(k, n, m2) == IF m2 = 0 THEN (10000 * k) \div n
                  ELSE RndS(Sine(((2400 * k) \div n) * m2) * 6366, 10000 * m2)
Win(wn, m2, ord) == LET c == Cosine(Rnd(4800 * Abs(m2), ord))
                    IN  CASE wn = "Hamming" -> 5400 + (46 * c) \div 100 [] wn = "Hann" -> 5000 + c \div 2 [] OTHER -> 10000
Raw(ev, m2) ==
    LET one == IF m2 = 0 THEN 10000 ELSE 0
        l == Sinc(ev.ks[1], ev.n, m2)
        r == Sinc(ev.ks[Len(ev.ks)], ev.n, m2)
        h == CASE ev.pass = "Lowpass" -> l [] ev.pass = "Highpass" -> one - l [] ev.pass = "Bandpass" -> r - l [] OTHER -> one + l - r
    IN  RndS(h * Win(ev.win, m2, ev.ord), 10000)
RefAng(ev, m2) == CASE ev.pass = "Highpass" -> 2400 * m2
                    [] ev.pass = "Bandpass" -> ((1200 * (ev.ks[1] + ev.ks[2])) \div ev.n) * m2
                    [] OTHER -> 0
Fir(ev) == LET h == TLCEval([i \in 1..(ev.ord + 1) |-> Raw(ev, 2 * (i - 1) - ev.ord)])
               s == SumTo([i \in 1..(ev.ord + 1) |-> RndS(h[i] * Cosine(RefAng(ev, 2 * (i - 1) - ev.ord)), 10000)], ev.ord + 1)
           IN  [i \in 1..(ev.ord + 1) |-> IF s < 2000 THEN <<0, 100000>> ELSE <<RndS(10000 * h[i], s), 10 + 80000 \div s>>]

(* --- rational transfer functions with integer coefficients ------------------------ *)
Poly(c, k, m) == << SumTo([i \in 1..Len(c) |-> c[i] * Cos(k * (i - 1), m)], Len(c)), -SumTo([i \in 1..Len(c) |-> c[i] * Sin(k * (i - 1), m)], Len(c)) >>
Ramp(c) == [i \in 1..Len(c) |-> (i - 1) * c[i]]
Mul(x, y) == [n \in 1..(Len(x) + Len(y) - 1) |-> SumTo([k \in 1..Len(y) |-> y[k] * Get(x, n - k + 1)], Len(y))]
RECURSIVE MulAll(_)
MulAll(s) == IF s = <<>> THEN <<1>> ELSE TLCEval(Mul(Head(s), TLCEval(MulAll(Tail(s)))))
Trim(c) == LET n == CHOOSE n \in 1..Len(c) : c[n] # 0 /\ \A j \in (n + 1)..Len(c) : c[j] = 0 IN SubSeq(c, 1, n)
Scale(c, g) == [i \in 1..Len(c) |-> c[i] * g]
(* the filter of an event: numerator and denominator *)
Rat(ev) == IF ev.kind = "ba" THEN [b |-> ev.b, a |-> ev.a]
           ELSE IF ev.kind = "zpk" THEN LET n == Max2(Len(ev.z), Len(ev.p))          \* roots r/4 (and at 0), gain k
                                            up(r) == MulAll([i \in 1..n |-> IF i <= Len(r) THEN <<4, -r[i]>> ELSE <<4, 0>>])
                                        IN  [b |-> Scale(up(ev.z), ev.k), a |-> up(ev.p)]
           ELSE [b |-> MulAll([i \in 1..Len(ev.sec) |-> SubSeq(ev.sec[i], 1, 3)]), a |-> MulAll([i \in 1..Len(ev.sec) |-> SubSeq(ev.sec[i], 4, 6)])]
Resp(f, k, m) == CDiv(Poly(f.b, k, m), Poly(f.a, k, m))
Order(ev) == IF ev.kind = "zpk" THEN Max2(Len(ev.z), Len(ev.p))
             ELSE IF ev.kind = "ba" THEN Max2(Len(ev.b), IF Len(Trim(ev.a)) = 1 THEN 1 ELSE Len(ev.a)) - 1
             ELSE SumTo([i \in 1..Len(ev.sec) |-> IF ev.sec[i][3] = 0 /\ ev.sec[i][6] = 0 THEN 1 ELSE 2], Len(ev.sec))
Recursive(ev) == ev.kind # "ba" \/ Len(Trim(ev.a)) > 1
Delay(f, k, m) == CDiv(Poly(Ramp(f.b), k, m), Poly(f.b, k, m))[1] - CDiv(Poly(Ramp(f.a), k, m), Poly(f.a, k, m))[1]

(* --- fractional delay: coefficient k of order n, delay n + p/q, 1e-5 ---------------- *)
Binom(n, k) == CASE k = 0 -> 1 [] k = 1 -> n [] k = 2 -> (n * (n - 1)) \div 2 [] k = 3 -> (n * (n - 1) * (n - 2)) \div 6 [] OTHER -> (n * (n - 1) * (n - 2) * (n - 3)) \div 24
RECURSIVE Thi(_, _, _, _, _)
Thi(v, k, p, q, i) == IF i < 0 THEN v ELSE Thi(RndS(v * (p + q * i), p + q * (k + i)), k, p, q, i - 1)
Thiran(n, p, q) == [j \in 1..(n + 1) |-> LET k == j - 1 IN Thi(100000 * Binom(n, k) * (IF k % 2 = 1 THEN -1 ELSE 1), k, p, q, n)]

(* --- Gaussian kernel: K one-poles with m/10, 1e-6 ------------------------------------ *)
RECURSIVE Pole(_, _, _, _)
Pole(x, m, y, i) == IF i > Len(x) THEN y ELSE Pole(x, m, TLCEval(Append(y, RndS(m * Get(y, i - 1) + (10 - m) * x[i], 10))), i + 1)
RECURSIVE Poles(_, _, _)
Poles(x, m, k) == IF k = 0 THEN x ELSE Poles(Pole(x, m, <<>>, 1), m, k - 1)

(* --- FIR filter of a magnitude (integers) and a phase (1/9600 turn), n samples ------- *)
Synth(mag, ph, n, len) ==
    LET t(k, i) == mag[k] * Cosine(((9600 \div n) * (k - 1) * (i - 1)) + ph[k]) * (IF k = 1 \/ (n % 2 = 0 /\ k = Len(mag)) THEN 1 ELSE 2)
    IN  [i \in 1..len |-> IF i > n THEN 0 ELSE RndS(SumTo([k \in 1..Len(mag) |-> t(k, i)], Len(mag)), n)]
(* phase of group delays (1/9600 turn per bin): minus their running trapezoids *)
RECURSIVE Trap(_, _, _)
Trap(g, acc, i) == IF i > Len(g) THEN [j \in 1..Len(g) |-> -Rnd(acc[j], 2)]
                   ELSE Trap(g, TLCEval(Append(acc, IF i = 1 THEN 0 ELSE acc[i - 1] + g[i - 1] + g[i])), i + 1)
MaxOf(s) == CHOOSE m \in ToSet(s) : \A x \in ToSet(s) : x <= m
(* group delays (1/9600 turn per bin) that complement a phase, times two *)
Grad2(p) == [i \in 1..Len(p) |-> IF i = 1 THEN 2 * (p[1] - p[2]) ELSE IF i = Len(p) THEN 2 * (p[i - 1] - p[i]) ELSE p[i - 1] - p[i + 1]]

(* --- autoregressive model: normal equations -------------------------------------- *)
Acf(f, l) == SumTo([i \in 1..(Len(f) - l) |-> f[i] * f[i + l]], Len(f) - l)
Normal(r, a, i) == SumTo([k \in 1..Len(r) |-> a[k] * r[Abs(i + 1 - k) + 1]], Len(r))
YwHolds(r, a) == /\ Len(a) = Len(r) /\ a[1] = 10000
                 /\ \A k \in 1..Len(a) : Abs(a[k]) <= 400000
                 /\ \A i \in 1..(Len(r) - 1) : Abs(Normal(r, a, i)) <= SumSeq([k \in 1..Len(r) |-> Abs(r[k])]) + 2

WtA == <<-394, -262, -161, -86, -32, 0, 12, 10, -11>>
WtC == <<-30, -8, -2, 0, 0, 0, -2, -8, -30>>

Flat(s) == IF s = <<>> THEN <<>> ELSE [i \in 1..(2 * Len(s)) |-> s[(i + 1) \div 2][2 - (i % 2)]]
Tol(v0, t) == LET v == TLCEval(v0) IN [i \in 1..Len(v) |-> <<v[i], t>>]
Ok(st, res) == [st |-> [n |-> st.n + 1, sound |-> st.sound], out |-> [ok |-> TRUE, res |-> res]]
Fail(st) == [st |-> [n |-> st.n + 1, sound |-> st.sound], out |-> [ok |-> FALSE]]
DsInit(i) == [n |-> 0, sound |-> TRUE]
DsStep(st, ev) ==
    CASE ev.op = "bad" -> Fail(st)
      [] ev.op = "bq" ->
            LET pk == Peak(ev.t, ev.g1, ev.g2, ev.q)
                h == TLCEval([k \in 1..(ev.n + 1) |-> Biq(ev.t, k - 1, ev.k0, ev.n, ev.g1, ev.g2, ev.q)])
                r == Ok(st, << Tol(Flat(h), 40 + pk \div 40) >>)
            \* all-pass filters do not change the magnitude
            IN  [r EXCEPT !.st.sound = st.sound /\ (ev.t \in {"Allpass", "AllpassFirstOrder"} =>
                    \A k \in 1..Len(h) : Abs(Sq(h[k][1] \div 100) + Sq(h[k][2] \div 100) - Sq(pk \div 100)) <= 20 + 5 * (pk \div 100) + Sq(pk \div 100) \div 20)]
      [] ev.op = "iir" -> Ok(st, << [k \in 1..(ev.n + 1) |-> Mag(ev, k - 1)], << <<(IF ev.pass \in {"Bandpass", "Bandstop"} THEN 2 ELSE 1) * ev.ord, 0>> >> >>)
      [] ev.op = "fir" -> Ok(st, << Fir(ev) >>)
      [] ev.op = "rep" ->
            LET f == TLCEval(Rat(ev))
                h == TLCEval(Flat(TLCEval([k \in 1..9 |-> Resp(f, k - 1, 16)])))
                row == [i \in 1..18 |-> <<h[i], 30 + Abs(h[i]) \div 150 + Abs(h[IF i % 2 = 1 THEN i + 1 ELSE i - 1]) \div 150>>]
            IN  Ok(st, << << <<Order(ev), 0>>, <<IF Recursive(ev) THEN 1 ELSE 0, 0>>, <<IF ev.kind = "ba" THEN 0 ELSE 1, 0>>, <<IF ev.kind = "zpk" THEN 1 ELSE 0, 0>> >>,
                          row, row, row, row >>)
      [] ev.op = "gd" -> Ok(st, << LET f == TLCEval(Rat(ev)) IN Tol([i \in 1..Len(ev.ks) |-> Delay(f, ev.ks[i], 16)], 400) >>)
      \* matched biquads: magnitudes at 0 and at the frequency (and at fs/2 for shelves), gain g1/g2, quality q/10
      [] ev.op = "matched" ->
            LET g == (10000 * ev.g1) \div ev.g2
                gq == (1000 * ev.g1 * ev.q) \div ev.g2
                f4 == Pow4((10000 * ev.k0) \div ev.n, 4)
                ny(u, v) == Rnd(f4 * 100 + (1000000 * u) \div v, Rnd(f4 * 100 + (1000000 * v) \div u, 1000))     \* squared, 1e-3
                lo == ny(ev.g2, ev.g1)
            IN  Ok(st, << CASE ev.t = "Peaking" -> << <<10000, 5>>, <<g, 20>> >>
                            [] ev.t = "Lowpass" -> << <<g, 20>>, <<gq, 20>> >>
                            [] ev.t = "Highpass" -> << <<0, 5>>, <<gq, 20>> >>
                            [] ev.t = "BandpassPeak" -> << <<0, 5>>, <<g, 20>> >>
                            [] ev.t = "Lowshelf" -> << <<g, 20>>, <<(lo * ev.g1 * ev.g1) \div (ev.g2 * ev.g2), 15 + (5 * ev.g1 * ev.g1) \div (ev.g2 * ev.g2)>> >>
                            [] OTHER -> << <<10000, 20>>, <<ny(ev.g1, ev.g2), 15 + (5 * ev.g1 * ev.g1) \div (ev.g2 * ev.g2)>> >> >>)
      [] ev.op = "weight" -> Ok(st, << Tol(IF ev.a THEN WtA ELSE WtC, 2) >>)
      \* gain at the frequency (1e-4), then slope in 1e-2 dB for each octave
      [] ev.op = "pink" -> Ok(st, << << <<10000, 2>> >> \o [i \in 1..6 |-> <<-301, 60>>] >>)
      [] ev.op = "thiran" -> LET a == Thiran(ev.ord, ev.p, ev.q)
                             IN  Ok(st, << Tol(a, 40), Tol(Rev(a), 40), << <<Rnd(10000 * (ev.ord * ev.q + ev.p), ev.q), 10>> >> >>)
      [] ev.op = "gauss" -> Ok(st, << Tol(Poles([j \in 1..ev.len |-> IF j = 1 THEN 1000000 ELSE 0], ev.m, ev.K), 40) >>)
      \* magnitudes, group delays (samples per bin)
      [] ev.op = "fird" ->
            LET g == TLCEval([i \in 1..Len(ev.d) |-> (9600 \div ev.n) * ev.d[i]])
                ph == TLCEval(Trap(g, <<>>, 1))
                len == IF ev.add < 0 THEN ev.n ELSE MaxOf(ev.d) + 2 + ev.add
            IN  Ok(st, << Tol(Synth(ev.mag, ph, ev.n, len), 3 + SumSeq(ev.mag) \div 2) >>)
      \* phase in 1/9600 turn, delay increase inc (0: none, 1: 100 %)
      [] ev.op = "lin" ->
            LET g == TLCEval(Grad2(ev.ph))
                m == TLCEval(MaxOf(g)) * (1 + ev.inc)
                t == TLCEval([i \in 1..Len(g) |-> m - g[i]])
                tr == TLCEval(Trap(t, <<>>, 1))
                ph == TLCEval([i \in 1..Len(g) |-> Rnd(tr[i], 2)])
            IN  Ok(st, << Tol(Synth(Const(Len(ev.ph), 1), ph, ev.n, ev.n), 10 + Len(g)) >>)
      [] ev.op = "ar" -> LET r == Ok(st, [l \in 1..(ev.order + 1) |-> Acf(ev.x, l - 1)]) IN [r EXCEPT !.out = [ok |-> TRUE, kind |-> "yw", res |-> r.out.res]]

CloseV(e, o) == LET d == o - e[1] IN d <= e[2] /\ -d <= e[2]
DsMatch(out, ob) ==
    /\ "ok" \in DOMAIN ob /\ ob.ok = out.ok
    /\ out.ok => IF "kind" \in DOMAIN out THEN Len(ob.res) = 2 /\ YwHolds(out.res, ob.res[1]) /\ ob.res[2] = <<10000>>
                 ELSE /\ Len(out.res) = Len(ob.res)
                      /\ \A i \in 1..Len(out.res) : Len(out.res[i]) = Len(ob.res[i]) /\ \A j \in 1..Len(out.res[i]) : CloseV(out.res[i][j], ob.res[i][j])
DsInv(st) == st.sound

DsStarts == {[i |-> 0]}
Types == {"Lowpass", "Highpass", "BandpassSkirt", "BandpassPeak", "Notch", "Allpass", "LowpassFirstOrder", "HighpassFirstOrder", "AllpassFirstOrder"}
DsEvents(st) ==
    {[op |-> "bq", t |-> t, k0 |-> k, n |-> 8, g1 |-> g[1], g2 |-> g[2], q |-> q] : t \in Types, k \in {1, 3, 6}, g \in {<<1, 1>>, <<1, 2>>, <<3, 1>>}, q \in {5, 10, 20}}
    \cup {[op |-> "bq", t |-> t, k0 |-> k, n |-> 10, g1 |-> g[1], g2 |-> g[2], q |-> q] : t \in {"Peaking", "Lowshelf", "Highshelf"}, k \in {1, 4, 7}, g \in {<<1, 1>>, <<2, 3>>, <<3, 2>>}, q \in {6, 12}}
    \cup {[op |-> "iir", meth |-> m, pass |-> p[1], ks |-> p[2], n |-> 10, ord |-> o, e |-> e] :
            m \in {"Butterworth", "Chebyshev1", "Chebyshev2"}, p \in {<<"Lowpass", <<3>>>>, <<"Highpass", <<4>>>>, <<"Bandpass", <<2, 6>>>>, <<"Bandstop", <<3, 6>>>>}, o \in 1..4, e \in {50, 250}}
    \cup {[op |-> "fir", pass |-> p[1], ks |-> p[2], n |-> 8, ord |-> o, win |-> w] :
            p \in {<<"Lowpass", <<3>>>>, <<"Highpass", <<4>>>>, <<"Bandpass", <<2, 5>>>>, <<"Bandstop", <<3, 6>>>>}, o \in {4, 10, 16}, w \in {"Hamming", "Hann", "Boxcar"}}
    \cup {[op |-> o, kind |-> "ba", b |-> b, a |-> a, ks |-> <<0, 1, 3, 5>>] : o \in {"rep", "gd"}, b \in {<<3>>, <<1, 2, 5>>, <<4, 1, -1, 1>>}, a \in {<<1>>, <<2, 0>>, <<4, 1>>, <<4, -1, 1>>}}
    \cup {[op |-> o, kind |-> "zpk", z |-> z, p |-> p, k |-> 3, ks |-> <<0, 1, 3, 5>>] : o \in {"rep", "gd"}, z \in {<<>>, <<2>>, <<-3, 1>>}, p \in {<<2, -1>>, <<1, 2, 3>>}}
    \cup {[op |-> o, kind |-> "sos", sec |-> s, ks |-> <<0, 1, 3, 5>>] : o \in {"rep", "gd"}, s \in {<<<<1, 0, 3, 1, 0, 0>>>>, <<<<4, 1, 0, 1, 0, 0>>, <<2, 1, 5, 1, 0, 0>>>>}}
    \cup {[op |-> "matched", t |-> t, k0 |-> k, n |-> 10, g1 |-> g[1], g2 |-> g[2], q |-> q] :
            t \in {"Peaking", "Lowpass", "Highpass", "BandpassPeak", "Lowshelf", "Highshelf"}, k \in {1, 3, 6}, g \in {<<2, 1>>, <<1, 2>>}, q \in {5, 7, 15}}
    \cup {[op |-> "weight", a |-> a, fs |-> f] : a \in BOOLEAN, f \in {192000, 384000}}
    \cup {[op |-> "pink", f |-> f, fs |-> 48000] : f \in {100, 1000, 20000}}
    \cup {[op |-> "thiran", ord |-> o, p |-> p, q |-> 10] : o \in 1..4, p \in {1, 3, 5, 9}}
    \cup {[op |-> "gauss", m |-> m, K |-> K, len |-> 12] : m \in {2, 5, 8}, K \in {1, 2, 4}}
    \cup {[op |-> "fird", mag |-> [i \in 1..(n \div 2 + 1) |-> 1 + (i % m)], d |-> [i \in 1..(n \div 2 + 1) |-> (i \div d) % 4], n |-> n, add |-> a] : n \in {60, 96}, m \in 1..3, d \in {40, 7}, a \in {-1, 0, 5}}
    \cup {[op |-> "ar", x |-> <<5, 3, -2, 1, 1, -1, 2>>, order |-> o] : o \in 1..4}
=============================================================================
