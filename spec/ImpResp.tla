------------------------------ MODULE ImpResp ------------------------------
(***************************************************************************)
(* Impulse responses: convolution and deconvolution, conversion to filters *)
(* and back, windowing, trimming, averaging, minimum-phase versions, group *)
(* delays, transfer-function estimates.                                    *)
(*                                                                         *)
(* Channels are sequences of integers.  Exact transforms at every bin come *)
(* from sequences whose nonzero elements sit at multiples of m: their      *)
(* transform over 4m points has period 4 and is a Gaussian integer.        *)
(* The state is the family of spectrum settings the signals carry, on      *)
(* which nothing may depend.                                               *)
(***************************************************************************)
EXTENDS Base

Rnd(a, b) == a \div b + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
RndS(a, b) == IF b < 0 THEN Rnd(-a, -b) ELSE Rnd(a, b)
At(c, i) == IF i >= 1 /\ i <= Len(c) THEN c[i] ELSE 0          \* 1-based
Conv(x, h) == [t \in 1..(Len(x) + Len(h) - 1) |->
                 SumTo([j \in 1..Len(h) |-> h[j] * At(x, t + 1 - j)], Len(h))]
PeakVal(c) == LET v == {Abs(c[i]) : i \in 1..Len(c)} IN CHOOSE m \in v : \A w \in v : w <= m
PeakPos(c) == LET p == PeakVal(c) IN CHOOSE i \in 1..Len(c) : Abs(c[i]) = p /\ \A j \in 1..(i - 1) : Abs(c[j]) < p

(* --- transforms of sequences on multiples of m (4 values) ----------------- *)
(* <<re, im>> of sum v[j] (-i)^(k (j-1)) *)
Q4(v, k) == LET a == k % 4
                re(j) == LET p == (a * (j - 1)) % 4 IN IF p = 0 THEN v[j] ELSE IF p = 2 THEN -v[j] ELSE 0
                im(j) == LET p == (a * (j - 1)) % 4 IN IF p = 1 THEN -v[j] ELSE IF p = 3 THEN v[j] ELSE 0
            IN  << SumTo([j \in 1..Len(v) |-> re(j)], Len(v)), SumTo([j \in 1..Len(v) |-> im(j)], Len(v)) >>
Sq(z) == z[1] * z[1] + z[2] * z[2]
MulC(y, x) == << y[1] * x[1] + y[2] * x[2], y[2] * x[1] - y[1] * x[2] >>      \* y conj x

(* --- flanks of windows in 1e-4: rising, k of L ----------------------------- *)
Cos8 == <<10000, 7071, 0, -7071>>
Hann(k, L) == IF k = L THEN 10000 ELSE CASE L = 1 -> 0
                [] L = 2 -> IF k = 0 THEN 0 ELSE 5000
                [] L = 3 -> IF k = 0 THEN 0 ELSE IF k = 1 THEN 2500 ELSE 7500
                [] L = 4 -> <<0, 1464, 5000, 8536>>[k + 1]
                [] L = 6 -> <<0, 670, 2500, 5000, 7500, 9330>>[k + 1]
                [] OTHER -> -1
Flank(w, k, L) == CASE w = "Boxcar" -> 10000
                    [] w = "Bartlett" -> Rnd(10000 * k, L)
                    [] w = "Hann" -> Hann(k, L)
Known(w, L) == w # "Hann" \/ L \in {0, 1, 2, 3, 4, 6}
(* window over T samples: flanks [0, a), [b, T) *)
Tukey(T, a, b, wl, wr, start) ==
    [t \in 1..T |-> IF t - 1 < a THEN (IF start THEN Flank(wl, t - 1, a) ELSE 10000)
                    ELSE IF t - 1 < b THEN 10000
                    ELSE IF T - b = 1 THEN 10000
                    ELSE Flank(wr, T - b - (t - 1 - b), T - b)]

(* --- windows ---------------------------------------------------------------- *)
Flanks(ev, T) == ((ev.cd - ev.cn) * T) \div ev.cd
(* <<valid, window, start, position shown>> *)
WinIr(c, ev) ==
    LET T == ev.T
        F == Flanks(ev, T)
        left == (F * ev.rn) \div (2 * ev.rd)
        right == Max2(F - left, 0)
        pk == PeakPos(c) - 1
    IN  IF ~ev.adaptive
        THEN LET s == pk - ev.off - left
                 okc == left <= T - right
                 w == Tukey(T, left, T - right, ev.wl, ev.wr, ev.start)
             IN  << okc, IF okc THEN [t \in 1..T |-> IF s + t >= 1 /\ s + t <= Len(c) THEN w[t] ELSE 0] ELSE <<>>, s, Abs(s) >>
        ELSE LET s == Max2(0, pk - ev.off - left)
                 l2 == IF pk - ev.off - left < 0 THEN Max2(0, pk - ev.off) ELSE left
                 T2 == Min2(T, Len(c) - s)
                 r2 == IF l2 + ev.off > T2 - right THEN T2 - l2 - ev.off - 1 ELSE right
                 okc == r2 >= 0 /\ l2 <= T2 - r2
                 w == Tukey(T2, l2, T2 - r2, ev.wl, ev.wr, ev.start)
             IN  << okc, IF okc THEN [t \in 1..T |-> IF t <= T2 THEN w[t] ELSE 0] ELSE <<>>, s, s >>
Center(c, T, wt) ==
    LET n == Len(c)
        half == T \div 2
        pk == PeakPos(c) - 1
        W(j) == IF j < 0 \/ j > 2 * half THEN 0
                ELSE IF wt = "Boxcar" THEN 10000 ELSE Rnd(10000 * (half - Abs(j - half)), half)
        s == IF pk > half THEN n - Max2(0, n - 1 - pk - half) - T ELSE Max2(0, pk - half)
    IN  << TRUE, [t \in 1..T |-> W(s + (t - 1) - pk + half)], s, s >>
Applied(c, w, s) == [t \in 1..Len(w) |-> Rnd(w[t] * At(c, s + t), 10)]         \* in 1e-3

(* --- minimum phase: product of factors <<a, b>> ------------------------------ *)
RECURSIVE Prod(_, _)
Prod(fs, n) == IF n = 0 THEN <<1>> ELSE Conv(Prod(fs, n - 1), fs[n])
Lead(f) == IF Abs(f[2]) > Abs(f[1]) THEN <<f[2], f[1]>> ELSE f
MinPh(fs) == LET p == Prod([i \in 1..Len(fs) |-> Lead(fs[i])], Len(fs))
             IN  IF p[1] < 0 THEN [i \in 1..Len(p) |-> -p[i]] ELSE p

(* --- powers of two: 2^-(q/64) in 1e-6 ------------------------------------------ *)
P64 == <<1000000, 989228, 978572, 968030, 957603, 947288, 937084, 926989, 917004, 907126, 897354, 887688, 878126, 868667, 859309, 850053, 840896, 831838, 822878, 814014, 805245, 796571, 787990, 779502, 771105, 762799, 754582, 746453, 738413, 730459, 722590, 714807, 707107, 699490, 691955, 684501, 677128, 669833, 662618, 655480, 648420, 641435, 634525, 627690, 620929, 614240, 607623, 601078, 594604, 588198, 581862, 575595, 569394, 563261, 557193, 551191, 545254, 539380, 533570, 527823, 522137, 516513, 510949, 505445, 500000>>
RECURSIVE Half(_, _)
Half(v, n) == IF n = 0 THEN v ELSE Half((v + 1) \div 2, n - 1)
Pow2(num, den) ==      \* 2^-(num/den) in 1e-5
    LET w == num \div den
        r == num % den
        i == (64 * r) \div den
        fr == (100 * ((64 * r) % den)) \div den
        v == P64[i + 1] - ((P64[i + 1] - P64[i + 2]) * fr) \div 100
    IN  IF w > 24 THEN 0 ELSE Rnd(Half(v, w), 10)

(* --- the operations ---------------------------------------------------------------- *)
Tol(v, t) == <<v, t>>
Exact1(c) == [i \in 1..Len(c) |-> <<c[i], 0>>]

Convolve(ev) ==
    LET n == Len(ev.b[1])
        full == TLCEval([k \in 1..Len(ev.b) |-> Conv(ev.b[k], ev.h)])
        y == TLCEval([k \in 1..Len(ev.b) |-> IF ev.keep THEN SubSeq(full[k], 1, n) ELSE full[k]])
    IN  IF ev.peak
        THEN [k \in 1..Len(y) |-> LET po == PeakVal(ev.b[k]) pn == PeakVal(y[k])
                                  IN  [t \in 1..Len(y[k]) |-> <<Rnd(y[k][t] * po * 100, pn), 2>>]]
        ELSE [k \in 1..Len(y) |-> [t \in 1..Len(y[k]) |-> <<y[k][t] * 100, 0>>]]

(* one channel of a regularised deconvolution: bins 0..2m *)
Root2(k) == Rnd(k * 7071, 10000)
Auto(X, m, th) ==      \* th + 1/2 thousandths of the maximum, squared; 1: the default, one
    LET v == {Sq(X[k]) : k \in 1..(2 * m + 1)}
        mx == CHOOSE a \in v : \A b \in v : b <= a
        ids == {k \in 0..(2 * m) : Sq(X[k + 1]) * 2000 > mx * (IF th = 1 THEN 2 ELSE 2 * th + 1)}
    IN  << CHOOSE k \in ids : \A j \in ids : k <= j, CHOOSE k \in ids : \A j \in ids : k >= j >>
Edges(X, m, ev) ==
    IF Len(ev.band) = 4 THEN ev.band
    ELSE LET b == IF Len(ev.band) = 2 THEN ev.band ELSE Auto(X, m, ev.th)
         IN  << Root2(b[1]), b[1], b[2], Min2(2 * m, Rnd(b[2] * 14142, 10000)) >>
EpsAt(e, k) ==      \* regularisation in 1e-3 at bin k
    LET w == IF k < e[1] THEN 0
             ELSE IF k < e[2] THEN Hann(k - e[1], e[2] - e[1])
             ELSE IF k < e[3] THEN 10000
             ELSE IF k < e[4] THEN (IF e[4] - e[3] = 1 THEN 10000 ELSE Hann(e[4] - k, e[4] - e[3]))
             ELSE 0
    IN  IF w < 0 THEN -1 ELSE Rnd((10000 - w) * 31623, 10000)
Reg(x, y, ev) ==
    LET X == TLCEval([k \in 1..(2 * ev.m + 1) |-> Q4(x, k - 1)])
        Y == TLCEval([k \in 1..(2 * ev.m + 1) |-> Q4(y, k - 1)])
        e == TLCEval(Edges(X, ev.m, ev))
        val(z, k) == LET ep == EpsAt(e, k - 1)
                         d == 1000 * Sq(X[k]) + ep
                     IN  IF ep < 0 \/ d < 300 THEN <<0, 2000000000>>
                         ELSE LET v == RndS(z * 100000, Rnd(d, 10)) IN <<v, 2 + Abs(v) \div 150>>       \* in 1e-3
    IN  [k \in 1..(2 * ev.m + 1) |-> LET z == MulC(Y[k], X[k]) IN << val(z[1], k), val(z[2], k) >>]

(* transfer functions: frames of four samples, step 4 or 2 *)
Frame4(c, st, j) == << At(c, (j - 1) * st + 1), At(c, (j - 1) * st + 2), At(c, (j - 1) * st + 3), At(c, (j - 1) * st + 4) >>
NFr(c, st) == (Len(c) + st - 1) \div st
(* sum of conj X Y over the frames *)
Gsum(x, y, st, k) ==
    LET n == NFr(x, st)
        p == TLCEval([j \in 1..n |-> MulC(Q4(Frame4(y, st, j), k), Q4(Frame4(x, st, j), k))])
    IN  << SumTo([j \in 1..n |-> p[j][1]], n), SumTo([j \in 1..n |-> p[j][2]], n) >>
(* 1000 p v / q *)
H2V(p, v, q) == LET a == RndS(p * v * 100, q) IN 10 * a
TfBin(x, y, st, mode, k) ==
    LET gxx == Gsum(x, x, st, k)[1]
        gyy == Gsum(y, y, st, k)[1]
        g == TLCEval(Gsum(x, y, st, k))
        gg == Sq(g)
        bad == << <<0, 2000000000>>, <<0, 2000000000>>, <<0, 2000000000>> >>
        coh == Rnd(1000 * gg, gxx * gyy)
    IN  IF gxx = 0 \/ gyy = 0 \/ gg = 0 THEN bad
        ELSE CASE mode = "H1" -> << <<RndS(1000 * g[1], gxx), 1>>, <<RndS(1000 * g[2], gxx), 1>>, <<coh, 1>> >>
               [] mode = "H2" -> << <<H2V(gyy, g[1], gg), 6 + Abs(H2V(gyy, g[1], gg)) \div 400>>,
                                    <<H2V(gyy, g[2], gg), 6 + Abs(H2V(gyy, g[2], gg)) \div 400>>, <<coh, 1>> >>
               [] mode = "H3" -> LET b == Rnd(1000 * gyy, gxx)
                                     p(v) == LET a == Rnd(1000 * v * v, gg) IN Rnd(a * b, 1000) * (IF v < 0 THEN -1 ELSE 1)
                                 IN  << <<p(g[1]), 3 + b \div 500>>, <<p(g[2]), 3 + b \div 500>>, <<coh, 1>> >>

(* group delay of v on multiples of m: samples in 1e-3 *)
GroupDelay(v, m, k) ==
    LET h == Q4(v, k)
        d == Q4([j \in 1..Len(v) |-> (j - 1) * m * v[j]], k)
        n == MulC(d, h)
    IN  IF Sq(h) = 0 THEN <<0, 2000000000>> ELSE <<RndS(n[1] * 1000, Sq(h)), 1>>

(* frequency-dependent window, E: logarithm of the value at the ends *)
Fdw(v, ev, k) ==
    LET N == 4 * ev.m
        p == PeakPos(v)
        c == (2 * N * ev.cyc + k) \div (2 * k)                 \* nearest, ties are left out
        tie == (2 * N * ev.cyc + k) % (2 * k) = 0
        w == TLCEval([j \in 1..4 |-> LET d == Abs(j - p) * ev.m IN Pow2(ev.E * d * d, c * c)])
        z == Q4([j \in 1..4 |-> v[j] * w[j]], k)
    IN  IF tie THEN << <<0, 2000000000>>, <<0, 2000000000>> >>
        ELSE << <<RndS(z[1], 100), 2 + PeakVal(v)>>, <<RndS(z[2], 100), 2 + PeakVal(v)>> >>

Log2k == <<100000, 158496, 200000, 232193, 258496, 280735, 300000>>      \* of 2..8
(* position of harmonic h (0: fundamental) in a response of n samples; oct octaves in len samples *)
HarmPos(n, h, len, oct) == IF h = 0 THEN n ELSE n - Rnd(Log2k[h] * len, oct * 100000)

ImInit(i) == [set |-> i.set]
Ok(st, kind, res, more) == [st |-> st, out |-> [ok |-> TRUE, kind |-> kind, res |-> res, more |-> more]]
Fail(st) == [st |-> st, out |-> [ok |-> FALSE]]

ImStep(st, ev) ==
    CASE ev.op = "set" -> Ok([set |-> ev.set], "none", <<>>, <<>>)
      [] ev.op = "conv" -> IF Len(ev.hs) # 1 \/ ~ev.same THEN Fail(st)
                           ELSE Ok(st, "near", Convolve([ev EXCEPT !.h = ev.hs[1]]), <<>>)
      [] ev.op = "filt" ->      \* every channel with every filter of the bank
            Ok(st, "near", [k \in 1..Len(ev.b) |-> [t \in 1..Len(ev.b[1]) |->
                    <<100 * SumTo([j \in 1..Len(ev.h) |-> ev.h[j] * At(ev.b[k], t + 1 - j)], Len(ev.h)), 0>>]], <<>>)
      [] ev.op = "bank" ->
            Ok(st, "near", [f \in 1..Len(ev.hs) |-> [t \in 1..Len(ev.b[1]) |->
                    <<100 * SumTo([j \in 1..Len(ev.hs[f]) |-> ev.hs[f][j] * At(ev.b[1], t + 1 - j)], Len(ev.hs[f])), 0>>]], <<>>)
      [] ev.op = "toir" ->
            LET n == CHOOSE m \in {Len(ev.hs[f]) : f \in 1..Len(ev.hs)} : \A f \in 1..Len(ev.hs) : Len(ev.hs[f]) <= m
            IN  IF ev.iir \/ ~ev.same THEN Fail(st)
                ELSE Ok(st, "near", [f \in 1..Len(ev.hs) |-> [t \in 1..n |-> <<100 * At(ev.hs[f], t), 0>>]], <<>>)
      [] ev.op = "getir" ->
            Ok(st, "near", << [t \in 1..Max2(ev.n, Len(ev.h)) |-> <<100 * At(ev.h, t), 0>>] >>, <<>>)
      [] ev.op = "deconv" ->
            LET n == Len(ev.x[1])
            IN  IF Len(ev.x) # 1 /\ Len(ev.x) # Len(ev.h) THEN Fail(st)
                ELSE Ok(st, "near", [k \in 1..Len(ev.h) |->
                          [t \in 1..(IF ev.pad /\ ~ev.keep THEN 2 * n ELSE n) |-> <<10000 * At(ev.h[k], t), 3>>]], <<>>)
      [] ev.op = "circ" ->
            IF ev.badlen THEN Fail(st)
            ELSE Ok(st, "circ", [k \in 1..Len(ev.y) |-> [x |-> Fit(ev.x[IF Len(ev.x) = 1 THEN 1 ELSE k], Len(ev.y[1]) * (IF ev.pad THEN 2 ELSE 1)),
                                                         y |-> Fit(ev.y[k], Len(ev.y[1]) * (IF ev.pad THEN 2 ELSE 1))]], <<>>)
      [] ev.op = "reg" ->
            IF Len(ev.band) = 3 THEN Fail(st)
            ELSE Ok(st, "near3", [k \in 1..Len(ev.y) |-> Reg(ev.x[IF Len(ev.x) = 1 THEN 1 ELSE k], ev.y[k], ev)], <<>>)
      [] ev.op = "winir" ->
            LET r == TLCEval([k \in 1..Len(ev.b) |-> WinIr(ev.b[k], ev)])
                okc == \A k \in 1..Len(r) : r[k][1]
            IN  IF ev.off * ev.cd > ev.cn * ev.T \/ ~okc THEN Fail(st)
                ELSE Ok(st, "win", [k \in 1..Len(r) |-> << [t \in 1..ev.T |-> <<r[k][2][t], 2>>],
                              [t \in 1..ev.T |-> LET v == Applied(ev.b[k], r[k][2], r[k][3])[t] IN <<v, 2 + Abs(v) \div 2000>>] >>],
                            [k \in 1..Len(r) |-> r[k][4]])
      [] ev.op = "wincen" ->
            LET r == TLCEval([k \in 1..Len(ev.b) |-> Center(ev.b[k], ev.T, ev.wl)])
            IN  Ok(st, "win", [k \in 1..Len(r) |-> << [t \in 1..ev.T |-> <<r[k][2][t], 2>>],
                              [t \in 1..ev.T |-> LET v == Applied(ev.b[k], r[k][2], r[k][3])[t] IN <<v, 2 + Abs(v) \div 2000>>] >>],
                            [k \in 1..Len(r) |-> r[k][4]])
      [] ev.op = "tukey" ->
            LET n == Len(ev.b[1])
                w == TLCEval([t \in 1..n |-> IF t - 1 < ev.l THEN Flank(ev.wl, t - 1, ev.l)
                                             ELSE IF t - 1 < n - ev.r THEN 10000
                                             ELSE Flank(ev.wl, n - (t - 1), ev.r)])
            IN  IF ev.l + ev.r > n \/ (ev.l = 0 /\ ev.r = 0) THEN Fail(st)
                ELSE Ok(st, "win", [k \in 1..Len(ev.b) |-> << [t \in 1..n |-> <<w[t], 2>>],
                              [t \in 1..n |-> LET v == Applied(ev.b[k], w, 0)[t] IN <<v, 2 + Abs(v) \div 2000>>] >>], <<>>)
      [] ev.op = "trim" ->
            LET s == LET v == {Max2(0, PeakPos(ev.b[k]) - 2 - ev.off) : k \in ToSet(ev.chs)}
                     IN  CHOOSE m \in v : \A w \in v : m <= w
            IN  Ok(st, "none", <<>>, <<s>>)
      [] ev.op = "avg" ->
            IF Len(ev.d) = 1 THEN Fail(st)
            ELSE LET n == Len(ev.d)
                     far == LET v == {ev.d[k] : k \in 1..n} IN CHOOSE m \in v : \A w \in v : w <= m
                     a(k) == IF ev.norm THEN (IF ev.a[k] < 0 THEN -1 ELSE 1) * Abs(ev.a[1]) ELSE ev.a[k]
                     s == SumTo([k \in 1..n |-> a(k)], n)
                     nd == Len(ev.pulse)
                     v(t) == RndS(1000 * s * At(ev.pulse, t - far), n * ev.pulse[1])
                 IN  Ok(st, "near", << [t \in 1..ev.n |-> <<v(t), 3>>] >>, <<>>)
      [] ev.op = "latency" -> Ok(st, "near", << [k \in 1..Len(ev.d) |-> <<1000 * ev.d[k], 2>>] >>, <<>>)
      [] ev.op = "minph" ->
            Ok(st, "near", [k \in 1..Len(ev.f) |-> LET p == MinPh(ev.f[k]) IN [t \in 1..ev.n |-> <<100 * At(p, t), 1>>]], <<>>)
      [] ev.op = "minphase" ->      \* cosine and sine of the phase of the minimum-phase version against it
            Ok(st, "phase", [k \in 1..Len(ev.f) |-> LET p == MinPh(ev.f[k]) IN [b \in 1..(2 * ev.m + 1) |-> Q4(p, b - 1)]], <<>>)
      [] ev.op = "gd" ->
            Ok(st, "near", [k \in 1..Len(ev.v) |-> [b \in 1..(2 * ev.m + 1) |-> GroupDelay(ev.v[k], ev.m, b - 1)]], <<>>)
      [] ev.op = "egd" ->      \* impulses: their delay, the minimum phase has none
            Ok(st, "near", [k \in 1..Len(ev.d) |-> [b \in 1..(ev.n \div 2 + 1) |-> <<IF ev.how = "min" THEN 0 ELSE 1000 * ev.d[k], 2>>]], <<>>)
      [] ev.op = "thd" ->      \* powers of the harmonics below 4000 / k against the fundamental
            LET s == [i \in 1..Len(ev.f) |-> SumTo([k \in 1..Len(ev.a) |-> IF k > 1 /\ ev.f[i] * k < 4000 THEN ev.a[k] * ev.a[k] ELSE 0], Len(ev.a))]
            IN  Ok(st, "near", << [i \in 1..Len(ev.f) |-> <<100 * s[i], 1>>],
                                  [i \in 1..Len(ev.f) |-> <<Rnd(1000 * s[i], ev.a[1] * ev.a[1]), 1>>] >>, <<>>)
      [] ev.op = "tf" ->
            IF Len(ev.x) # 1 /\ Len(ev.x) # Len(ev.y) THEN Fail(st)
            ELSE Ok(st, "near3", [k \in 1..Len(ev.y) |-> [b \in 1..5 |->
                        TfBin(ev.x[IF Len(ev.x) = 1 THEN 1 ELSE k], ev.y[k], ev.step, ev.mode, b - 1)]], <<>>)
      [] ev.op = "magonly" ->      \* from the magnitude ev.a[k]: an impulse after ev.d samples
            Ok(st, "near", [k \in 1..Len(ev.a) |-> [t \in 1..ev.n |-> <<IF t = ev.d + 1 THEN 1000 * ev.a[k] ELSE 0, 2>>]], <<>>)
      [] ev.op = "fdw" ->
            Ok(st, "near3", [k \in 1..Len(ev.v) |-> [b \in 1..(2 * ev.m + 1) |->
                        IF b = 1 THEN << <<0, 0>>, <<0, 0>> >> ELSE Fdw(ev.v[k], ev, b - 1)]], <<>>)
      [] ev.op = "smooth" ->      \* flat magnitude stays
            Ok(st, "near3", [k \in 1..Len(ev.v) |-> [b \in 1..(2 * ev.m + 1) |->
                        LET z == Q4(ev.v[k], b - 1) IN << <<1000 * z[1], 3>>, <<1000 * z[2], 3>> >>]], <<>>)
      [] ev.op = "harm" ->
            LET p == TLCEval([h \in 1..(ev.nh + 2) |-> HarmPos(ev.n, h - 1, ev.len, ev.oct)])
                e(h) == p[h] - ((p[h] - p[h + 1]) * ev.pc) \div 100
            IN  Ok(st, "near", [h \in 1..ev.nh |-> << <<e(h + 1), 2>>, <<e(h), 2>> >>], <<>>)
      [] ev.op = "dirac" -> Ok(st, "none", <<>>, <<>>)

CloseV(e, o) == LET d == o - e[1] IN d <= e[2] /\ -d <= e[2]
Close1(e, o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : CloseV(e[i], o[i])
Close2(e, o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : Close1(e[i], o[i])
Close3(e, o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : Close2(e[i], o[i])
(* r (in 1e-4) convolved circularly with x gives y *)
Circ(e, r) == LET n == Len(e.x)
                  sx == SumTo([i \in 1..n |-> Abs(e.x[i])], n)
              IN  /\ Len(r) = n
                  /\ \A t \in 1..n : LET s == SumTo([j \in 1..n |-> e.x[j] * r[((t - j + n) % n) + 1]], n)
                                     IN  Abs(s - 10000 * e.y[t]) <= sx + 2
Phase(z, o) ==      \* o: cosine and sine in 1e-3
    \/ Sq(z) = 0
    \/ /\ o[1] * z[1] + o[2] * z[2] > 0
       /\ Abs(o[1] * z[2] - o[2] * z[1]) <= 2 * (Abs(z[1]) + Abs(z[2]))
       /\ Abs(o[1] * o[1] + o[2] * o[2] - 1000000) <= 3000
ImMatch(out, ob) ==
    /\ "ok" \in DOMAIN ob /\ ob.ok = out.ok
    /\ ob.touched = FALSE
    /\ out.ok =>
        /\ CASE out.kind = "near" -> Close2(out.res, ob.res)
             [] out.kind \in {"near3", "win"} -> Close3(out.res, ob.res)
             [] out.kind = "circ" -> Len(out.res) = Len(ob.res) /\ \A k \in 1..Len(ob.res) : Circ(out.res[k], ob.res[k])
             [] out.kind = "phase" -> /\ Len(out.res) = Len(ob.res)
                                      /\ \A k \in 1..Len(ob.res) : /\ Len(out.res[k]) = Len(ob.res[k])
                                                                   /\ \A b \in 1..Len(ob.res[k]) : Phase(out.res[k][b], ob.res[k][b])
             [] OTHER -> TRUE
        /\ ob.more = out.more

ImInv(st) == st.set \in 0..5

(* exhaustive part: settings and every operation on small responses *)
A1 == <<3, -1, 2, 0, 1>>
A2 == <<0, 1, -4, 2, 1>>
ImStarts == {[set |-> s] : s \in 0..2}
ImEvents(st) ==
    {[op |-> "set", set |-> s] : s \in 3..5}
    \cup {[op |-> "conv", b |-> b, hs |-> hs, h |-> <<>>, peak |-> p, keep |-> k, same |-> s] :
            b \in {<<A1>>, <<A1, A2>>}, hs \in {<< <<2, 1>> >>, << <<0, -1, 3>> >>, <<A1, A2>>}, p \in {TRUE, FALSE}, k \in {TRUE, FALSE}, s \in {TRUE, FALSE}}
    \cup {[op |-> "winir", b |-> <<A1, A2>>, T |-> T, cn |-> 1, cd |-> 2, off |-> o, rn |-> r, rd |-> 1, wl |-> "Bartlett", wr |-> w,
            adaptive |-> a, start |-> s] : T \in 2..9, o \in 0..3, r \in {0, 1, 2}, w \in {"Boxcar", "Bartlett"}, a \in {TRUE, FALSE}, s \in {TRUE, FALSE}}
    \cup {[op |-> "wincen", b |-> b, T |-> T, wl |-> "Bartlett"] : b \in {<<A1, A2>>, << <<1, 0, 2, -5>> >>, << <<1, 7, 2, 5, 3, 1>> >>}, T \in 2..9}
    \cup {[op |-> "tukey", b |-> <<A1, A2>>, l |-> l, r |-> r, wl |-> w] : l \in 0..3, r \in 0..4, w \in {"Boxcar", "Bartlett", "Hann"}}
    \cup {[op |-> "deconv", x |-> <<A1>>, h |-> <<A2>>, pad |-> p, keep |-> k] : p \in {FALSE}, k \in {TRUE, FALSE}}
==============================================================================
