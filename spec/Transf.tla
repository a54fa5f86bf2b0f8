------------------------------- MODULE Transf -------------------------------
(***************************************************************************)
(* Transforms: mid/side, analytic signal, Fourier sums at any frequency,   *)
(* cepstrum and its inverse, Mel bands and the features made of them,      *)
(* chroma, wavelet and variable-Q transforms, frequency warping, linear    *)
(* prediction, levels of filter-bank bands.                                *)
(***************************************************************************)
EXTENDS Base, Trig

Rnd(a, b) == a \div b + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
RndS(a, b) == IF b < 0 THEN Rnd(-a, -b) ELSE Rnd(a, b)
Get(x, i) == IF i >= 1 /\ i <= Len(x) THEN x[i] ELSE 0
SumAbs(x) == SumSeq([i \in 1..Len(x) |-> Abs(x[i])])
(* 10000 a / b for large b, digit by digit (b > 0) *)
RECURSIVE Digits(_, _, _)
Digits(r, b, n) == IF n = 0 THEN 0 ELSE ((r * 10) \div b) * (CASE n = 4 -> 1000 [] n = 3 -> 100 [] n = 2 -> 10 [] OTHER -> 1) + Digits((r * 10) % b, b, n - 1)
Frac4(a, b) == LET s == IF a < 0 THEN -1 ELSE 1
               IN  s * ((Abs(a) \div b) * 10000 + Digits(Abs(a) % b, b, 4))
LnTab == <<0, 6931, 10986, 13863, 16094, 17918, 19459, 20794, 21972, 23026, 23979, 24849, 25649, 26391, 27081, 27726, 28332, 28904, 29444, 29957, 30445, 30910, 31355, 31781, 32189, 32581, 32958, 33322, 33673, 34012, 34340, 34657, 34965, 35264, 35553, 35835, 36109, 36376, 36636, 36889, 37136, 37377, 37612, 37842, 38067, 38286, 38501, 38712, 38918, 39120, 39318, 39512, 39703, 39890, 40073, 40254, 40431, 40604, 40775, 40943, 41109, 41271, 41431, 41589>>
Ln(k) == LnTab[k]
(* decibels of the square of k, 1e-4 dB *)
Db(k) == (Ln(k) * 8686 + 500) \div 1000

Row(v, tol) == [i \in 1..Len(v) |-> <<v[i], tol>>]
Tens(v) == [i \in 1..Len(v) |-> v[i] * 10000]

(* --- mid and side: a chain of steps, forward ones halve --------------------- *)
RECURSIVE Stereo(_, _, _)
Stereo(x, dirs, i) == IF i > Len(dirs) THEN x
    ELSE LET f == IF dirs[i] THEN 2 ELSE 1
         IN  Stereo(<< [n \in 1..Len(x[1]) |-> (x[1][n] + x[2][n]) \div f], [n \in 1..Len(x[1]) |-> (x[1][n] - x[2][n]) \div f] >>, dirs, i + 1)

(* --- analytic signal ------------------------------------------------------- *)
(* kernel of the imaginary part, 1e-4 * N *)
HilKer(n) == [m \in 1..n |-> 2 * SumTo([k \in 1..((n - 1) \div 2) |-> Sin(k * (m - 1), n)], (n - 1) \div 2)]
Hil(x) == LET n == Len(x)
              g == TLCEval(HilKer(n))
          IN  [i \in 1..n |-> RndS(SumTo([j \in 1..n |-> x[j] * g[((i - j) % n) + 1]], n), n)]

(* --- Fourier sum at j/n of the sampling rate ---------------------------------- *)
DftRe(x, j, n) == SumTo([t \in 1..Len(x) |-> x[t] * Cos(j * (t - 1), n)], Len(x))
DftIm(x, j, n) == -SumTo([t \in 1..Len(x) |-> x[t] * Sin(j * (t - 1), n)], Len(x))

(* --- cepstrum of a + b at half the length -------------------------------------- *)
Cep(a, b, n) == [i \in 1..n |-> IF i = 1 THEN (Ln(a + b) + Ln(a - b)) \div 2
                                ELSE IF i = n \div 2 + 1 THEN (Ln(a + b) - Ln(a - b)) \div 2 ELSE 0]

(* --- Mel bands: edges at 700 (2^i - 1) Hz are equally spaced in Mel ------------- *)
Two(i) == CASE i = 0 -> 1 [] i = 1 -> 2 [] i = 2 -> 4 [] i = 3 -> 8 [] i = 4 -> 16 [] i = 5 -> 32 [] OTHER -> 64
Edge(i) == 700 * (Two(i) - 1)
(* nearest bin of a grid of g Hz, the lower one when in the middle *)
Bin(i, g) == (2 * Edge(i) + g - 1) \div (2 * g)
(* band n of the bands starting at edge s: value at bin k (from 0), 1e-4 *)
MelBand(s, n, g, m, norm) ==
    LET lo == Bin(s + n - 1, g)
        c == Bin(s + n, g)
        hi == Bin(s + n + 1, g)
        u == c - lo
        d == hi - c
        area2 == (IF u > 0 THEN u - 1 ELSE 0) + (IF d > 0 THEN d + 1 ELSE 0)
        val(num, den) == IF norm THEN (IF area2 = 0 THEN 0 ELSE Rnd(20000 * num, den * area2)) ELSE Rnd(10000 * num, den)
    IN  [i \in 1..(m + 1) |-> LET k == i - 1 IN IF k >= lo /\ k < c THEN val(k - lo, u)
                                              ELSE IF k >= c /\ k < hi THEN val(hi - k, d) ELSE 0]

(* --- spectrum of a signal of period four: L/4 times these, at 0, fs/4, fs/2 ------ *)
P0(x) == Abs(x[1] + x[2] + x[3] + x[4])
P1(x) == (x[1] - x[3]) * (x[1] - x[3]) + (x[2] - x[4]) * (x[2] - x[4])
P2(x) == Abs(x[1] - x[2] + x[3] - x[4])

(* --- wavelets ------------------------------------------------------------------- *)
Same(x, h) == [i \in 1..Len(x) |-> SumTo([j \in 1..Len(h) |-> h[j] * Get(x, i + (Len(h) - 1) \div 2 - j + 1)], Len(h))]

(* --- warping, data in 1e-4, factors in tenths ------------------------------------- *)
RECURSIVE AllPass(_, _, _, _)
(* (b + z^-1) / (1 + b z^-1) *)
AllPass(x, b, y, i) == IF i > Len(x) THEN y
    ELSE AllPass(x, b, TLCEval(Append(y, RndS(b * x[i] + 10 * Get(x, i - 1) - b * Get(y, i - 1), 10))), i + 1)
RECURSIVE WarpSum(_, _, _, _)
WarpSum(x, l, d, i) == IF i > Len(x) THEN Zeros(Len(x))
    ELSE LET r == WarpSum(x, l, AllPass(d, -l, <<>>, 1), i + 1) IN [k \in 1..Len(x) |-> r[k] + x[i] * d[k]]
Warped(x, l) == WarpSum(x, l, [i \in 1..Len(x) |-> IF i = 1 THEN 10000 ELSE 0], 1)
RECURSIVE LagRec(_, _, _)
LagRec(x, l, i) == IF i = 0 THEN <<>> ELSE <<x[Len(x)]>> \o LagRec(AllPass(x, l, <<>>, 1), l, i - 1)
Root(l) == CASE Abs(l) = 6 -> 8 [] Abs(l) = 8 -> 6 [] OTHER -> 10         \* sqrt(1 - l^2) in tenths
RECURSIVE OnePole(_, _, _, _)
OnePole(x, l, y, i) == IF i > Len(x) THEN y
    ELSE OnePole(x, l, TLCEval(Append(y, RndS(Root(l) * x[i] - l * Get(y, i - 1), 10))), i + 1)
Lag(x, l) == LagRec(OnePole(Tens(Rev(x)), l, <<>>, 1), l, Len(x))
(* a root p (tenths) is moved by a factor l (tenths): 1e-4 *)
Moved(p, l) == RndS(100000 * (p + l), 100 + p * l)
RECURSIVE Ordered(_)
Ordered(s) == IF s = <<>> THEN <<>>
              ELSE LET m == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i] <= s[j]
                   IN  <<s[m]>> \o Ordered(SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s)))
MovedAll(ps, l, n) == Ordered([i \in 1..n |-> IF i <= Len(ps) THEN Moved(ps[i], l) ELSE l * 1000])

(* --- linear prediction ---------------------------------------------------------- *)
Frame(x, k, w, h) == [i \in 1..w |-> Get(x, (k - 1) * h + i)]
NFrames(x, w, h) == (Len(x) - w - 1) \div h + 1
Acf(f, l) == SumTo([i \in 1..(Len(f) - l) |-> f[i] * f[i + l]], Len(f) - l)
(* Yule-Walker: what the coefficients and the variance have to satisfy *)
Acfs(f, order) == [l \in 1..(order + 1) |-> Acf(f, l - 1)]
Normal(r, a, i) == SumTo([k \in 1..Len(r) |-> (IF k = 1 THEN 10000 ELSE a[k]) * r[Abs(i + 1 - k) + 1]], Len(r))
YwHolds(r, len, a) ==
    /\ Len(a) = Len(r) + 1 /\ a[1] = 10000
    /\ \A k \in 1..Len(a) : Abs(a[k]) <= 400000
    /\ \A i \in 1..(Len(r) - 1) : Abs(Normal(r, a, i)) <= SumAbs(r) + 2
    /\ Abs(Normal(r, a, 0) - a[Len(a)] * len) <= SumAbs(r) + len + 2
(* Burg's lattice, data in 1/200, coefficients and variance in 1e-4 *)
RECURSIVE BurgRec(_, _, _, _, _)
BurgRec(f, b, a, v, m) ==
    IF m = 0 THEN a \o <<v>>
    ELSE LET n == Len(f)
             k == Frac4(-2 * SumTo([i \in 1..n |-> f[i] * b[i]], n), SumTo([i \in 1..n |-> f[i] * f[i] + b[i] * b[i]], n))
             fw == TLCEval([i \in 1..n |-> f[i] + RndS(k * b[i], 10000)])
             bw == TLCEval([i \in 1..n |-> b[i] + RndS(k * f[i], 10000)])
             a2 == TLCEval([i \in 1..(Len(a) + 1) |-> Get(a, i) + RndS(k * Get(a, Len(a) + 2 - i), 10000)])
             q == 10000 - Rnd(k * k, 10000)
         IN  BurgRec(SubSeq(fw, 2, n), SubSeq(bw, 1, n - 1), a2, (v \div 10000) * q + Rnd((v % 10000) * q, 10000), m - 1)
Burg(f, order) == LET n == Len(f)
                      g == [i \in 1..n |-> 200 * f[i]]
                  IN  BurgRec(SubSeq(g, 2, n), SubSeq(g, 1, n - 1), <<10000>>, Frac4(Acf(f, 0), n), order)

Ok(st, res) == [st |-> [n |-> st.n + 1, sound |-> st.sound], out |-> [ok |-> TRUE, res |-> res]]
Fail(st) == [st |-> [n |-> st.n + 1, sound |-> st.sound], out |-> [ok |-> FALSE]]
TrInit(i) == [n |-> 0, sound |-> TRUE]
TrStep(st, ev) ==
    CASE ev.op = "bad" -> Fail(st)
      [] ev.op = "ms" ->
            LET y == TLCEval(Stereo(<<Tens(ev.x[1]), Tens(ev.x[2])>>, ev.dirs, 1))
                r == Ok(st, <<Row(y[1], 0), Row(y[2], 0)>>)
                half == \A i \in 1..Len(ev.dirs) : ev.dirs[i] = (i % 2 = 1)
            IN  [r EXCEPT !.st.sound = st.sound /\ (half /\ Len(ev.dirs) % 2 = 0 => y = <<Tens(ev.x[1]), Tens(ev.x[2])>>)]
      [] ev.op = "hil" -> Ok(st, [j \in 1..(2 * Len(ev.x)) |->
                                     LET x == ev.x[(j + 1) \div 2] IN IF j % 2 = 1 THEN Row(Tens(x), 0) ELSE Row(Hil(x), SumAbs(x) + 2)])
      [] ev.op = "dft" -> Ok(st, [j \in 1..(2 * Len(ev.x)) |->
                                     LET x == ev.x[(j + 1) \div 2]
                                     IN  Row([i \in 1..Len(ev.j) |-> IF j % 2 = 1 THEN DftRe(x, ev.j[i], ev.n) ELSE DftIm(x, ev.j[i], ev.n)], SumAbs(x) + 2)])
      [] ev.op = "cep" -> Ok(st, [c \in 1..Len(ev.a) |-> Row(Cep(ev.a[c], ev.b[c], ev.n), 2)])
      [] ev.op = "cepback" -> Ok(st, [c \in 1..Len(ev.x) |-> Row(Tens(ev.x[c]), 1)])
      [] ev.op = "mel" ->
            LET b == TLCEval([n \in 1..ev.bands |-> MelBand(ev.s, n, ev.g, ev.m, ev.norm)])
                r == Ok(st, [n \in 1..ev.bands |-> Row(b[n], 1)] \o << [n \in 1..ev.bands |-> <<(78117284 * (ev.s + n)) \div 10000, 2>>] >>)
            IN  [r EXCEPT !.st.sound = st.sound /\ (ev.norm => \A n \in 1..ev.bands : LET a == SumSeq(b[n]) IN a = 0 \/ Abs(a - 10000) <= Len(b[n]))]
      \* powers of the Mel bands of a signal with components at 0, fs/4 and fs/2
      [] ev.op = "logmel" ->
            Ok(st, [c \in 1..Len(ev.x) |-> [n \in 1..ev.bands |->
                    LET b == MelBand(ev.s, n, ev.g, ev.L \div 2, TRUE)
                        x == ev.x[c]
                    IN  <<b[1] * P0(x) * P0(x) + b[ev.L \div 4 + 1] * P1(x) + b[ev.L \div 2 + 1] * P2(x) * P2(x),
                          P0(x) * P0(x) + P1(x) + P2(x) * P2(x)>>]])
      \* coefficients of two bands that hold the components at 0 and fs/2
      [] ev.op = "mfcc" -> Ok(st, [c \in 1..Len(ev.x) |->
            LET a == Db(P0(ev.x[c])) + Db(ev.L \div 4)
                b == Db(P2(ev.x[c])) + Db(ev.L \div 4)
            IN  << <<2 * (a + b), 40>>, <<(Abs(a - b) \div 100) * 141 + ((Abs(a - b) % 100) * 1414) \div 1000 + ((Abs(a - b) \div 100) * 4214) \div 10000, 40>> >>])
      [] ev.op = "chroma" -> Ok(st, [c \in 1..Len(ev.x) |->
            LET p1 == P1(ev.x[c])
                p2 == P2(ev.x[c]) * P2(ev.x[c])
                up == ev.k + 12 <= 127
            IN  [i \in 1..12 |-> IF i = (ev.k % 12) + 1 THEN <<10000 * (p1 + (IF up THEN p2 ELSE 0)), 2>> ELSE <<0, 2>>]
                \o << <<10000 * p1, 2>>, <<IF up THEN 10000 * p2 ELSE 0, 2>>, <<0, 2>> >>])
      [] ev.op = "cwt" -> Ok(st, [j \in 1..(2 * Len(ev.w) * Len(ev.ch)) |->
            LET i == (j + 1) \div 2
                w == ev.w[(i - 1) \div Len(ev.ch) + 1]
                x == ev.x[ev.ch[((i - 1) % Len(ev.ch)) + 1]]
            IN  Row(Tens(Same(x, IF j % 2 = 1 THEN w.re ELSE w.im)), 1)])
      [] ev.op = "warp" -> Ok(st, [c \in 1..Len(ev.x) |->
            Row(Warped(IF ev.len = 0 THEN ev.x[c] ELSE [i \in 1..ev.len |-> Get(ev.x[c], i)], ev.l), 12 + 3 * SumAbs(ev.x[c]))])
      [] ev.op = "lag" -> Ok(st, [c \in 1..Len(ev.x) |-> Row(Lag(ev.x[c], ev.l), 60)])
      [] ev.op = "back" -> Ok(st, [c \in 1..Len(ev.x) |-> Row(Tens(ev.x[c]), 1) \o << <<0, 1>> >>])
      [] ev.op = "warpf" -> LET n == Max2(Len(ev.z), Len(ev.p))
                            IN  Ok(st, << Row(MovedAll(ev.z, ev.l, n), 2), Row(MovedAll(ev.p, ev.l, n), 2), << <<ev.k * 10000, 1>> >> >>)
      [] ev.op = "lpc" ->
            LET n == NFrames(ev.x[1], ev.w, ev.h)
                fr(j) == Frame(ev.x[(j - 1) \div n + 1], ((j - 1) % n) + 1, ev.w, ev.h)
                r == Ok(st, [j \in 1..(Len(ev.x) * n) |->
                        IF ev.burg THEN LET v == Burg(fr(j), ev.order) IN [i \in 1..Len(v) |-> <<v[i], IF i = Len(v) THEN 300 + v[i] \div 50 ELSE 400>>]
                        ELSE LET v == Acfs(fr(j), ev.order) IN [i \in 1..Len(v) |-> <<v[i], ev.w>>]])
            IN  IF ev.burg THEN r ELSE [r EXCEPT !.out = [ok |-> TRUE, kind |-> "yw", res |-> r.out.res]]
      \* a tone at one of the bins: the bin, its frequency in tenths of a cent from a4, its level, the other channels
      [] ev.op = "vqt" ->
            LET rows == ev.bpo * (ev.oct[2] - ev.oct[1] + 1)
            IN  Ok(st, << <<<<rows, 0>>>> >> \o [c \in 1..Len(ev.ch) |->
                    IF ev.ch[c] = ev.at THEN << <<ev.bin, 0>>, <<12000 * (ev.oct[2] - 4) + 2000 - (12000 * (rows - 1 - ev.bin)) \div ev.bpo, 1>>, <<5000, 600>> >>
                    ELSE << <<0, 2000000000>>, <<0, 2000000000>>, <<0, 1>> >>])
      \* tones of amplitude g at separate frequencies, one per channel: RMS of every band
      [] ev.op = "levels" -> Ok(st, [c \in 1..Len(ev.g) |-> [i \in 1..Len(ev.f) |->
                    IF i = ev.at[c] THEN <<(7071 * ev.g[c]) \div 1, 400 * ev.g[c]>> ELSE <<0, 250 * ev.g[c]>>]])
      \* wavelet transform of tones at the middle one of three frequencies
      [] ev.op = "tone" -> Ok(st, [c \in 1..Len(ev.g) |-> << <<0, 100 * ev.g[c]>>, <<5000 * ev.g[c], 100 * ev.g[c]>>, <<0, 100 * ev.g[c]>> >>])

CloseV(e, o) == LET d == o - e[1] IN d <= e[2] /\ -d <= e[2]
TrMatch(out, ob) ==
    /\ "ok" \in DOMAIN ob /\ ob.ok = out.ok
    /\ out.ok => /\ Len(out.res) = Len(ob.res)
                 /\ IF "kind" \in DOMAIN out
                    THEN \A i \in 1..Len(out.res) : YwHolds([l \in 1..Len(out.res[i]) |-> out.res[i][l][1]], out.res[i][1][2], ob.res[i])
                    ELSE \A i \in 1..Len(out.res) : Len(out.res[i]) = Len(ob.res[i]) /\ \A j \in 1..Len(out.res[i]) : CloseV(out.res[i][j], ob.res[i][j])
(* mid/side and back is the identity; areas of normalized bands are one *)
TrInv(st) == st.sound

TrStarts == {[i |-> 0]}
Sig(n) == [i \in 1..n |-> ((i * i * 7 + 3 * i) % 11) - 5]
Imp(n, p) == [i \in 1..n |-> IF i = p THEN 3 ELSE 0]
Fours == {<<3, 1, 2, 1>>, <<1, -2, 4, 2>>, <<5, 0, 1, 1>>}
TrEvents(st) ==
    {[op |-> "ms", x |-> <<Sig(n), Imp(n, 2)>>, dirs |-> d] : n \in 2..5, d \in {<<TRUE>>, <<FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE, FALSE>>}}
    \cup {[op |-> "hil", x |-> <<Sig(n), Imp(n, 2)>>, mb |-> m] : n \in 2..24, m \in BOOLEAN}
    \cup {[op |-> "dft", x |-> <<Sig(m), Imp(m, 3)>>, j |-> <<0, 1, 3, n \div 2>>, n |-> n] : m \in 4..9, n \in {7, 8, 16, 25}}
    \cup {[op |-> "cep", a |-> <<a, a + 1>>, b |-> <<b, -b>>, n |-> n, cplx |-> c] : a \in {5, 9}, b \in 0..4, n \in {2, 4, 10}, c \in BOOLEAN}
    \cup {[op |-> "mel", s |-> s, bands |-> b, g |-> g, m |-> 75, norm |-> r] : s \in 0..1, b \in 1..2, g \in {150, 175, 350, 700, 1300}, r \in BOOLEAN}
    \cup {[op |-> "logmel", x |-> <<x, <<1, 2, 3, 1>>>>, s |-> s, bands |-> b, g |-> g, L |-> 16] : x \in Fours, s \in {0, 1}, b \in {1, 2}, g \in {1500, 2000, 2700}}
    \cup {[op |-> "mfcc", x |-> <<x, <<1, 2, 3, 1>>>>, L |-> L] : x \in Fours, L \in {16, 32}}
    \cup {[op |-> "chroma", x |-> <<x, <<1, 2, 3, 1>>>>, k |-> k, off |-> off, L |-> 16, comp |-> c] : x \in Fours, k \in {57, 69, 110, 120}, c \in {1, 5}, off \in {-40, 0, 40}}
    \cup {[op |-> "cwt", x |-> <<Sig(9), Imp(9, 4), Imp(9, 1)>>, ch |-> ch, w |-> <<[re |-> <<1, 2, 1>>, im |-> <<0, 0, 0>>], [re |-> <<1, 0, -1, 0>>, im |-> <<0, 2, 0, -2>>]>>] :
            ch \in {<<1, 2, 3>>, <<2>>, <<3, 1>>}}
    \cup {[op |-> "warp", x |-> <<Sig(n), Imp(n, 2)>>, l |-> l, len |-> k] : n \in {3, 6}, l \in {-5, 3, 6}, k \in {0, 2, 9}}
    \cup {[op |-> "lag", x |-> <<Sig(n), Imp(n, 2)>>, l |-> l] : n \in {2, 5, 8}, l \in {-8, -6, 0, 6, 8}}
    \cup {[op |-> "warpf", z |-> z, p |-> p, k |-> 2, l |-> l] : z \in {<<>>, <<5>>, <<-3, 8>>}, p \in {<<>>, <<-2>>, <<6, 1>>}, l \in {-4, 5}}
    \cup {[op |-> "lpc", x |-> <<<<3, 1, -2, 4, 1, 1, -3, 2, 2, 1, -1, 4, 2>>, <<1, 2, 2, -1, 3, 1, 1, -4, 2, 1, 2, 3, -1>>>>, w |-> w, h |-> h, order |-> o, burg |-> b] :
            w \in {5, 6, 8}, h \in {2, 4}, o \in 1..4, b \in BOOLEAN}
=============================================================================
