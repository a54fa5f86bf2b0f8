------------------------------- MODULE Rooms --------------------------------
(***************************************************************************)
(* Room acoustics: rooms with their derived quantities (which follow every *)
(* change of the absorption), their modes, transfer functions and          *)
(* image-source responses, and the quantities extracted from responses.    *)
(* Dimensions are integer metres; reverberation times and absorption       *)
(* coefficients are kept in 1e-5.                                          *)
(***************************************************************************)
EXTENDS Base, Trig

Rnd(a, b) == a \div b + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
RndS(a, b) == IF a < 0 THEN -Rnd(-a, b) ELSE Rnd(a, b)
RECURSIVE Isq(_, _, _)
Isq(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Isq(n, m, hi) ELSE Isq(n, lo, m - 1)
Isqrt(n) == Isq(n, 0, 46340)
(* 1000 times the square root *)
Sq3(n) == IF n < 2000 THEN Isqrt(n * 1000000) ELSE IF n < 200000 THEN Isqrt(n * 10000) * 10 ELSE Isqrt(n * 100) * 100
RECURSIVE ToList(_)
ToList(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToList(S \ {x})
Rel(v) == <<v, 3 + Abs(v) \div 400>>

(* --- rooms -------------------------------------------------------------- *)
Vol(d) == d[1] * d[2] * d[3]
Area(d) == 2 * (d[1] * d[2] + d[1] * d[3] + d[2] * d[3])
Ratio(d) == Rnd(Vol(d) * 100000, Area(d))                 \* V/S, 1e-5 m
(* Sabine: t = 0.161 V/(S a) *)
TOf(d, a5) == Rnd(16100 * Ratio(d), a5)
AOf(d, tms) == Rnd(161 * Ratio(d), tms)
Info(st) == LET V == Vol(st.d)
            IN  << << <<V, 0>>, <<Area(st.d), 0>>, Rel(st.a), Rel(st.t),
                      Rel(Isqrt(Rnd(4000 * st.t, V))),                       \* 2000 sqrt(t/V), 0.1 Hz
                      Rel(Isqrt((3249 * ((V * 1000000) \div st.t)) \div 10)) \* 0.057 sqrt(V/t), mm
                >> >>
(* absorption of six walls (percent, one value per band) *)
Walls == <<"north", "south", "east", "west", "floor", "ceiling">>
Bands(w) == LET l == {Len(w[i]) : i \in 1..6} IN CHOOSE n \in l : \A m \in l : m <= n
At(v, b) == IF b <= Len(v) THEN v[b] ELSE v[Len(v)]
Matrix(w) == [i \in 1..6 |-> [b \in 1..Bands(w) |-> At(w[i], b)]]
(* area of a wall: north and south bound y, east and west bound x *)
WArea(d, i) == IF i <= 2 THEN d[1] * d[3] ELSE IF i <= 4 THEN d[2] * d[3] ELSE d[1] * d[2]
AbsArea(d, w) == LET m == Matrix(w) IN [b \in 1..Bands(w) |-> SumTo([i \in 1..6 |-> WArea(d, i) * m[i][b]], 6)]   \* 1e-2 m2
MeanA(d, w) == LET s == AbsArea(d, w)
                   n == Bands(w)
               IN  Rnd(10 * Rnd(100 * SumTo([b \in 1..n |-> s[b] * 2^(b - 1)], n), Area(d)), 2^n - 1)
TBands(d, w) == LET s == AbsArea(d, w) IN [b \in 1..Bands(w) |-> (1610000 * Vol(d)) \div s[b]]
Detail(st, w) ==
    LET a == MeanA(st.d, w)
    IN  [st EXCEPT !.a = a, !.t = TOf(st.d, a), !.w = w]
DetailOut(st) == Info(st) \o << [b \in 1..Bands(st.w) |-> <<AbsArea(st.d, st.w)[b], 1>>], [b \in 1..Bands(st.w) |-> Rel(TBands(st.d, st.w)[b])],
                                [b \in 1..Bands(st.w) |-> <<125 * 2^(b - 1), 0>>] >>
                 \o [i \in 1..6 |-> [b \in 1..Bands(st.w) |-> <<Matrix(st.w)[i][b], 0>>]]

(* modal density at f for c = 100 m/s, 1e-3 *)
Density(V, S, f) == LET a == f * f * V IN (a * 12 + (a * 566) \div 1000) \div 1000 + (15708 * f * S) \div 100000
Mixing(V, ev) == IF ev.mode = "perceptual" THEN (58 * Isqrt(V * 1000000)) \div 100 + 21200     \* us
                 ELSE 10 * Isqrt((ev.n * V * 7957) \div 10)
(* modes: (2 f/c)^2 = N/V^2 *)
N2(d, n) == n[1] * n[1] * d[2] * d[2] * d[3] * d[3] + n[2] * n[2] * d[1] * d[1] * d[3] * d[3] + n[3] * n[3] * d[1] * d[1] * d[2] * d[2]
FMode(d, n) == (5 * Sq3(N2(d, n))) \div Vol(d)               \* 1e-2 Hz for c = 100 m/s
Orders(m) == ((0..m) \X (0..m) \X (0..m)) \ {<<0, 0, 0>>}

(* transfer function at f Hz for c = 100 or 400 m/s, divided by 8/(V pi^2), times 4, 1e-4;
   positions are twelfths of the dimensions *)
Cos9600(p) == Sine((p + 2400) % 9600)
Phi(n, s, r) == LET k(i) == RndS(Cos9600((400 * n[i] * s[i]) % 9600) * Cos9600((400 * n[i] * r[i]) % 9600), 10000)
                IN  RndS(RndS(k(1) * k(2), 10000) * k(3), 10000)
Kinds(n) == (IF n[1] > 0 THEN 1 ELSE 0) + (IF n[2] > 0 THEN 1 ELSE 0) + (IF n[3] > 0 THEN 1 ELSE 0)
TfTerm(st, ev, n) ==
    LET d == st.d
        V == Vol(d)
        k3 == Sq3(N2(d, n)) \div V
        A == Rnd(N2(d, n) * 10000, V * V) - (IF ev.c = 100 THEN 4 * ev.f * ev.f ELSE (ev.f * ev.f) \div 4)
        fm == (k3 * ev.c) \div 2                                           \* mHz
        b == IF st.w = <<>> THEN 0 ELSE LET m == {i \in 1..Bands(st.w) : \A j \in 1..Bands(st.w) : Abs(fm - 125000 * 2^(i - 1)) <= Abs(fm - 125000 * 2^(j - 1))} IN CHOOSE i \in m : \A j \in m : i <= j
        t == IF b = 0 THEN st.t ELSE TBands(d, st.w)[b]
        B == Rnd((IF ev.c = 100 THEN 43976 ELSE 10994) * k3, t)
        F == Phi(n, ev.s, ev.r) * 2^(Kinds(n) - 1)
        q == A * A + B * B
        z(v) == IF q < 20000 THEN RndS(v * (F \div 4) * 1000, q \div 40) ELSE IF q < 2000000 THEN RndS(v * (F \div 4) * 100, q \div 400) ELSE IF q < 20000000 THEN RndS(v * (F \div 4) * 40, q \div 1000) ELSE RndS(v * (F \div 4), q \div 40000)
    IN  <<z(A), z(-B)>>
Tf(st, ev) ==
    LET o == ToList(Orders(ev.m))
        t == TLCEval([i \in 1..Len(o) |-> TfTerm(st, ev, o[i])])
        S(j) == SumTo([i \in 1..Len(o) |-> t[i][j]], Len(o))
        M == SumTo([i \in 1..Len(o) |-> Abs(t[i][1]) + Abs(t[i][2])], Len(o))
    IN  << << <<S(1), 60 + M \div 30>>, <<S(2), 60 + M \div 30>> >> >>

(* image sources: positions in half metres, sample n is a distance of n half metres;
   b[w] is ten times the reflection factor of wall w.  Amplitudes times 4 pi, 1e-4 *)
RECURSIVE PwB(_, _)
PwB(b, e) == IF e = 0 THEN 10000 ELSE Rnd(PwB(b, e - 1) * b, 10)
Axis(dim, s, r, b1, b2, lim, far) ==
    LET pts == {<<l, u>> : l \in -lim..lim, u \in {0, 1}}
        dist(p) == (1 - 2 * p[2]) * s + 4 * p[1] * dim - r              \* 2 l dim metres
        near == {p \in pts : Abs(dist(p)) <= far}
    IN  {[k |-> p, d2 |-> dist(p) * dist(p), g |-> Rnd(PwB(b1, Abs(p[1] - p[2])) * PwB(b2, Abs(p[1])), 10000)] : p \in near}
RECURSIVE AddZ(_, _, _, _, _, _)
AddZ(acc, zs, i, d2, g, L) ==
    IF i > Len(zs) THEN acc
    ELSE LET q == d2 + zs[i].d2
             n == (Isqrt(4 * q) + 1) \div 2
             a == Rnd(Rnd(g * zs[i].g, 10000) * 2000, Sq3(q))           \* 1e-4 / metres
         IN  AddZ(IF n < L THEN [acc EXCEPT ![n + 1] = @ + a] ELSE acc, zs, i + 1, d2, g, L)
RECURSIVE AddXY(_, _, _, _, _)
AddXY(acc, xy, zs, i, L) == IF i > Len(xy) THEN acc
    ELSE AddXY(TLCEval(AddZ(acc, zs, 1, xy[i][1], xy[i][2], L)), xy, zs, i + 1, L)
Rir(st, ev) ==
    LET far == ev.L + 1
        wall(i) == IF ev.detailed THEN ev.b[i] ELSE ev.b[1]
        d == st.d
        lim(i) == IF ev.mo >= 0 THEN ev.mo ELSE far \div (4 * d[i]) + 2
        X == Axis(d[1], ev.s[1], ev.r[1], wall(4), wall(3), lim(1), far)
        Y == Axis(d[2], ev.s[2], ev.r[2], wall(2), wall(1), lim(2), far)
        Z == TLCEval(ToList(Axis(d[3], ev.s[3], ev.r[3], wall(5), wall(6), lim(3), far)))
        P == {<<x, y>> : x \in X, y \in Y}
        xy == LET l == ToList({p \in P : p[1].d2 + p[2].d2 <= far * far}) IN TLCEval([i \in 1..Len(l) |-> <<l[i][1].d2 + l[i][2].d2, Rnd(l[i][1].g * l[i][2].g, 10000)>>])
        acc == AddXY(Zeros(ev.L), xy, Z, 1, ev.L)
        m == CHOOSE a \in {acc[n] : n \in 1..ev.L} : \A n \in 1..ev.L : acc[n] <= a
        \* a signal is limited to amplitude 1
        v(n) == IF m <= 125664 THEN acc[n] ELSE (Rnd(acc[n] * 1000, m) * 12566) \div 100
    \* late samples collect the rounding of many images
    IN  << [n \in 1..ev.L |-> <<v(n), 16 + v(n) \div 150 + (n * n) \div (2 * Vol(d))>>] >>

Inside(d, p) == \A i \in 1..3 : p[i] >= 0 /\ p[i] <= 10 * d[i]      \* decimetres

(* --- responses ------------------------------------------------------------ *)
PeakAt(x) == LET m == LET v == {Abs(x[i]) : i \in 1..Len(x)} IN CHOOSE a \in v : \A b \in v : b <= a
             IN  CHOOSE i \in 1..Len(x) : Abs(x[i]) = m /\ \A j \in 1..(i - 1) : Abs(x[j]) < m
(* index (from 0) of the last sample under the threshold (peak/fac) before the peak *)
Start(x, fac) == LET p == PeakAt(x)
                     u == {i \in 1..p : Abs(x[i]) * fac < Abs(x[p])}
                 IN  IF u = {} THEN 0 ELSE (CHOOSE i \in u : \A j \in u : j <= i) - 1
Energy(x, a, b) == SumTo([i \in 1..Max2(0, b - a) |-> x[a + i] * x[a + i]], Max2(0, b - a))
Descr(x, ev) ==
    LET y == SubSeq(x, Start(x, 10) + 1, Len(x))
        L == Len(y)
        w == Min2(L, (IF ev.kind = "D50" THEN 5 ELSE 8) * (ev.fs \div 100))
        e == Energy(y, 0, L)
        m == SumTo([i \in 1..L |-> (i - 1) * y[i] * y[i]], L)
    IN  IF ev.kind = "D50" THEN <<Rnd(Energy(y, 0, w) * 10000, e), 2>>
        ELSE IF ev.kind = "C80" THEN LET v == Energy(y, 0, w) * 1000
                                         u == Energy(y, w, L)
                                     IN  IF u = 0 THEN <<0, 2000000000>> ELSE <<Rnd(v, u), 2 + Rnd(v, u) \div 1000>>
        \* L/fs is the last time
        ELSE LET v == Rnd(Rnd(m * 1000, e) * L * 10, (L - 1) * ev.fs) IN <<v, 3 + (10 * L) \div ev.fs + v \div 200>>
Conv(x, h, n) == [i \in 1..n |-> SumTo([j \in 1..Len(h) |-> IF i - j + 1 >= 1 /\ i - j + 1 <= Len(x) THEN h[j] * x[i - j + 1] ELSE 0], Len(h))]
Pk(x) == Abs(x[PeakAt(x)])
Convolve(x, ev) ==
    LET y == TLCEval(Conv(x, ev.h, IF ev.len THEN Len(x) ELSE Len(x) + Len(ev.h) - 1))
    IN  IF ev.peak THEN LET p == Pk(x)
                            q == Pk(y)
                        IN  [i \in 1..Len(y) |-> <<(IF q = 0 THEN 0 ELSE RndS(y[i] * p * 1000, q)), 1>>]
        ELSE [i \in 1..Len(y) |-> <<y[i] * 1000, 0>>]
(* decays of rt ms (60 dB): EDT is the time of the first 10 dB *)
Rts(ev) == [k \in 1..Len(ev.rt) |-> [c \in 1..Len(ev.rt[k]) |-> LET t == IF ev.mode = "EDT" THEN Rnd(10 * ev.rt[k][c], 6) ELSE 10 * ev.rt[k][c] IN <<t, 2 + t \div 120>>]]
Bass(r) == << <<Rnd((r[1] + r[2]) * 1000, r[3] + r[4]), 30>> >>

Ok(st, kind, res) == [st |-> st, out |-> [ok |-> TRUE, kind |-> kind, res |-> res]]
Fail(st) == [st |-> st, out |-> [ok |-> FALSE]]
RmInit(i) == [d |-> <<3, 4, 5>>, a |-> 75000, t |-> TOf(<<3, 4, 5>>, 75000), w |-> <<>>]
RmStep(st, ev) ==
    CASE ev.op = "bad" -> Fail(st)
      [] ev.op = "room" ->
            LET a == IF ev.t60 = 0 THEN 1000 * ev.alpha ELSE AOf(ev.d, ev.t60)
                n == [d |-> ev.d, a |-> a, t |-> IF ev.t60 = 0 THEN TOf(ev.d, a) ELSE 100 * ev.t60, w |-> <<>>]
            IN  IF a > 100000 \/ a <= 0 THEN Fail(st) ELSE Ok(n, "near", Info(n))
      [] ev.op = "info" -> Ok(st, "near", Info(st))
      [] ev.op = "detail" -> LET n == Detail(st, ev.w) IN Ok(n, "near", DetailOut(n))
      [] ev.op = "inside" -> Ok(st, "near", << << <<(IF Inside(st.d, ev.p) THEN 1 ELSE 0), 0>> >> >>)
      [] ev.op = "density" -> Ok(st, "near", << [i \in 1..Len(ev.f) |-> Rel(Density(Vol(st.d), Area(st.d), ev.f[i]))] >>)
      [] ev.op = "mixing" -> Ok(st, "near", << << Rel(Mixing(Vol(st.d), ev)) >> >>)
      [] ev.op = "modes" -> Ok(st, "modes", << <<ev.m, st.d[1], st.d[2], st.d[3]>> >>)
      [] ev.op = "tf" -> Ok(st, "near", Tf(st, ev))
      [] ev.op = "rir" -> Ok(st, "near", Rir(st, ev))
      [] ev.op = "start" -> Ok(st, "near", << [c \in 1..Len(ev.x) |-> <<Start(ev.x[c], ev.fac), 0>>] >>)
      [] ev.op = "desc" -> Ok(st, "near", << [c \in 1..Len(ev.x) |-> Descr(ev.x[c], ev)] >>)
      [] ev.op = "conv" -> Ok(st, "near", [c \in 1..Len(ev.x) |-> Convolve(ev.x[c], ev)])
      [] ev.op = "reverb" -> Ok(st, "near", Rts(ev))
      [] ev.op = "bass" -> Ok(st, "near", [c \in 1..Len(ev.rt) |-> Bass(ev.rt[c])])
      [] ev.op = "findmodes" -> Ok(st, "near", << [i \in 1..Len(ev.f) |-> <<ev.f[i], 0>>] >>)

CloseV(e, o) == LET d == o - e[1] IN d <= e[2] /\ -d <= e[2]
Close1(e, o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : CloseV(e[i], o[i])
RmMatch(out, ob) ==
    /\ "ok" \in DOMAIN ob /\ ob.ok = out.ok
    /\ out.ok => IF out.kind = "modes"
                 THEN LET m == out.res[1][1]
                          d == <<out.res[1][2], out.res[1][3], out.res[1][4]>>
                          n(i) == <<ob.res[i][2], ob.res[i][3], ob.res[i][4]>>
                      IN  /\ {n(i) : i \in 1..Len(ob.res)} = Orders(m) /\ Len(ob.res) = Cardinality(Orders(m))
                          /\ \A i \in 1..Len(ob.res) : CloseV(<<FMode(d, n(i)), 4 + FMode(d, n(i)) \div 500>>, ob.res[i][1])
                          /\ \A i \in 1..(Len(ob.res) - 1) : ob.res[i][1] <= ob.res[i + 1][1]
                 ELSE Len(out.res) = Len(ob.res) /\ \A i \in 1..Len(out.res) : Close1(out.res[i], ob.res[i])
(* the reverberation time always is that of the mean absorption *)
RmInv(st) == st.a > 0 /\ st.a <= 100000 /\ Abs(st.t - TOf(st.d, st.a)) <= 2 + st.t \div 400

RmStarts == {[i |-> 0]}
RmEvents(st) ==
    {[op |-> "room", d |-> d, alpha |-> a, t60 |-> t] : d \in {<<2, 3, 4>>, <<6, 2, 2>>}, a \in {36, 75}, t \in {0}}
    \cup {[op |-> "room", d |-> d, alpha |-> 0, t60 |-> t] : d \in {<<2, 3, 4>>, <<5, 5, 2>>}, t \in {20, 90, 400}}
    \cup {[op |-> "detail", w |-> << <<n>>, <<s>>, <<50>>, e, <<64>>, f>>] : n \in {10}, s \in {36, 91}, e \in { <<20>>, <<20, 60>> }, f \in { <<30>>, <<30, 40, 50>> }}
    \cup {[op |-> "info"]}
    \cup {[op |-> "inside", p |-> <<x, y, z>>] : x \in {-1, 0, 20, 21}, y \in {0, 30, 31}, z \in {-5, 20, 51}}
    \cup {[op |-> "modes", m |-> m] : m \in {1, 2}}
    \cup {[op |-> "tf", f |-> f, c |-> 400, m |-> 1, s |-> <<2, 3, 7>>, r |-> <<0, 5, 11>>] : f \in {40, 110}}
=============================================================================
