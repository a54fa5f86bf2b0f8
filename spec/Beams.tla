------------------------------- MODULE Beams -------------------------------
(***************************************************************************)
(* Microphone arrays and beamformers: points, grids and arrays in space,   *)
(* monopole sources on an array, steering vectors and beamformer maps.     *)
(* Coordinates are integers in 1/11 m; in the time domain in m, where sound *)
(* travels one metre per sample.                                           *)
(***************************************************************************)
EXTENDS Base, Trig

Cosine(p) == Sine(p + 2400)
RndS(a, b) == IF a < 0 THEN -((-a + b \div 2) \div b) ELSE (a + b \div 2) \div b
Sq(x) == x * x
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Digits(_, _, _)
Digits(r, b, n) == IF n = 0 THEN 0 ELSE ((r * 10) \div b) * Pow(10, n - 1) + Digits((r * 10) % b, b, n - 1)
Frac(a, b, n) == (a \div b) * Pow(10, n) + Digits(a % b, b, n)
RECURSIVE Half(_, _, _)
Half(t, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= t THEN Half(t, m, hi) ELSE Half(t, lo, m)
(* 100 sqrt(t) *)
Root(t) == IF t = 0 THEN 0 ELSE LET s == TLCEval(Half(t, 0, 46340)) IN 100 * s + ((t - s * s) * 50) \div s
MinOf(s) == CHOOSE v \in s : \A w \in s : v <= w
MaxOf(s) == CHOOSE v \in s : \A w \in s : v >= w

(* --- geometry --------------------------------------------------------------- *)
D2(p, q) == SumTo([i \in 1..3 |-> Sq(p[i] - q[i])], 3)
Dist(p, q) == Root(10000 * D2(p, q))                     \* 1e-4
Col(ps, i) == {ps[j][i] : j \in 1..Len(ps)}
Mean(ps, i) == SumTo([j \in 1..Len(ps) |-> ps[j][i]], Len(ps))        \* times Len(ps)
(* squared distance to the centre, times Len(ps)^2 *)
Off(ps, p) == SumTo([i \in 1..3 |-> Sq(Len(ps) * p[i] - Mean(ps, i))], 3)
Pairs(ps) == {D2(ps[i], ps[j]) : <<i, j>> \in {<<a, b>> \in (1..Len(ps)) \X (1..Len(ps)) : a # b}}
(* the microphone nearest to the centre *)
Middle(ps) == CHOOSE i \in 1..Len(ps) : \A j \in 1..Len(ps) : Off(ps, ps[i]) < Off(ps, ps[j]) \/ (Off(ps, ps[i]) = Off(ps, ps[j]) /\ i <= j)
Tol(r, t) == [i \in 1..Len(r) |-> <<r[i], t>>]
Hz(n, c, d2) == Frac(n * c * 110000, Root(10000 * d2), 2)                \* n c / distance, 1e-2
GeoOut(ev) ==
    LET ps == ev.p
        ap == MaxOf(Pairs(ps))
        mn == MinOf(Pairs(ps))
        hz == Hz(ev.he, ev.c, ap)
        top == Hz(1, ev.c, mn) \div 2
    IN  << << <<Len(ps), 0>>, <<Cardinality({i \in 1..3 : Cardinality(Col(ps, i)) > 1}), 0>> >>,
           Tol([i \in 1..3 |-> IF Cardinality(Col(ps, i)) > 1 THEN 1 ELSE 0], 0),
           Tol([i \in 1..6 |-> LET c == Col(ps, (i + 1) \div 2) IN 100 * (IF i % 2 = 1 THEN MinOf(c) ELSE MaxOf(c))], 0),
           [j \in 1..(Len(ps) * Len(ev.q)) |-> <<100 * D2(ps[((j - 1) \div Len(ev.q)) + 1], ev.q[((j - 1) % Len(ev.q)) + 1]), 0>>],
           Tol([j \in 1..Len(ev.q) |-> 100 * MinOf({D2(ps[i], ev.q[j]) : i \in 1..Len(ps)})], 0),
           << <<100 * mn, 0>>, <<100 * ap, 0>>, <<MinOf({Off(ps, ps[i]) : i \in 1..Len(ps)}), 0>> >>,
           << <<hz, 2 + hz \div 1000>>, <<RndS(ev.f * Root(10000 * ap), 11 * ev.c), 20>>, <<hz, 2 + hz \div 1000>>, <<top, 2 + top \div 1000>> >> >>

(* --- regular grids: coordinates of the points, first line outermost ------------ *)
Flat3(F(_, _, _), a, b, c) == [i \in 1..(a * b * c) |-> F(((i - 1) \div (b * c)) + 1, (((i - 1) \div c) % b) + 1, ((i - 1) % c) + 1)]
GridPts(ev) ==
    CASE ev.kind = "3d" -> LET F(i, j, k) == <<ev.l[1][i], ev.l[2][j], ev.l[3][k]>> IN Flat3(F, Len(ev.l[1]), Len(ev.l[2]), Len(ev.l[3]))
      [] ev.kind = "2d" -> LET F(i, j, k) == [d \in 1..3 |-> IF d = ev.dim[1] THEN ev.l[1][i] ELSE IF d = ev.dim[2] THEN ev.l[2][j] ELSE ev.v[1]]
                           IN  Flat3(F, Len(ev.l[1]), Len(ev.l[2]), 1)
      [] OTHER -> LET F(i, j, k) == [d \in 1..3 |-> IF d = ev.dim[1] THEN ev.l[1][i] ELSE IF d = (ev.dim[1] % 3) + 1 THEN ev.v[1] ELSE ev.v[2]]
                  IN  Flat3(F, Len(ev.l[1]), 1, 1)
Shape(ev) == CASE ev.kind = "3d" -> [i \in 1..3 |-> Len(ev.l[i])] [] ev.kind = "2d" -> [i \in 1..2 |-> Len(ev.l[i])] [] OTHER -> <<Len(ev.l[1])>>

(* --- steering vectors: amplitude (1e-4) and angle (1/9600 turn) ------------------- *)
Amp(form, ms, i, g) ==
    LET n == Len(ms)
        d0 == D2(ms[Middle(ms)], g)
        di == D2(ms[i], g)
        r0 == Root(10000 * d0)
        ri == Root(10000 * di)
    IN  CASE form = "Classic" -> 10000 \div n
          [] form = "Inverse" -> Frac(ri, n * r0, 4)
          [] form = "TruePower" -> LET q == ((r0 \div 10) * (ri \div 10)) \div 100
                                   IN  100000000 \div SumTo([j \in 1..n |-> q \div D2(ms[j], g)], n)
          [] OTHER -> 100000000 \div Root(n * SumTo([j \in 1..n |-> (10000 * di) \div D2(ms[j], g)], n))
(* wave number of 100 k Hz *)
Ang(ev, k, i, g) == RndS((Dist(ev.m[i], g) - Dist(ev.m[Middle(ev.m)], g)) * 96 * k, 11 * ev.c)
(* gain of the steering vector for a source at its point that has unit amplitude at the middle microphone, 1e-4 *)
Unity(form, ms, g) == LET r0 == Dist(ms[Middle(ms)], g)
                      IN  SumTo([i \in 1..Len(ms) |-> (Amp(form, ms, i, g) * (r0 \div 20)) \div (Dist(ms[i], g) \div 20)], Len(ms))
Norm2(form, ms, g) == SumTo([i \in 1..Len(ms) |-> Sq(Amp(form, ms, i, g)) \div 100], Len(ms))      \* 1e-6
Steer(ev) == [j \in 1..Len(ev.g) |-> [i \in 1..(2 * Len(ev.m)) |->
                LET n == (i + 1) \div 2
                    a == Amp(ev.form, ev.m, n, ev.g[j])
                    t == Ang(ev, ev.k, n, ev.g[j])
                IN  << IF i % 2 = 1 THEN RndS(a * Cosine(t), 10000) ELSE -RndS(a * Sine(t), 10000), 8 + a \div 500 >>]]

(* --- maps for impulses: amplitude a and delay d of each microphone, ev.n samples ------ *)
Beam(ev, k, g) ==
    LET n == Len(ev.m)
        t == TLCEval([i \in 1..n |-> Ang(ev, k, i, g) - (9600 \div ev.n) * k * ev.d[i]])
        w == TLCEval([i \in 1..n |-> Amp(ev.form, ev.m, i, g) * ev.a[i]])
        re == SumTo([i \in 1..n |-> RndS(w[i] * Cosine(t[i]), 100000)], n)      \* 1e-3
        im == SumTo([i \in 1..n |-> RndS(w[i] * Sine(t[i]), 100000)], n)
    IN  (Sq(re) + Sq(im)) \div 1000                                                \* 1e-3
Bound(ev, g) == Sq(SumTo([i \in 1..Len(ev.m) |-> (Amp(ev.form, ev.m, i, g) * Abs(ev.a[i])) \div 10], Len(ev.m))) \div 1000
Auto(ev, g) == SumTo([i \in 1..Len(ev.m) |-> Sq((Amp(ev.form, ev.m, i, g) * Abs(ev.a[i])) \div 10) \div 1000], Len(ev.m))
Slack(ev, g) == 5 + Bound(ev, g) \div 200
Das(ev, k, g) == IF ev.rem THEN Max2(0, ((Beam(ev, k, g) - Auto(ev, g)) * Len(ev.m)) \div (Len(ev.m) - 1)) ELSE Beam(ev, k, g)
Odd12(n) == [j \in 1..n |-> IF j \in {1, n} THEN 4 ELSE IF j % 2 = 0 THEN 16 ELSE 8]
Simp(n) == IF n = 2 THEN <<6, 6>>
           ELSE IF n % 2 = 1 THEN Odd12(n)
           ELSE LET o == Odd12(n - 1) IN [j \in 1..n |-> (IF j < n THEN o[j] ELSE 0) + (CASE j = n -> 5 [] j = n - 1 -> 8 [] j = n - 2 -> -1 [] OTHER -> 0)]
(* bins of the band around fc: one (fraction 0) or an octave *)
Low(ev) == IF ev.oct THEN ((ev.fc * 7071) \div 1000 + 499) \div 1000 ELSE ev.fc \div 100
High(ev) == IF ev.oct THEN Max2(Low(ev), ((ev.fc * 14142) \div 1000 + 499) \div 1000 - 1) ELSE Low(ev)
Over(ev, F(_)) == LET n == High(ev) - Low(ev) + 1
                      w == Simp(n)
                  IN  IF n = 1 THEN F(Low(ev)) ELSE QuotS(SumTo([j \in 1..n |-> w[j] * F(Low(ev) + j - 1)], n), 12)
(* the loudest point and whether it stands out *)
Map1(ev) == [j \in 1..Len(ev.g) |-> Beam(ev, Low(ev), ev.g[j])]
Peak(b) == CHOOSE i \in 1..Len(b) : \A j \in 1..Len(b) : b[i] >= b[j]
Clear(ev) == LET b == TLCEval(Map1(ev)) IN \A j \in 1..Len(b) : j # Peak(b) => b[Peak(b)] - b[j] > 2 * (Slack(ev, ev.g[j]) + Slack(ev, ev.g[Peak(b)])) + b[Peak(b)] \div 10
Energy(ev) == SumTo([i \in 1..Len(ev.m) |-> Sq(ev.a[i])], Len(ev.m))
(* (q^gamma) sigma |h|^2, q = |B|^2 / (sigma |h|^2) *)
RECURSIVE Power(_, _)
Power(q, n) == IF n = 0 THEN 10000 ELSE (Power(q, n - 1) * q) \div 10000
Func(ev, g) == LET s == (Energy(ev) * Norm2(ev.form, ev.m, g)) \div 1000            \* 1e-3
                   q == Min2(10000, Frac(Beam(ev, Low(ev), g), Max2(1, s), 4))
               IN  << ((Power(q, ev.gam) \div 10) * s) \div 1000, 10 + (s * ev.gam) \div 50 >>
(* sources that never sound together: a diagonal matrix *)
Capon(ev, g) == 1000000 \div Max2(1, SumTo([i \in 1..Len(ev.m) |-> Sq(Amp(ev.form, ev.m, i, g) \div 10) \div (1000 * Sq(ev.a[i]))], Len(ev.m)))
MapOut(ev) ==
    CASE ev.kind = "das" -> [j \in 1..Len(ev.g) |-> LET F(k) == Das(ev, k, ev.g[j]) IN << Over(ev, F), 2 * Slack(ev, ev.g[j]) * (High(ev) - Low(ev) + 1) >>]
      [] ev.kind = "orth" -> LET b == TLCEval(Map1(ev))
                             IN  [j \in 1..Len(ev.g) |-> IF j = Peak(b) THEN <<b[j], Slack(ev, ev.g[j])>> ELSE <<0, 2>>]
      [] ev.kind = "func" -> [j \in 1..Len(ev.g) |-> Func(ev, ev.g[j])]
      [] ev.kind = "inco" -> [j \in 1..Len(ev.g) |-> <<IF ev.rem THEN 0 ELSE Auto(ev, ev.g[j]), 5 + Auto(ev, ev.g[j]) \div 50>>]
      [] ev.kind = "mvdr" -> [j \in 1..Len(ev.g) |-> LET v == Capon(ev, ev.g[j]) IN <<v, 10 + v \div 20 + (v * (v \div 1000)) \div 200>>]
      \* a coherent field is one source: all but 4^-M of its power moves to the loudest point
      [] OTHER -> LET b == TLCEval(Map1(ev))
                  IN  [j \in 1..Len(b) |-> IF j = Peak(b) THEN <<b[j] - b[j] \div Pow(4, Len(ev.m)), Slack(ev, ev.g[j])>> ELSE <<0, 2>>]

(* --- time domain: metres, one metre per sample --------------------------------------- *)
Whole(p, q) == RndS(Dist(p, q), 10000)
At(x, i) == IF i >= 1 /\ i <= Len(x) THEN x[i] ELSE 0
MinLen(ev) == MinOf({Len(ev.x[s]) : s \in 1..Len(ev.x)})
OnArray(ev) == [m \in 1..Len(ev.m) |-> [i \in 1..MinLen(ev) |->
                  LET v == SumTo([s \in 1..Len(ev.x) |-> LET r == Whole(ev.s[s], ev.m[m]) IN RndS(10000 * At(ev.x[s], i - r), 1 + r)], Len(ev.x)) IN <<v, 3>>]]
Focus(ev) ==
    LET D(m, g) == Whole(ev.m[m], ev.g[g])
        all == {D(m, g) : m \in 1..Len(ev.m), g \in 1..Len(ev.g)}
        r0 == MaxOf(all)
        n == Len(ev.x[1]) + r0 - MinOf(all) + 2
    IN  [g \in 1..Len(ev.g) |-> [i \in 1..n |-> <<RndS(10000 * SumTo([m \in 1..Len(ev.m) |-> D(m, g) * At(ev.x[m], i - (r0 - D(m, g)))], Len(ev.m)), Len(ev.m)), 3>>]]

(* --- machine ---------------------------------------------------------------------------- *)
BmInit(x) == [sound |-> TRUE]
Ok(st, r) == [st |-> st, out |-> [ok |-> TRUE, res |-> r]]
BmStep(st, ev) ==
    CASE ev.op = "bad" -> [st |-> st, out |-> [ok |-> FALSE]]
      [] ev.op = "geo" -> Ok(st, GeoOut(ev))
      [] ev.op = "grid" -> LET g == TLCEval(GridPts(ev))
                           IN  Ok(st, [j \in 1..Len(g) |-> Tol([i \in 1..3 |-> 100 * g[j][i]], 0)] \o << Tol(Shape(ev), 0), Tol([i \in 1..Len(g) |-> i - 1], 0) >>)
      [] ev.op = "steer" ->
            \* the inverse and true-power vectors have unit gain, true-location the norm 1/N
            LET s == \A j \in 1..Len(ev.g) : CASE ev.form \in {"Inverse", "TruePower"} -> Abs(Unity(ev.form, ev.m, ev.g[j]) - 10000) <= 50
                                               [] ev.form = "TrueLocation" -> Abs(Len(ev.m) * Norm2(ev.form, ev.m, ev.g[j]) - 1000000) <= 10000
                                               [] OTHER -> TRUE
            IN  [Ok(st, Steer(ev)) EXCEPT !.st = [sound |-> s]]
      [] ev.op = "map" -> Ok(st, << MapOut(ev), << <<100 * Low(ev), 0>>, <<100 * High(ev), 0>> >> >>)
      [] ev.op = "src" -> Ok(st, OnArray(ev))
      [] ev.op = "focus" -> Ok(st, Focus(ev))

CloseV(e, o) == LET d == o - e[1] IN d <= e[2] /\ -d <= e[2]
BmMatch(out, ob) ==
    /\ "ok" \in DOMAIN ob /\ ob.ok = out.ok
    /\ out.ok => /\ Len(out.res) = Len(ob.res)
                 /\ \A i \in 1..Len(out.res) : Len(out.res[i]) = Len(ob.res[i]) /\ \A j \in 1..Len(out.res[i]) : CloseV(out.res[i][j], ob.res[i][j])
BmInv(st) == st.sound

BmStarts == {[i |-> 0]}
Arr3 == { << <<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>> >>, << <<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<2, 2, 1>>, <<1, 1, 0>> >>, << <<-1, 1, 0>>, <<3, 0, 0>> >> }
Far2 == { << <<0, 0, 5>>, <<2, 1, 5>>, <<1, 0, 7>> >>, << <<-1, 4, 3>>, <<2, 2, 4>> >> }
Forms == {"Classic", "Inverse", "TruePower", "TrueLocation"}
Meet(m, g) == \A i \in 1..Len(m) : \A j \in 1..Len(g) : D2(m[i], g[j]) >= 4
BmEvents(st) ==
    {[op |-> "geo", p |-> p, q |-> <<<<0, 0, 0>>, <<1, 2, -1>>>>, he |-> 4, f |-> 1000, c |-> c] : p \in Arr3 \cup Far2, c \in {343, 400}}
    \cup {[op |-> "grid", kind |-> "2d", l |-> <<<<0, 1, 3>>, <<-2, 5>>>>, dim |-> d, v |-> <<7>>] : d \in {<<a, b>> \in (1..3) \X (1..3) : a # b}}
    \cup {[op |-> "grid", kind |-> "3d", l |-> <<<<0, 1, 3>>, <<-2, 5>>, <<1, 4>>>>, dim |-> <<>>, v |-> <<>>]}
    \cup {[op |-> "grid", kind |-> "line", l |-> <<<<0, 1, 3>>>>, dim |-> <<d>>, v |-> <<7, -4>>] : d \in 1..3}
    \cup {e \in {[op |-> "steer", form |-> f, m |-> m, g |-> g, k |-> k, c |-> c] : f \in Forms, m \in Arr3, g \in Far2, k \in {1, 3, 5}, c \in {100, 343, 600}} : Meet(e.m, e.g)}
    \cup {e \in {[op |-> "map", kind |-> "das", form |-> f, m |-> m, g |-> g, a |-> [i \in 1..Len(m) |-> 1 + (i % s)], d |-> [i \in 1..Len(m) |-> i % 3], n |-> 16,
                  fc |-> 300, oct |-> o, rem |-> r, c |-> 120] : f \in Forms, m \in Arr3, g \in Far2, s \in {1, 3}, o \in BOOLEAN, r \in BOOLEAN} : Meet(e.m, e.g)}
    \cup {e \in {[op |-> "map", kind |-> k, form |-> f, m |-> m, g |-> g, a |-> [i \in 1..Len(m) |-> 1 + (i % s)], d |-> [i \in 1..Len(m) |-> i % 3], n |-> 16,
                  fc |-> 300, oct |-> FALSE, rem |-> FALSE, gam |-> 2, c |-> 120] : k \in {"orth", "func", "mvdr", "inco", "clean"}, f \in Forms, m \in Arr3, g \in Far2, s \in {1, 3}} :
            Meet(e.m, e.g) /\ (e.kind \in {"orth", "clean"} => Clear(e))}
    \cup {[op |-> "src", x |-> <<x, <<1, -2, 4, 0, 0, 0, 3>>>>, s |-> <<<<0, 0, 3>>, <<0, 0, s>>>>, m |-> <<<<0, 0, 0>>, <<0, 4, 0>>, <<0, 0, 1>>>>] : x \in {<<1, 2, 3, 4, 5, 6, 7, 8>>, <<5, 0, 0, 0, 0, 0>>}, s \in {3, -3}}
    \cup {[op |-> "focus", x |-> <<<<1, 2, 3, 4>>, <<4, 0, -1, 0>>>>, m |-> <<<<0, 0, 0>>, <<0, 4, 0>>>>, g |-> <<<<0, 0, 3>>, <<0, 4, z>>>>] : z \in {3, -3}}
=============================================================================
