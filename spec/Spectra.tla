------------------------------- MODULE Spectra -------------------------------
(***************************************************************************)
(* A spectrum: f, strictly ascending frequencies; ch, one sequence of      *)
(* <<re, im>> numerators per channel over the common denominator den; cx,  *)
(* complex or magnitude; coh, the coherence of every channel and bin or    *)
(* <<>>; and the interpolation settings dom, sch, edg.  Every event        *)
(* answers [ok, me, res]; a rejected edit changes nothing, reading never   *)
(* does.  Values are observed in fixed point, thousandths; expected values *)
(* are intervals <<lo, hi>>.                                               *)
(***************************************************************************)
EXTENDS Base

None == 99999
SC == 1000
Free == <<-2000000000, 2000000000>>

SPInit(i) == [f |-> i.f, ch |-> i.ch, den |-> 1, cx |-> i.cx, coh |-> i.coh,
              dom |-> "Power", sch |-> "Linear", edg |-> "ZeroPad"]

N(s) == Len(s.f)
C(s) == Len(s.ch)
(* x / d in thousandths, rounded down, without leaving 32 bits *)
Fixed(x, d) == (x \div d) * SC + ((x % d) * SC) \div d
Pt(x, d) == <<Fixed(x, d), Fixed(x, d) + 1>>
Pw(z) == z[1] * z[1] + z[2] * z[2]
Neg(z, cx) == ~cx /\ z[1] < 0

Spacing(f) ==
    IF Len(f) < 2 THEN "Other"
    ELSE IF \A i \in 2..Len(f) : f[i] - f[i - 1] = f[Len(f)] - f[Len(f) - 1] THEN "Linear"
    ELSE IF \A i \in 3..Len(f) : f[i] * f[Len(f) - 1] = f[i - 1] * f[Len(f)] THEN "Logarithmic"
    ELSE "Other"
Ascending(f) == (\A i \in 1..Len(f) : f[i] >= 0) /\ \A i \in 2..Len(f) : f[i] > f[i - 1]

(* what is seen of a spectrum: v = intervals of <<re, im>> *)
Val(z, den) == <<Pt(z[1], den), Pt(z[2], den)>>
View(s) == [f |-> s.f, cx |-> s.cx, coh |-> s.coh, typ |-> Spacing(s.f),
            v |-> [c \in 1..C(s) |-> [k \in 1..N(s) |-> Val(s.ch[c][k], s.den)]]]

Upd(t) == [st |-> t, out |-> [ok |-> TRUE, me |-> View(t), res |-> [none |-> TRUE]]]
Rej(s) == [st |-> s, out |-> [ok |-> FALSE, me |-> View(s), res |-> [none |-> TRUE]]]
Ans(s, r) == [st |-> s, out |-> [ok |-> TRUE, me |-> View(s), res |-> r]]
(* a derived spectrum t: it is shown, and becomes the object when keep is set *)
Der(s, t, keep) == LET u == IF keep THEN t ELSE s
                   IN [st |-> u, out |-> [ok |-> TRUE, me |-> View(u), res |-> View(t)]]

Perm(p, n) == Len(p) = n /\ \A x \in 0..(n - 1) : \E k \in 1..n : p[k] = x
Drop(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))

(* the bins of a frequency range as <<first, last>>; first > last when there is none *)
Range(s, lo, hi, incl) ==
    LET n == N(s)
        below == { k \in 1..n : s.f[k] <= lo }
        above == { k \in 1..n : s.f[k] >= hi }
    IN IF incl
       THEN << IF lo = None \/ below = {} THEN 1 ELSE CHOOSE k \in below : \A j \in below : j <= k,
               IF hi = None \/ above = {} THEN n ELSE CHOOSE k \in above : \A j \in above : j >= k >>
       ELSE << IF lo = None THEN 1 ELSE Cardinality(below) + 1,
               IF hi = None THEN n ELSE n - Cardinality(above) >>
Empty(s, lo, r, incl) == r[1] > r[2] \/ (incl /\ lo # None /\ lo > s.f[N(s)])
Slice(s, r) == [s EXCEPT !.f = SubSeq(s.f, r[1], r[2]),
                         !.ch = [c \in 1..C(s) |-> SubSeq(s.ch[c], r[1], r[2])],
                         !.coh = [c \in 1..Len(s.coh) |-> SubSeq(s.coh[c], r[1], r[2])]]

(* position of a frequency: the bin at or below it *)
Below(s, q) == Cardinality({ k \in 1..N(s) : s.f[k] <= q })
Inside(s, q) == q >= s.f[1] /\ q <= s.f[N(s)]
OnBin(s, q) == \E k \in 1..N(s) : s.f[k] = q
Gap(s, q) == IF ~Inside(s, q) \/ OnBin(s, q) THEN 1 ELSE s.f[Below(s, q) + 1] - s.f[Below(s, q)]
Lerp(a, b, w, g) == a * (g - w) + b * w          \* over g
(* linear interpolation of real and imaginary part; times m over den * m *)
LinZ(s, c, q, m) ==
    LET b == Below(s, q) IN
    IF ~Inside(s, q)
    THEN CASE s.edg = "ZeroPad" -> <<0, 0>>
           [] s.edg = "OnePad" -> <<m * s.den, 0>>
           [] OTHER -> LET e == s.ch[c][IF q < s.f[1] THEN 1 ELSE N(s)] IN <<m * e[1], m * e[2]>>
    ELSE IF OnBin(s, q) THEN <<m * s.ch[c][b][1], m * s.ch[c][b][2]>>
    ELSE LET g == s.f[b + 1] - s.f[b]
             w == q - s.f[b]
         IN <<(m \div g) * Lerp(s.ch[c][b][1], s.ch[c][b + 1][1], w, g),
              (m \div g) * Lerp(s.ch[c][b][2], s.ch[c][b + 1][2], w, g)>>

(* magnitude numerators: exact roots only *)
Root(x) == LET R == { r \in 0..100 : r * r = x } IN IF R = {} THEN -1 ELSE CHOOSE r \in R : TRUE
Mag(s, z) == IF ~s.cx THEN z[1] ELSE IF s.den = 1 THEN Root(Pw(z)) ELSE -1
Span(a, b) == <<Min2(a[1], b[1]), Max2(a[2], b[2])>>
(* interpolated power in domain d *)
PowAt(s, c, q, d) ==
    LET b == Below(s, q)
        dd == s.den * s.den
    IN IF ~Inside(s, q)
       THEN CASE s.edg = "ZeroPad" -> <<0, 1>> [] s.edg = "OnePad" -> Pt(1, 1)
              [] OTHER -> Pt(Pw(s.ch[c][IF q < s.f[1] THEN 1 ELSE N(s)]), dd)
       ELSE IF OnBin(s, q) THEN Pt(Pw(s.ch[c][b]), dd)
       ELSE LET y == s.ch[c][b]
                z == s.ch[c][b + 1]
                g == s.f[b + 1] - s.f[b]
                w == q - s.f[b]
                my == Mag(s, y)
                mz == Mag(s, z)
            IN IF s.den > 12 \/ s.sch = "Cubic" THEN Free
               ELSE IF d = "Complex"
               THEN IF s.sch = "Pchip" THEN Free
                    ELSE Pt(Pw(<<Lerp(y[1], z[1], w, g), Lerp(y[2], z[2], w, g)>>), g * g * dd)
               ELSE IF s.sch = "Pchip" THEN Span(Pt(Pw(y), dd), Pt(Pw(z), dd))
               ELSE IF d = "Power" THEN Pt(Lerp(Pw(y), Pw(z), w, g), g * dd)
               ELSE IF my < 0 \/ mz < 0 THEN Free
               ELSE LET m == Lerp(my, mz, w, g) IN Pt(m * m, g * g * dd)
(* interpolated complex value as intervals <<re, im>> *)
CxAt(s, c, q, d) ==
    LET b == Below(s, q)
        E == CASE s.edg = "ZeroPad" -> <<0, 0>> [] s.edg = "OnePad" -> <<s.den, 0>>
               [] OTHER -> s.ch[c][IF q < s.f[1] THEN 1 ELSE N(s)]
    IN IF ~Inside(s, q) THEN Val(E, s.den)
       ELSE IF OnBin(s, q) THEN Val(s.ch[c][b], s.den)
       ELSE IF d # "Complex" \/ s.sch = "Cubic" THEN <<Free, Free>>
       ELSE IF s.sch = "Pchip"
       THEN LET y == Val(s.ch[c][b], s.den)
                z == Val(s.ch[c][b + 1], s.den)
            IN <<Span(y[1], z[1]), Span(y[2], z[2])>>
       ELSE LET g == s.f[b + 1] - s.f[b] IN Val(LinZ(s, c, q, g), s.den * g)
(* square and direction of the complex value interpolated in magnitude and phase: *)
(* half way, the phase is the mean of both, taken on the short way round          *)
SqAt(s, c, q) ==
    LET b == Below(s, q) IN
    IF ~Inside(s, q) \/ OnBin(s, q) \/ s.sch # "Linear" \/ s.den # 1 THEN <<Free, Free, <<0, 0>>>>
    ELSE LET y == s.ch[c][b]
             z == s.ch[c][b + 1]
             my == Mag(s, y)
             mz == Mag(s, z)
             u == IF my = 0 THEN <<1, 0>> ELSE y
             v == IF mz = 0 THEN <<1, 0>> ELSE z
             nu == Max2(my, 1) * Max2(mz, 1)
             m == my + mz
             p == <<u[1] * v[1] - u[2] * v[2], u[1] * v[2] + u[2] * v[1]>>
             opposite == u[1] * v[2] = u[2] * v[1] /\ u[1] * v[1] + u[2] * v[2] < 0
         IN IF 2 * q # s.f[b] + s.f[b + 1] \/ my < 0 \/ mz < 0 \/ opposite
            THEN <<Free, Free, <<0, 0>>>>
            ELSE <<Pt(m * m * p[1], 4 * nu), Pt(m * m * p[2], 4 * nu),
                   <<u[1] * Max2(mz, 1) + v[1] * Max2(my, 1), u[2] * Max2(mz, 1) + v[2] * Max2(my, 1)>> >>

AddZ(y, z) == <<y[1] + z[1], y[2] + z[2]>>
RECURSIVE SumCh(_, _)
SumCh(ch, k) == IF Len(ch) = 1 THEN ch[1][k] ELSE AddZ(ch[1][k], SumCh(Tail(ch), k))
RECURSIVE SumPw(_, _)
SumPw(ch, k) == IF Len(ch) = 0 THEN 0 ELSE Pw(ch[1][k]) + SumPw(Tail(ch), k)
RECURSIVE Trap(_, _, _)
Trap(f, c, k) == IF k >= Len(f) THEN 0
                 ELSE (Pw(c[k]) + Pw(c[k + 1])) * (f[k + 1] - f[k]) + Trap(f, c, k + 1)

(* values of another spectrum on the frequencies f, all of which are its bins or outside *)
OnGrid(o, f) == [c \in 1..Len(o.ch) |-> [k \in 1..Len(f) |->
                    IF \E j \in 1..Len(o.f) : o.f[j] = f[k]
                    THEN o.ch[c][CHOOSE j \in 1..Len(o.f) : o.f[j] = f[k]] ELSE <<0, 0>>]]
RECURSIVE Join(_, _)
Join(os, f) == IF os = <<>> THEN <<>> ELSE OnGrid(os[1], f) \o Join(Tail(os), f)
PwView(f, ch, den) == [f |-> f, v |-> [c \in 1..Len(ch) |-> [k \in 1..Len(f) |-> Pt(Pw(ch[c][k]), den * den)]]]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y

SPStep(s, ev) ==
    LET n == N(s) IN
    CASE ev.op = "setd" ->
           IF (\E c \in 1..Len(ev.ch) : Len(ev.ch[c]) # n \/ \E k \in 1..Len(ev.ch[c]) : Neg(ev.ch[c][k], ev.cx))
           THEN Rej(s)
           ELSE Upd([s EXCEPT !.ch = ev.ch, !.cx = ev.cx, !.den = 1,
                              !.coh = IF Len(ev.ch) = Len(@) THEN @ ELSE <<>>])
      [] ev.op = "setf" -> IF Len(ev.f) # n \/ ~Ascending(ev.f) THEN Rej(s) ELSE Upd([s EXCEPT !.f = ev.f])
      [] ev.op = "setcoh" ->
           IF Len(ev.coh) # C(s) \/ (\E c \in 1..Len(ev.coh) : Len(ev.coh[c]) # n) THEN Rej(s)
           ELSE Upd([s EXCEPT !.coh = ev.coh])
      [] ev.op = "setp" ->
           IF ~s.cx /\ ev.dom \in {"Complex", "MagnitudePhase"} THEN Rej(s)
           ELSE Upd([s EXCEPT !.dom = ev.dom, !.sch = ev.sch, !.edg = ev.edg])
      [] ev.op = "trim" ->
           LET r == Range(s, ev.lo, ev.hi, ev.incl)
           IN IF Empty(s, ev.lo, r, ev.incl) THEN Rej(s) ELSE Upd(Slice(s, r))
      [] ev.op = "resample" ->
           LET out == \E k \in 1..Len(ev.f) : ~Inside(s, ev.f[k])
               m == IF \A k \in 1..Len(ev.f) : Gap(s, ev.f[k]) = 1 THEN 1 ELSE 12
           IN IF (s.edg = "Error" /\ out) \/ ~Ascending(ev.f) THEN Rej(s)
              ELSE Upd([s EXCEPT !.f = ev.f, !.den = @ * m, !.coh = <<>>,
                        !.ch = [c \in 1..C(s) |-> [k \in 1..Len(ev.f) |-> LinZ(s, c, ev.f[k], m)]]])
      [] ev.op = "remove" ->
           LET k == IF ev.k = -1 THEN C(s) ELSE ev.k + 1 IN
           IF C(s) = 1 \/ k > C(s) THEN Rej(s)
           ELSE Upd([s EXCEPT !.ch = Drop(@, k), !.coh = IF @ = <<>> THEN @ ELSE Drop(@, k)])
      [] ev.op = "swap" ->
           IF ~Perm(ev.p, C(s)) THEN Rej(s)
           ELSE Upd([s EXCEPT !.ch = [c \in 1..C(s) |-> @[ev.p[c] + 1]],
                              !.coh = IF @ = <<>> THEN @ ELSE [c \in 1..C(s) |-> @[ev.p[c] + 1]]])
      [] ev.op = "get" ->
           LET ix(x) == IF x < 0 THEN C(s) + x + 1 ELSE x + 1 IN
           IF \E i \in 1..Len(ev.p) : ix(ev.p[i]) \notin 1..C(s) THEN Rej(s)
           ELSE Der(s, [s EXCEPT !.ch = [c \in 1..Len(ev.p) |-> @[ix(ev.p[c])]],
                        !.coh = IF @ = <<>> THEN @ ELSE [c \in 1..Len(ev.p) |-> @[ix(ev.p[c])]]], ev.keep)
      [] ev.op = "copy" -> Der(s, s, ev.keep)
      [] ev.op = "sum" ->
           Der(s, [s EXCEPT !.ch = <<[k \in 1..n |-> SumCh(s.ch, k)]>>, !.coh = <<>>], ev.keep)
      [] ev.op = "psum" ->
           Ans(s, [f |-> s.f, v |-> <<[k \in 1..n |-> Pt(SumPw(s.ch, k), s.den * s.den)]>>])
      [] ev.op = "append" ->
           (* the others around this spectrum, all interpolated to the first one's frequencies *)
           LET me == [f |-> s.f, ch |-> s.ch, cx |-> s.cx]
               all == IF ev.first THEN <<me>> \o ev.others ELSE ev.others \o <<me>>
               cplx == ev.cplx /\ all[1].cx
               same == [i \in 1..Len(all) |-> all[i].cx]
           IN IF cplx /\ (\E i \in 1..Len(all) : ~all[i].cx) THEN Rej(s)
              ELSE Ans(s, PwView(all[1].f, Join(all, all[1].f), 1))
      [] ev.op = "appendkeep" ->
           Der(s, [s EXCEPT !.ch = Join(<<[f |-> s.f, ch |-> s.ch, cx |-> s.cx]>> \o ev.others, s.f), !.coh = <<>>,
                            !.dom = "Power", !.sch = "Linear", !.edg = "ZeroPad"], TRUE)
      [] ev.op = "gain" ->        \* ev.g: factors, one or one per channel
           IF Len(ev.g) # 1 /\ Len(ev.g) # C(s) THEN Rej(s)
           ELSE LET g(c) == IF Len(ev.g) = 1 THEN ev.g[1] ELSE ev.g[c] IN
                Upd([s EXCEPT !.ch = [c \in 1..C(s) |-> [k \in 1..n |-> <<g(c) * @[c][k][1], g(c) * @[c][k][2]>>]]])
      [] ev.op = "norm" ->        \* of a copy, at a bin
           LET b == Below(s, ev.f)
               ref(c) == Pw(s.ch[IF ev.c = None THEN c ELSE ev.c + 1][b])
           IN IF ~s.cx /\ (\E c \in 1..C(s) : ref(c) = 0) THEN Rej(s)
              ELSE Ans(s, [f |-> s.f, v |-> [c \in 1..C(s) |-> [k \in 1..n |->
                  IF ref(c) = 0 \/ ref(c) > 1000000 THEN Free ELSE Pt(Pw(s.ch[c][k]), ref(c))]]])
      [] ev.op = "energy" ->
           LET r == Range(s, ev.lo, ev.hi, TRUE)
               t == Slice(s, r)
           IN IF Empty(s, ev.lo, r, TRUE) THEN Rej(s)
              ELSE Ans(s, [e |-> [c \in 1..C(s) |->
                       IF s.den > 12 THEN Free ELSE Pt(Trap(t.f, t.ch[c], 1), 2 * s.den * s.den)]])
      [] ev.op = "interp" ->
           LET d == IF ev.out = "Complex" /\ s.dom \in {"Power", "Magnitude"} THEN "MagnitudePhase" ELSE s.dom
               out == \E k \in 1..Len(ev.f) : ~Inside(s, ev.f[k])
               Q(c, k) == CASE ev.see = "pow" -> PowAt(s, c, ev.f[k], d)
                            [] ev.see = "cx" -> CxAt(s, c, ev.f[k], d)
                            [] ev.see = "sq" -> IF d = "MagnitudePhase" THEN SqAt(s, c, ev.f[k]) ELSE <<Free, Free, <<0, 0>>>>
           IN IF (ev.out = "Complex" /\ ~s.cx) \/ (s.edg = "Error" /\ out) THEN Rej(s)
              ELSE Ans(s, [v |-> [c \in 1..C(s) |-> [k \in 1..Len(ev.f) |-> Q(c, k)]]])
      [] ev.op = "rt" ->          \* to a signal and back: the ends of the spectrum are real
           IF ~s.cx THEN Rej(s)
           ELSE Ans(s, [v |-> [c \in 1..C(s) |-> [k \in 1..n |->
                    Val(IF k \in {1, n} THEN <<s.ch[c][k][1], 0>> ELSE s.ch[c][k], s.den)]]])
      [] ev.op = "smooth" ->      \* of a copy: stays within the values it averages
           Ans(s, [v |-> [c \in 1..C(s) |->
                    LET P == { Fixed(Pw(s.ch[c][k]), s.den * s.den) : k \in 1..n }
                    IN IF s.sch = "Cubic" \/ s.dom = "Complex" THEN Free ELSE <<Least(P), Most(P) + 1>>]])

(* observed against interval; the unit of observation is a thousandth *)
In(iv, x) == x >= iv[1] - 1 - Abs(iv[1]) \div 500000 /\ x <= iv[2] + 1 + Abs(iv[2]) \div 500000
In1(a, o) == Len(a) = Len(o) /\ \A k \in 1..Len(a) : In(a[k], o[k])
In2(a, o) == Len(a) = Len(o) /\ \A k \in 1..Len(a) : In1(a[k], o[k])
In3(a, o) == Len(a) = Len(o) /\ \A k \in 1..Len(a) : In2(a[k], o[k])

ViewOk(a, o) ==
    /\ Conforms(a.f, o.f) /\ a.cx = o.cx /\ a.typ = o.typ /\ Conforms(a.coh, o.coh)
    /\ In3(a.v, o.v)
ResOk(r, o) ==
    IF "bad" \in DOMAIN o THEN FALSE
    ELSE IF "none" \in DOMAIN r THEN "none" \in DOMAIN o
    ELSE IF "cx" \in DOMAIN r THEN ViewOk(r, o)
    ELSE IF "e" \in DOMAIN r THEN In1(r.e, o.e)
    ELSE /\ ("f" \in DOMAIN r => Conforms(r.f, o.f))
         /\ CASE o.d = 1 -> Len(r.v) = Len(o.v) /\ \A c \in 1..Len(r.v) : \A k \in 1..Len(o.v[c]) : In(r.v[c], o.v[c][k])
              [] o.d = 2 -> In2(r.v, o.v)
              [] o.d = 3 -> In3(r.v, o.v)
              [] o.d = 4 -> /\ Len(r.v) = Len(o.v)
                            /\ \A c \in 1..Len(r.v) : \A k \in 1..Len(r.v[c]) :
                                 LET a == r.v[c][k]
                                     z == o.v[c][k]
                                 IN In(a[1], z[1]) /\ In(a[2], z[2])
                                    /\ (Abs(z[3]) < 100000 /\ Abs(z[4]) < 100000 => a[3][1] * z[3] + a[3][2] * z[4] >= -10000)
SPMatch(out, ob) ==
    /\ ~IsErr(ob) /\ ~ob.touched /\ ob.ok = out.ok
    /\ ViewOk(out.me, ob.me)
    /\ IF ~out.ok THEN TRUE ELSE ResOk(out.res, ob.res)

SPInv(s) ==
    /\ Ascending(s.f) /\ Len(s.ch) >= 1
    /\ \A c \in 1..Len(s.ch) : Len(s.ch[c]) = Len(s.f) /\ \A k \in 1..Len(s.f) : ~Neg(s.ch[c][k], s.cx) /\ (~s.cx => s.ch[c][k][2] = 0)
    /\ s.coh # <<>> => Len(s.coh) = Len(s.ch) /\ \A c \in 1..Len(s.coh) : Len(s.coh[c]) = Len(s.f)

Re(q) == [k \in 1..Len(q) |-> <<q[k], 0>>]
SPStarts ==
    { [f |-> <<10, 20, 30, 50>>, ch |-> <<Re(<<1, 2, 3, 4>>), Re(<<5, 0, 7, 9>>), Re(<<2, 2, 6, 1>>)>>, cx |-> FALSE,
       coh |-> <<<<11, 12, 13, 14>>, <<21, 22, 23, 24>>, <<31, 32, 33, 34>>>>],
      [f |-> <<0, 4, 8>>, ch |-> << << <<3, 4>>, <<0, -5>>, <<-6, 8>> >>, << <<5, 0>>, <<0, 5>>, <<1, 2>> >> >>, cx |-> TRUE,
       coh |-> <<<<41, 42, 43>>, <<51, 52, 53>>>>],
      [f |-> <<7>>, ch |-> <<Re(<<6>>)>>, cx |-> FALSE, coh |-> <<>>] }
SPEvents(s) ==
    LET n == N(s)
        z == [k \in 1..n |-> <<3 * k, 0>>]
    IN
    { [op |-> "trim", lo |-> lo, hi |-> hi, incl |-> b] : lo \in {None, 4, 20, 15}, hi \in {None, 22, 30, 8}, b \in BOOLEAN }
    \cup { [op |-> "setd", ch |-> <<z>>, cx |-> b] : b \in BOOLEAN }
    \cup { [op |-> "setd", ch |-> <<[z EXCEPT ![1] = <<-1, 0>>]>>, cx |-> b] : b \in BOOLEAN }
    \cup { [op |-> "setf", f |-> f] : f \in { [k \in 1..n |-> 6 * k], [k \in 1..(n + 1) |-> k], [k \in 1..n |-> 50 - 3 * k] } }
    \cup { [op |-> "setcoh", coh |-> [c \in 1..m |-> [k \in 1..n |-> 10 * c + k]]] : m \in {C(s), C(s) + 1} }
    \cup { [op |-> "setp", dom |-> d, sch |-> "Linear", edg |-> e] : d \in {"Magnitude", "Complex"}, e \in {"Extend", "Error", "OnePad"} }
    \cup { [op |-> "remove", k |-> k] : k \in {-1, 0, 1, 7} }
    \cup { [op |-> "swap", p |-> p] : p \in { <<1, 0>>, <<2, 0, 1>>, <<1, 1>>, <<0>> } }
    \cup { [op |-> "get", p |-> p, keep |-> b] : p \in { <<1>>, <<1, 0>>, <<-1, 0, 0>>, <<2>> }, b \in BOOLEAN }
    \cup { [op |-> "sum", keep |-> b] : b \in BOOLEAN }
    \cup { [op |-> "psum"], [op |-> "gain", g |-> <<2>>], [op |-> "gain", g |-> <<1, 2>>], [op |-> "copy", keep |-> TRUE] }
    \cup { [op |-> "energy", lo |-> lo, hi |-> hi] : lo \in {None, 15}, hi \in {None, 22} }
    \cup { [op |-> "resample", f |-> <<s.f[1], s.f[n], s.f[n] + 5>>] : k \in IF n > 1 THEN {1} ELSE {} }
=============================================================================
