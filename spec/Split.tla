------------------------------- MODULE Split --------------------------------
(***************************************************************************)
(* Networks that split a signal into bands and put it together again:      *)
(* complementary FIR filters, quadrature mirror crossovers with and        *)
(* without decimation, Linkwitz-Riley crossovers, reconstructing and       *)
(* Butterworth fractional-octave banks, auditory filters with              *)
(* resynthesis.                                                            *)
(***************************************************************************)
EXTENDS Base

Rnd(a, b) == a \div b + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
RECURSIVE Isq(_, _, _)
Isq(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Isq(n, m, hi) ELSE Isq(n, lo, m - 1)
Isqrt(n) == Isq(n, 0, 46340)
Get(x, i) == IF i >= 1 /\ i <= Len(x) THEN x[i] ELSE 0

(* --- exact filtering ------------------------------------------------------ *)
Conv(x, h, n) == [i \in 1..n |-> SumTo([j \in 1..Len(h) |-> h[j] * Get(x, i - j + 1)], Len(h))]
(* a recursive filter with a[1] = 1 *)
RECURSIVE Rec(_, _, _, _)
Rec(f, a, y, i) == IF i > Len(f) THEN y
    ELSE Rec(f, a, TLCEval(Append(y, f[i] - SumTo([k \in 1..Len(a) |-> IF k = 1 THEN 0 ELSE a[k] * Get(y, i - k + 1)], Len(a)))), i + 1)
Causal(fl, x) == LET f == TLCEval(Conv(x, fl.b, Len(x))) IN IF Len(fl.a) = 1 THEN f ELSE Rec(f, fl.a, <<>>, 1)
Half(fl) == IF Len(fl.a) = 1 THEN (Len(fl.b) - 1) \div 2 ELSE 0
(* a changed rate centres FIR filters *)
Centred(fl, x) == IF Len(fl.a) > 1 THEN Causal(fl, x)
                  ELSE LET f == TLCEval(Conv(x, fl.b, Len(x) + Half(fl))) IN SubSeq(f, 1 + Half(fl), Len(x) + Half(fl))
Down(fl, x) == LET y == TLCEval(Centred(fl, x)) IN [i \in 1..((Len(x) + 1) \div 2) |-> y[2 * i - 1]]
Up(fl, x) == Centred(fl, [i \in 1..(2 * Len(x)) |-> IF i % 2 = 1 THEN 2 * x[(i + 1) \div 2] ELSE 0])
Mirror(v) == [i \in 1..Len(v) |-> IF i % 2 = 0 THEN -v[i] ELSE v[i]]
Neg(v) == [i \in 1..Len(v) |-> -v[i]]
Add(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]

(* --- quadrature mirror filters ---------------------------------------------- *)
High(fl) == [b |-> Mirror(fl.b), a |-> Mirror(fl.a)]
Syn(fl) == [b |-> Neg(Mirror(fl.b)), a |-> Mirror(fl.a)]
Bands(fl, x, down) == IF down THEN <<Down(fl, x), Down(High(fl), x)>> ELSE <<Causal(fl, x), Causal(High(fl), x)>>
Back(fl, bs, up) == IF up THEN Add(Up(fl, bs[1]), Up(Syn(fl), bs[2])) ELSE Add(Centred(fl, bs[1]), Centred(Syn(fl), bs[2]))
(* what the network should do as a whole: no aliasing, only the transfer
   function H(z)^2 - H(-z)^2, advanced by the centred filters *)
Total(fl) == LET n == 2 * Len(fl.b) - 1
                 m == Mirror(fl.b)
                 p == Conv(fl.b, fl.b, n)
                 q == Conv(m, m, n)
             IN  [i \in 1..n |-> p[i] - q[i]]
Whole(fl, x, up) == LET t == Total(fl)
                        s == IF up THEN 2 * Half(fl) ELSE Half(fl)
                    IN  [i \in 1..Len(x) |-> SumTo([k \in 1..Len(t) |-> t[k] * Get(x, i + s - k + 1)], Len(t))]
NoAlias(fl, x, up) == Len(fl.a) > 1 \/
    LET y == Back(fl, Bands(fl, x, up), up)
        w == Whole(fl, x, up)
    IN  \A i \in (Len(fl.b) + 1)..(Len(x) - Len(fl.b)) : y[i] = w[i]

(* --- Linkwitz-Riley crossovers ---------------------------------------------- *)
Grid == <<2, 3, 4, 6, 8, 9>>                                     \* 24ths of the sampling rate
Tan == <<2679, 4142, 5774, 10000, 17321, 24142>>                  \* 1e-4
RECURSIVE Pw(_, _)
Pw(v, n) == IF n = 0 THEN 10000 ELSE Rnd(Pw(v, n - 1) * v, 10000)
(* magnitude of the low (or high) band at grid point i of a crossover at c *)
Lr(i, c, n, low, zp) ==
    LET below == Tan[i] <= Tan[c]
        p == Pw(IF below THEN Rnd(Tan[i] * 10000, Tan[c]) ELSE Rnd(Tan[c] * 10000, Tan[i]), n)
        den == Isqrt(100000000 + p * p)
        num == IF below = low THEN 10000 ELSE p
    IN  IF n % 2 = 0 THEN Rnd(num * 10000, 10000 + p)
        ELSE LET m == Rnd(num * 10000, den) IN IF zp THEN Rnd(m * m, 10000) ELSE m
Order(ev) == CHOOSE s \in [1..Len(ev.c) -> 1..Len(ev.c)] : \A i \in 1..(Len(ev.c) - 1) : ev.c[s[i]] < ev.c[s[i + 1]]
RECURSIVE Chain(_, _, _, _, _)
Chain(ev, s, i, b, k) ==
    IF k > Len(ev.c) \/ k > b THEN 10000
    ELSE Rnd(Lr(i, ev.c[s[k]], ev.o[s[k]], k = b, ev.zp) * Chain(ev, s, i, b, k + 1), 10000)
LrRows(ev) ==
    LET s == Order(ev)
        n == Len(ev.c) + 1
        row(b, g) == [i \in 1..6 |-> <<Chain(ev, s, i, b, 1) * g, 12 * g>>]
        all(g) == [i \in 1..6 |-> <<10000 * g, 6 * g>>]
        one(g) == IF ev.sum THEN <<all(g)>> ELSE [b \in 1..n |-> row(b, g)] \o <<all(g)>>
        per == [c \in 1..Len(ev.g) |-> one(ev.g[c])]
        k == Len(per[1])
        flat == [j \in 1..(k * Len(ev.g)) |-> per[(j - 1) \div k + 1][((j - 1) % k) + 1]]
    IN  flat \o (IF ev.zp THEN [c \in 1..Len(ev.g) |-> << <<10000 * ev.g[c], 3 * ev.g[c]>>, <<0, 3 * ev.g[c]>> >>] ELSE <<>>)

(* --- complementary filters -------------------------------------------------- *)
CompRow(b) ==
    LET n == Len(b)
        k(i) == IF i <= n \div 2 THEN n \div 2 - i ELSE i - n \div 2 - 1
        e(i) == Rnd(6366, 2 * k(i) + 1) \div 2
    IN  IF n % 2 = 1 THEN [i \in 1..n |-> <<(IF i = (n + 1) \div 2 THEN 10000 ELSE 0), 0>>]
        \* a windowed half-sample delay, whatever the prototype
        ELSE [i \in 1..n |-> <<(IF k(i) % 2 = 0 THEN e(i) ELSE -e(i)), e(i) + 2>>]
Delayed(x, d) == [i \in 1..Len(x) |-> <<Get(x, i - d) * 10000, 0>>]

Exa(v) == [i \in 1..Len(v) |-> <<v[i] * 10000, 0>>]
Ok(st, kind, res) == [st |-> [n |-> st.n + 1, sound |-> st.sound], out |-> [ok |-> TRUE, kind |-> kind, res |-> res]]
Fail(st) == [st |-> [n |-> st.n + 1, sound |-> st.sound], out |-> [ok |-> FALSE]]
SpInit(i) == [n |-> 0, sound |-> TRUE]
SpStep(st, ev) ==
    CASE ev.op = "bad" -> Fail(st)
      [] ev.op = "comp" -> Ok(st, IF Len(ev.b) % 2 = 0 THEN "sym" ELSE "near",
                              <<CompRow(ev.b)>> \o (IF Len(ev.b) % 2 = 0 THEN <<>> ELSE [c \in 1..Len(ev.x) |-> Delayed(ev.x[c], (Len(ev.b) - 1) \div 2)]))
      [] ev.op = "split" -> Ok(st, "near", LET b == TLCEval([c \in 1..Len(ev.x) |-> Bands(ev.f, ev.x[c], ev.down)])
                                           IN  IF ev.sum THEN [c \in 1..Len(b) |-> Exa(Add(b[c][1], b[c][2]))]
                                               ELSE [j \in 1..(2 * Len(b)) |-> Exa(b[(j + 1) \div 2][2 - (j % 2)])])
      [] ev.op = "qmf" ->
            LET y == TLCEval([c \in 1..Len(ev.x) |-> Back(ev.f, Bands(ev.f, ev.x[c], ev.down), ev.down)])
                r == Ok(st, "near", [c \in 1..Len(y) |-> Exa(y[c])])
            IN  [r EXCEPT !.st.sound = st.sound /\ \A c \in 1..Len(ev.x) : NoAlias(ev.f, ev.x[c], ev.down)]
      [] ev.op = "back" -> Ok(st, "near", [c \in 1..Len(ev.lo) |-> Exa(Back(ev.f, <<ev.lo[c], ev.hi[c]>>, ev.up))])
      [] ev.op = "lr" -> Ok(st, "near", LrRows(ev))
      \* -3 dB at both cutoffs, open between them
      [] ev.op = "oct" -> Ok(st, "near", [b \in 1..ev.bands |-> << <<7071, 8>>, (IF b = ev.bands /\ ev.open THEN <<7071, 2000000000>> ELSE <<7071, 8>>), <<9800, 202>> >>])
      \* the sum is an impulse in the middle
      [] ev.op = "rec" -> Ok(st, "near", << << <<ev.n \div 2, 0>>, <<10000 - (25000 \div ev.n), 2 + 25000 \div ev.n>>, <<0, 2>> >>,
                                            [b \in 1..ev.bands |-> <<10000, IF ev.n >= 4096 THEN 600 ELSE 2000000000>>] >>)
      \* resynthesis: 4 ms late, unity gain at the centre of every band, nothing before
      [] ev.op = "gamma" -> Ok(st, "near", [c \in 1..Len(ev.p) |-> << <<ev.p[c] + (4 * ev.fs) \div 1000, 1>>, <<0, 2>>, <<10000, 300>>, <<10000, 300>> >>])

CloseV(e, o) == LET d == o - e[1] IN d <= e[2] /\ -d <= e[2]
SpMatch(out, ob) ==
    /\ "ok" \in DOMAIN ob /\ ob.ok = out.ok
    /\ out.ok => /\ Len(out.res) = Len(ob.res)
                 /\ \A i \in 1..Len(out.res) : Len(out.res[i]) = Len(ob.res[i]) /\ \A j \in 1..Len(out.res[i]) : CloseV(out.res[i][j], ob.res[i][j])
                 /\ out.kind = "sym" => \A j \in 1..Len(ob.res[1]) : CloseV(<<ob.res[1][j], 1>>, ob.res[1][Len(ob.res[1]) + 1 - j])
(* splitting and joining never leaves aliases *)
SpInv(st) == st.sound

SpStarts == {[i |-> 0]}
Sig(n) == [i \in 1..n |-> ((i * i * 7 + 3 * i) % 11) - 5]
Imp(n, p) == [i \in 1..n |-> IF i = p THEN 3 ELSE 0]
Taps == {<<1, 1>>, <<1, 2>>, <<2>>, <<1, 2, 1>>, <<1, -2, 3>>, <<1, 3, 3, 1>>, <<1, 0, 2, -1>>, <<1, 2, 3, 2, 1>>}
SpEvents(st) ==
    {[op |-> "qmf", f |-> [b |-> b, a |-> <<1>>], x |-> <<Sig(n), Imp(n, 3)>>, down |-> d] : b \in Taps, n \in 6..17, d \in BOOLEAN}
    \cup {[op |-> "qmf", f |-> [b |-> b, a |-> <<1, a>>], x |-> <<Sig(n)>>, down |-> d] : b \in {<<1, 2>>, <<2, 1>>}, a \in {-1, 1}, n \in {6, 9, 12}, d \in BOOLEAN}
    \cup {[op |-> "split", f |-> [b |-> b, a |-> <<1>>], x |-> <<Sig(n), Imp(n, 4)>>, down |-> d, sum |-> s] : b \in Taps, n \in {6, 7, 11}, d \in BOOLEAN, s \in BOOLEAN}
    \cup {[op |-> "back", f |-> [b |-> b, a |-> <<1>>], lo |-> <<Sig(5)>>, hi |-> <<Imp(5, 2)>>, up |-> d] : b \in Taps, d \in BOOLEAN}
    \cup {[op |-> "comp", b |-> b, x |-> <<Sig(9), Imp(9, 5)>>] : b \in {<<1, 2, 1>>, <<3, 1, 3>>, <<1, 0, -4, 0, 1>>, <<2>>, <<1, 2, 2, 1>>, <<5, 1, 1, 1, 1, 5>>, <<0, 0, 0, 0, 0, 0, 0, 0>>}}
    \cup {[op |-> "lr", c |-> c, o |-> o, zp |-> z, sum |-> s, g |-> <<1, 2>>] :
            c \in {<<1>>, <<4>>}, o \in {<<1>>, <<2>>, <<3>>, <<4>>, <<8>>}, z \in BOOLEAN, s \in BOOLEAN}
    \cup {[op |-> "lr", c |-> c, o |-> o, zp |-> z, sum |-> FALSE, g |-> <<1>>] :
            c \in {<<1, 4>>, <<5, 2>>, <<6, 3>>}, o \in {<<1, 4>>, <<2, 3>>, <<4, 2>>}, z \in BOOLEAN}
=============================================================================
