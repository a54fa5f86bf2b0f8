------------------------------- MODULE Convert ------------------------------
(***************************************************************************)
(* Sample formats and units.  State: samples d/den of full scale in format *)
(* f (as an array or as bytes); err bounds the deviation of the real       *)
(* samples, in 2^-31 of full scale.  Integer codes are seen relative to    *)
(* the equilibrium ("levels"), so that 32-bit values stay within range.    *)
(* The conversions between units do not change the state.                  *)
(* Results are sequences of <<value, tolerance>>.                          *)
(***************************************************************************)
EXTENDS Base

NO == <<>>
Bits(f) == CASE f \in {"i8", "u8"} -> 8 [] f \in {"i16", "u16"} -> 16
             [] f \in {"i24", "u24"} -> 24 [] f \in {"i32", "u32"} -> 32
IsInt(f) == f \in {"i8", "u8", "i16", "u16", "i24", "u24", "i32", "u32"}
Fmts == {"i8", "u8", "i16", "u16", "i24", "u24", "i32", "u32", "f32", "f64"}
Signed(f) == f \in {"i8", "i16", "i24", "i32"}
MaxOf(n) == IF n = 32 THEN 2147483647 ELSE 2^(n - 1) - 1

(* a * m \div b and the remainder, 0 <= a <= b, m < 2^31, without overflow *)
RECURSIVE MD(_, _, _)
MD(a, m, b) ==
    IF m = 0 THEN <<0, 0>>
    ELSE LET h == MD(a, m \div 2, b)
             d == IF h[2] >= b - h[2] THEN <<1, h[2] - (b - h[2])>> ELSE <<0, 2 * h[2]>>
             e == IF m % 2 = 0 THEN <<0, d[2]>>
                  ELSE IF d[2] >= b - a THEN <<1, d[2] - (b - a)>> ELSE <<0, d[2] + a>>
         IN  <<2 * h[1] + d[1] + e[1], e[2]>>
(* towards zero, and downwards *)
MulDivZ(a, m, b) == IF a < 0 THEN -(MD(-a, m, b)[1]) ELSE MD(a, m, b)[1]
MulDivF(a, m, b) == IF a >= 0 THEN MD(a, m, b)[1]
                    ELSE LET r == MD(-a, m, b) IN -(r[1] + (IF r[2] = 0 THEN 0 ELSE 1))

Clip(a, b) == IF a > b THEN b ELSE IF a < -b THEN -b ELSE a

(* bytes, least significant first, of a level *)
ByteOf(v, k) == (v \div 256^k) % 256
Flip(v) == IF v >= 128 THEN v - 128 ELSE v + 128
BytesOf(v, n, signed) ==
    LET nb == n \div 8
    IN  IF signed THEN [k \in 1..nb |-> ByteOf(v, k - 1)]
        ELSE [k \in 1..nb |-> LET b == ByteOf(v - 1, k - 1) IN IF k = nb THEN Flip(b) ELSE b]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))

Dyadic(b) == b \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Whole(st, i) == st.err = 0 /\ st.d[i] \in {0, st.den, -st.den}
Ex(st) == Dyadic(st.den) \/ \A i \in 1..Len(st.d) : Whole(st, i)
(* results of many digits may be off by one where the quotient is close to an integer *)
TolInt(st, n) == IF st.err > 0 THEN 2 + st.err \div (2^Min2(30, 32 - n))
                 ELSE IF st.den >= 2^22 /\ n >= 24 /\ st.den # MaxOf(n) THEN 1 ELSE 0
TolAt(st, n, i) == IF Whole(st, i) THEN 0 ELSE TolInt(st, n)
Sat(x) == Min2(x, 2^28)

Conv(st, ev) ==
    LET o == ev.out
        c == [i \in 1..Len(st.d) |-> Clip(st.d[i], st.den)]
        n == Bits(o)
        m == MaxOf(n)
        lv == TLCEval([i \in 1..Len(c) |-> IF Signed(o) THEN MulDivZ(c[i], m, st.den) ELSE MulDivF(c[i], m, st.den)])
        t == TolInt(st, n)
        tf == 3 + st.err \div 200
        bad == o \notin Fmts \/ o = st.f \/ (IsInt(o) /\ n = 24 /\ ev.cast /\ ~ev.bytes)
    IN  IF bad THEN [st |-> st, out |-> [ok |-> FALSE, kind |-> "", res |-> NO, touched |-> FALSE]]
        ELSE IF ~IsInt(o)
        THEN [st |-> [f |-> o, d |-> c, den |-> st.den, by |-> FALSE,      \* never as bytes
                      err |-> IF o = "f32" /\ ~Ex(st) THEN Sat(st.err + 256) ELSE st.err],
              out |-> [ok |-> TRUE, kind |-> o,
                       res |-> <<0, 10000000>> \o [i \in 1..Len(c) |-> <<MulDivZ(c[i], 10000000, st.den), tf>>], touched |-> FALSE]]
        ELSE LET raw == ev.bytes /\ ~ev.cast        \* bytes of floating-point numbers
                 st2 == [f |-> o, d |-> lv, den |-> m, by |-> ev.bytes,
                         err |-> IF t = 0 THEN 0 ELSE Sat(t * 2^Min2(28, 32 - n))]
             IN  [st |-> IF raw THEN st ELSE st2,
                  out |-> [ok |-> TRUE,
                           kind |-> IF ev.bytes THEN "bytes" ELSE IF ev.cast THEN o ELSE "f64",
                           res |-> <<IF Signed(o) THEN 0 ELSE m, m>>
                                   \o (IF ev.bytes /\ ev.cast /\ t = 0
                                       THEN LET b == Cat([i \in 1..Len(lv) |-> BytesOf(lv[i], n, Signed(o))])
                                            IN  [i \in 1..Len(b) |-> <<b[i], 0>>]
                                       ELSE IF ev.bytes /\ ev.cast THEN <<>>
                                       ELSE [i \in 1..Len(lv) |-> <<lv[i], TolAt(st, n, i)>>]),
                           touched |-> FALSE]]

(* --- units ------------------------------------------------------------- *)
(* logarithms of 2, 3, 5, 7 in 1e-7 *)
LogV(e) == e[1] * 3010300 + e[2] * 4771213 + e[3] * 6989700 + e[4] * 8450980
RECURSIVE PowI(_, _)
PowI(b, n) == IF n = 0 THEN 1 ELSE b * PowI(b, n - 1)
Fac(amp) == IF amp THEN 20 ELSE 10
Db(e, amp) == (Fac(amp) * LogV(e)) \div 100       \* 1e-5 dB
MaxSeq(s) == CHOOSE x \in ToSet(s) : \A y \in ToSet(s) : y <= x
ToDb(ev) ==      \* values: sequence of exponents or <<>> for zero
    LET amp == ev.amp
        tiny == IF amp THEN -615305311 ELSE -307652656
        v == TLCEval([i \in 1..Len(ev.x) |-> IF ev.x[i] = <<>> THEN tiny ELSE Db(ev.x[i], amp)])
        lo == CASE ev.lim = "dr" -> MaxSeq(v) - 100000 * ev.dr
                [] ev.lim = "min" -> Db(ev.min, amp)
                [] OTHER -> tiny
    IN  [i \in 1..Len(v) |-> <<IF v[i] < lo THEN lo ELSE v[i], 12>>]

(* closest (in octaves), next smaller, next larger power of two of p/q *)
P2(ev) ==
    LET p == ev.p
        q == ev.q
        lo == CHOOSE k \in 0..20 : 2^k * q <= p /\ p < 2^(k + 1) * q
        fl == 2^lo
        ce == IF fl * q = p THEN fl ELSE 2 * fl
    IN  CASE ev.mode = "floor" -> fl
          [] ev.mode = "ceil" -> ce
          [] OTHER -> IF p * p < 2 * fl * fl * q * q THEN fl ELSE 2 * fl

(* a / b rounded to the nearest, b > 0 *)
Rnd(a, b) == a \div b + (IF 2 * (a % b) >= b THEN 1 ELSE 0)

(* phase n * pi / k, result in units of pi / (100 k) *)
Wrap(n, k) == ((n + k) % (2 * k)) - k

(* linear interpolation of points x[i], y[i] at p/q: <<value * 1000>> *)
Lerp(xs, ys, p, q, u) ==
    LET i == CHOOSE j \in 1..(Len(xs) - 1) : xs[j] * q <= p /\ p <= xs[j + 1] * q
        d == (xs[i + 1] - xs[i]) * q
    IN  ys[i] * u + Rnd((p - xs[i] * q) * (ys[i + 1] - ys[i]) * u, d)
Inside(xs, p, q) == xs[1] * q <= p /\ p <= xs[Len(xs)] * q

(* exponential smoothing, fixed point 1e-4; a factor of f/4 rising, g/4 falling *)
RECURSIVE Ema(_, _, _, _, _)
Ema(x, y, i, f, g) ==
    IF i > Len(x) THEN y
    ELSE LET p == y[Len(y)]
             v == x[i] * 10000
             h == IF v > p THEN f ELSE g
         IN  Ema(x, Append(y, p + Rnd(h * (v - p), 4)), i + 1, f, g)

Nominal1 == <<315, 630, 1250, 2500, 5000, 10000, 20000, 40000, 80000, 160000>>
Nominal3 == <<250, 315, 400, 500, 630, 800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000, 10000, 12500,
              16000, 20000, 25000, 31500, 40000, 50000, 63000, 80000, 100000, 125000, 160000, 200000>>
Octaves(ev) ==
    LET t == IF ev.n = 1 THEN Nominal1 ELSE Nominal3
        k0 == IF ev.n = 1 THEN -6 ELSE -17
        keep == {i \in 1..Len(t) : t[i] >= 10 * ev.lo /\ t[i] <= 10 * ev.hi}
        s == IF keep = {} THEN <<>>
             ELSE LET a == CHOOSE x \in keep : \A y \in keep : x <= y
                  IN  [j \in 1..Cardinality(keep) |-> a + j - 1]
    IN  [j \in 1..Len(s) |-> <<t[s[j]], 0>>] \o [j \in 1..Len(s) |-> <<2 * (k0 + s[j]), 0>>]
        \o (IF ev.cut THEN [j \in 1..Len(s) |-> <<2 * (k0 + s[j]) - 1, 0>>] \o [j \in 1..Len(s) |-> <<2 * (k0 + s[j]) + 1, 0>>]
            ELSE <<>>)

(* positions of the logarithmic axis 1, N^(1/(N-1)), ..., N in 1e-6 *)
LogAxis(n) == CASE n = 2 -> <<1000000, 2000000>>
                [] n = 3 -> <<1000000, 1732051, 3000000>>
                [] n = 4 -> <<1000000, 1587401, 2519842, 4000000>>
                [] n = 5 -> <<1000000, 1495349, 2236068, 3343702, 5000000>>
LogMean(x) ==
    LET a == LogAxis(Len(x))
        at(p) == LET j == Min2(p \div 1000000, Len(x) - 1)
                 IN  x[j] * 1000 + Rnd((p - j * 1000000) * (x[j + 1] - x[j]), 1000)
    IN  Rnd(SumTo([i \in 1..Len(x) |-> at(a[i])], Len(x)), Len(x))

(* interpolation of y (non-negative integers) in the domain of the mode;   *)
(* the harness observes the result in the same domain, in 1e-4             *)
Interp(ev, y) ==
    [i \in 1..Len(ev.at) |->
        LET p == ev.at[i]
            n == Len(ev.xs)
            inside == Inside(ev.xs, p, 2)
        IN  IF inside THEN <<Lerp(ev.xs, y, p, 2, 10000), 3>>
            ELSE IF ev.edge THEN <<IF p < 2 * ev.xs[1] THEN y[1] * 10000 ELSE y[n] * 10000, 3>>
            ELSE <<0, 3>>]

Unit(ev) ==      \* <<allowed, expected>>
    CASE ev.op = "todb" -> <<TRUE, ToDb(ev)>>
      [] ev.op = "fromdb" -> <<TRUE, [i \in 1..Len(ev.x) |-> <<ev.x[i] * (20 \div Fac(ev.amp)) * 1000, 5>>]>>
      [] ev.op = "dbdb" -> <<TRUE, [i \in 1..Len(ev.x) |-> <<Db(ev.x[i], ev.amp), 5>>]>>
      [] ev.op = "pow2" -> IF ev.p <= 0 THEN <<FALSE, NO>> ELSE <<TRUE, << <<P2(ev), 0>> >> >>
      [] ev.op = "wrap" -> <<TRUE, [i \in 1..Len(ev.x) |-> <<100 * Wrap(ev.x[i], ev.k), 1>>]>>
      [] ev.op = "exact" -> IF ~Inside(ev.xs, ev.p, ev.q) THEN <<FALSE, NO>>
                            ELSE <<TRUE, << <<Lerp(ev.xs, ev.ys, ev.p, ev.q, 1000), 2>> >> >>
      [] ev.op = "logvec" ->    \* lo = a, hi = a * p / q, n points per octave: index of every point times 1000
            LET cnt == CHOOSE c \in 0..200 : /\ PowI(ev.p, ev.n) <= PowI(ev.q, ev.n) * 2^c
                                             /\ (c = 0 \/ PowI(ev.p, ev.n) > PowI(ev.q, ev.n) * 2^(c - 1))
            IN  <<TRUE, [i \in 1..cnt |-> <<1000 * (i - 1), 1>>]>>
      [] ev.op = "warp" -> IF Abs(ev.p) >= ev.q THEN <<FALSE, NO>>
                           ELSE <<TRUE, [i \in 1..Len(ev.x) |-> LET w == ev.x[i] IN    \* tan(omega/2) = w[1]/w[2]
                                        IF w[2] = 0 THEN <<999999999, 0>>       \* half the sampling rate stays
                                        ELSE <<Rnd(w[1] * (ev.q - ev.p) * 10000, w[2] * (ev.q + ev.p)), 3>>]>>
      [] ev.op = "octaves" -> IF ev.lo > ev.hi THEN <<FALSE, NO>> ELSE <<TRUE, Octaves(ev)>>
      [] ev.op = "erb" -> IF ev.res <= 0 THEN <<FALSE, NO>>       \* bounds and resolution in 1/100 ERB from 1 kHz
                          ELSE LET lo == Min2(ev.lo, ev.hi)
                                   hi == Max2(ev.lo, ev.hi)
                                   a == -((-lo) \div ev.res)
                                   b == hi \div ev.res
                               IN  <<TRUE, [i \in 1..(b - a + 1) |-> <<100 * (a + i - 1), 1>>]>>
      [] ev.op = "logmean" -> <<TRUE, [c \in 1..Len(ev.x) |-> <<LogMean(ev.x[c]), 3>>]>>
      [] ev.op = "ema" -> <<TRUE, << <<Rnd((ev.q - ev.p) * 100000, ev.q), 2>> >> >>
      [] ev.op = "tsm" -> <<TRUE, Cat([c \in 1..Len(ev.x) |->
                                LET y == Ema(ev.x[c], <<ev.x[c][1] * 10000>>, 2, ev.f, IF ev.g = 0 THEN ev.f ELSE ev.g)
                                IN  [i \in 1..Len(y) |-> <<y[i], Len(y) + 1>>]])>>
      [] ev.op = "interp" -> <<TRUE, Cat([c \in 1..Len(ev.ys) |-> Interp(ev, ev.ys[c])])>>
      [] ev.op = "smooth" -> <<TRUE, [c \in 1..Len(ev.x) |-> <<1, 0>>]>>      \* within the bounds of the vector, constants kept
      [] ev.op = "xover" -> <<TRUE, << <<1, 0>>, <<1, 0>>, <<1, 0>> >> >>       \* below 0, above 1, monotone

CVInit(s) == [f |-> s.f, d |-> s.d, den |-> s.den, by |-> s.by, err |-> s.err]

CVStep(st, ev) ==
    IF ev.op = "conv" THEN Conv(st, ev)
    ELSE LET u == TLCEval(Unit(ev))
         IN  [st |-> st, out |-> [ok |-> u[1], kind |-> "", res |-> u[2], touched |-> FALSE]]

Close(e, o) == LET d == o - e[1] IN d <= e[2] /\ -d <= e[2]
CVMatch(out, ob) ==
    /\ ob.ok = out.ok
    /\ ob.touched = FALSE
    /\ out.ok => /\ ob.kind = out.kind
                 /\ IF out.kind = "bytes" /\ Len(out.res) = 2 THEN Len(ob.res) >= 2       \* inexact conversion
                    ELSE /\ Len(ob.res) = Len(out.res)
                         /\ \A i \in 1..Len(out.res) :
                                IF out.kind # "" /\ i <= 2 THEN ob.res[i] = out.res[i] ELSE Close(out.res[i], ob.res[i])

(* no conversion leaves the range of its format, full scale stays full scale *)
CVInv(st) == /\ st.den > 0
             /\ IsInt(st.f) => \A i \in 1..Len(st.d) : Abs(st.d[i]) - 1 <= MaxOf(Bits(st.f))

(* --- exhaustive part --------------------------------------------------- *)
Lv(n) == LET m == MaxOf(n)
         IN  <<0, 1, -1, 2, 5, -7, m \div 2, -(m \div 3), m - 1, m, -m, 1 - m>>
CVStarts ==
    {[f |-> f, d |-> Lv(Bits(f)) \o (IF Bits(f) = 32 THEN <<3>> ELSE IF Signed(f) THEN <<-MaxOf(Bits(f)) - 1>> ELSE <<MaxOf(Bits(f)) + 1>>),
        den |-> MaxOf(Bits(f)), by |-> b, err |-> 0] :
        f \in {"i8", "u8", "i16", "u16", "i24", "u24", "i32", "u32"}, b \in {TRUE, FALSE}}
    \cup {[f |-> f, d |-> <<0, 128, -128, 64, -32, 1, 200, -300, 127, -3>>, den |-> 128, by |-> b, err |-> 0] : f \in {"f32", "f64"}, b \in {TRUE, FALSE}}
CVEvents(st) ==
    [op : {"conv"}, out : Fmts \cup {"x8"}, cast : {TRUE}, bytes : {TRUE, FALSE}, two : {FALSE}, upper : {FALSE}]
    \cup [op : {"conv"}, out : {"i8", "u24", "u32", "f32"}, cast : {FALSE}, bytes : {TRUE, FALSE}, two : {TRUE}, upper : {TRUE}]
=============================================================================
