-------------------------------- MODULE Edit --------------------------------
(***************************************************************************)
(* Edits of length and position.  A signal is one band, a multiband signal *)
(* a list of them; a band is [ch, cx, fs], fs = 1 (1000 Hz) or 2 (2000 Hz),*)
(* times are given in milliseconds (samples of the slower rate).  Every    *)
(* event answers [ok, me, res]; what was edited before is never touched.   *)
(***************************************************************************)
EXTENDS Base

None == 99999
EDInit(i) == i            \* [bands, mb, kind]

Nch(b) == Len(b.ch)
Ln(b) == Len(b.ch[1])
Z == <<0, 0>>
At(c, k) == IF k >= 1 /\ k <= Len(c) THEN c[k] ELSE Z
(* c moved by off samples, seen in a frame of n samples *)
Shift(c, off, n) == [k \in 1..n |-> At(c, k - off)]
Map(b, F(_)) == [b EXCEPT !.ch = [i \in 1..Nch(b) |-> F(b.ch[i])]]
MapI(b, F(_)) == [b EXCEPT !.ch = [i \in 1..Nch(b) |-> F(i)]]

Me(s) == s.bands
Upd(s, bs) == LET t == [s EXCEPT !.bands = bs] IN [st |-> t, out |-> [ok |-> TRUE, me |-> bs, res |-> <<>>, how |-> "eq"]]
Rej(s) == [st |-> s, out |-> [ok |-> FALSE, me |-> s.bands, res |-> <<>>, how |-> "eq"]]
Ask(s, r, h) == [st |-> s, out |-> [ok |-> TRUE, me |-> s.bands, res |-> r, how |-> h]]
Each(s, Bad(_), F(_)) ==
    IF \E k \in 1..Len(s.bands) : Bad(s.bands[k]) THEN Rej(s)
    ELSE Upd(s, [k \in 1..Len(s.bands) |-> F(s.bands[k])])

N0(v) == IF v = None THEN 0 ELSE v
Same(s) == \A k \in 1..Len(s.bands) : s.bands[k].fs = s.bands[1].fs
ChBad(ev, b) == ~ev.all /\ (\/ \E k \in 1..Len(ev.chs) : ev.chs[k] >= Nch(b)
                            \/ Cardinality(ToSet(ev.chs)) # Len(ev.chs))
Sel(ev, i) == ev.all \/ (i - 1) \in ToSet(ev.chs)
Re(c) == [k \in 1..Len(c) |-> <<c[k][1], 0>>]

(* samples at least as loud as thr, over all channels *)
Loud(b, thr) == { k \in 1..Ln(b) : \E i \in 1..Nch(b) : Abs(b.ch[i][k][1]) >= thr }
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y

(* fade gains times 100000 *)
LogTab == << <<0>>, <<0, 100000>>, <<0, 86435, 100000>>, <<0, 78551, 92054, 100000>>, <<0, 72992, 86435, 94360, 100000>>, <<0, 68707, 82090, 89994, 95624, 100000>>, <<0, 65228, 78551, 86435, 92054, 96424, 100000>>, <<0, 62304, 75568, 83432, 89041, 93405, 96976, 100000>> >>
ExpTab == << <<1>>, <<1, 100000>>, <<1, 316, 100000>>, <<1, 46, 2154, 100000>>, <<1, 18, 316, 5623, 100000>>, <<1, 10, 100, 1000, 10000, 100000>>, <<1, 7, 46, 316, 2154, 14678, 100000>>, <<1, 5, 27, 139, 720, 3728, 19307, 100000>> >>
FadeGain(type, l, k) == CASE type = "none" -> 100000
                          [] k > l -> 100000
                          [] type = "lin" -> ((k - 1) * 100000) \div (l - 1)
                          [] type = "log" -> LogTab[l][k]
                          [] type = "exp" -> ExpTab[l][k]

EDStep(s, ev) ==
    LET bs == s.bands IN
    CASE ev.op = "pad" ->
           IF s.mb /\ ~Same(s) THEN Rej(s)
           ELSE LET F(b) == LET G(c) == Shift(c, IF ev.atend THEN 0 ELSE ev.n - Ln(b), ev.n) IN Map(b, G)
                    B(b) == FALSE IN Each(s, B, F)
      [] ev.op = "len" ->
           IF ev.a = None /\ ev.b = None THEN Rej(s)
           ELSE LET Bad(b) == LET a == N0(ev.a) * b.fs
                                  e == N0(ev.b) * b.fs
                              IN Ln(b) <= -a \/ Ln(b) <= -e \/ (a < 0 /\ e < 0 /\ Ln(b) <= -a - e)
                    F(b) == LET a == N0(ev.a) * b.fs
                                e == N0(ev.b) * b.fs
                                G(c) == Shift(c, a, Ln(b) + a + e)
                            IN Map(b, G)
                IN Each(s, Bad, F)
      [] ev.op = "level" ->
           LET b == bs[1]
               L == Loud(b, ev.thr)
               st == IF ev.start THEN MinS(L) ELSE 1
               en == IF ev.end THEN MaxS(L) ELSE Ln(b)
               F(c) == SubSeq(c, st, en)
           IN IF ~(ev.start \/ ev.end) THEN Rej(s)
              ELSE [Upd(s, <<Map(b, F)>>) EXCEPT !.out.res = <<st - 1, en>>]
      [] ev.op = "time" ->
           IF ev.a = None /\ ev.b = None THEN Rej(s)
           ELSE LET First(b) == IF ev.a = None THEN 1 ELSE ev.a * b.fs + (IF ev.incl THEN 1 ELSE 2)
                    Last(b) == IF ev.b = None THEN Ln(b)
                               ELSE Min2(Ln(b), ev.b * b.fs + (IF ev.incl THEN 1 ELSE 0))
                    Bad(b) == \/ ev.a # None /\ (ev.a < 0 \/ ev.a * b.fs >= Ln(b))
                              \/ ev.b # None /\ (ev.b <= 0 \/ ev.b * b.fs > Ln(b))
                              \/ Last(b) < First(b)
                    F(b) == LET G(c) == SubSeq(c, First(b), Last(b)) IN Map(b, G)
                IN Each(s, Bad, F)
      [] ev.op = "delay" ->
           IF ev.d = 0 THEN Upd(s, bs)
           ELSE LET Bad(b) == (ev.keep /\ ev.d >= Ln(b)) \/ ChBad(ev, b)
                    F(b) == LET n == Ln(b) + (IF ev.keep THEN 0 ELSE ev.d)
                                G(i) == Shift(b.ch[i], IF Sel(ev, i) THEN ev.d ELSE 0, n)
                            IN MapI(b, G)
                IN Each(s, Bad, F)
      [] ev.op = "fdelay" ->     \* fractional delay by a whole number of samples; real part only
           IF ev.d = 0 THEN Upd(s, bs)
           ELSE LET D(b) == ev.d * b.fs
                    Bad(b) == (ev.keep /\ D(b) >= Ln(b)) \/ ChBad(ev, b)
                    F(b) == LET n == Ln(b) + (IF ev.keep THEN 0 ELSE D(b) + (ev.order + 1) \div 2)
                                G(i) == Re(Shift(b.ch[i], IF Sel(ev, i) THEN D(b) ELSE 0, n))
                            IN [MapI(b, G) EXCEPT !.cx = FALSE]
                IN Each(s, Bad, F)
      [] ev.op = "join" ->       \* appending signals as further channels
           LET b == bs[1]
               New(o) == [i \in 1..Nch(o) |-> Shift(o.ch[i], IF ev.atend THEN 0 ELSE Ln(b) - Ln(o), Ln(b))]
               RECURSIVE All(_)
               All(os) == IF os = <<>> THEN <<>> ELSE New(os[1]) \o All(Tail(os))
           IN IF (~ev.fit /\ \E k \in 1..Len(ev.oth) : Ln(ev.oth[k]) # Ln(b))
                 \/ (\E k \in 1..Len(ev.oth) : ev.oth[k].fs # b.fs)
                 \/ ev.oth = <<>>
              THEN Rej(s)
              ELSE Upd(s, <<[ch |-> b.ch \o All(ev.oth), fs |-> b.fs,
                             cx |-> b.cx \/ \E k \in 1..Len(ev.oth) : ev.oth[k].cx]>>)
      [] ev.op = "fade" ->       \* expected samples times 100000
           IF ~(ev.start \/ ev.end) THEN Rej(s)
           ELSE Ask(s, [i \in 1..Nch(bs[1]) |->
                        [k \in 1..Ln(bs[1]) |->
                          LET g == IF ev.start THEN FadeGain(ev.type, ev.l, k) ELSE 100000
                              h == IF ev.end THEN FadeGain(ev.type, ev.l, Ln(bs[1]) + 1 - k) ELSE 100000
                              x == bs[1].ch[i][k][1]
                          IN x * (IF g = 100000 THEN h ELSE IF h = 100000 THEN g
                                  ELSE (g * (h \div 10)) \div 10000)]], "near")
      [] ev.op = "latency" ->    \* of a delayed copy against the original
           Ask(s, ev.ds, "eq")
      [] ev.op = "frac" ->       \* a delay by a non-integer number of samples is a short filter
           Ask(s, [b |-> bs[1], ev |-> ev], "frac")

(* x (integers) filtered by h (fixed point, time zero at its sample 21) *)
ConvAt(x, h, n) == LET lo == Max2(1, n + 21 - Len(h))
                       hi == Min2(Len(x), n + 20)
                   IN SumSeq([k \in 1..Max2(0, hi - lo + 1) |-> x[lo + k - 1][1] * h[n - (lo + k - 1) + 21]])
FracOk(ev, b, r) ==
    LET h == r.h
        sum == SumSeq(h)
        mom == SumSeq([k \in 1..Len(h) |-> (k - 21) * h[k]])
        pk == CHOOSE k \in 1..Len(h) : \A j \in 1..Len(h) : Abs(h[k]) >= Abs(h[j])
    IN /\ r.len = Ln(b) + (IF ev.keep THEN 0 ELSE (ev.d8 \div 8) + (ev.order + 1) \div 2 + r.slack)
       /\ r.slack \in {0, 1}
       /\ \A i \in 1..Nch(b) :
            IF Sel(ev, i)
            THEN \A n \in 1..r.len : Abs(ConvAt(b.ch[i], h, n) - r.y[i][n]) <= 300
            ELSE \A n \in 1..r.len : r.y[i][n] = 100000 * At(b.ch[i], n)[1]
       /\ 8 * (pk - 21) - ev.d8 <= 8 /\ ev.d8 - 8 * (pk - 21) <= 8
       /\ ev.order >= 20 =>
            /\ Abs(sum - 100000) <= 2000
            /\ Abs(8 * (mom \div 100) - ev.d8 * (sum \div 100)) <= 1600    \* 0.2 samples

EDMatch(out, ob) ==
    /\ ~IsErr(ob) /\ ~ob.touched /\ ob.meta
    /\ out.ok = ob.ok
    /\ Conforms(out.me, ob.me)
    /\ IF out.how = "frac" THEN FracOk(out.res.ev, out.res.b, ob.res)
       ELSE IF out.how = "near" THEN Near2(out.res, ob.res, 150)
       ELSE Conforms(out.res, ob.res)

EDInv(s) == \A k \in 1..Len(s.bands) : \A i \in 1..Nch(s.bands[k]) : Len(s.bands[k].ch[i]) = Ln(s.bands[k])

(* ---------------------------- small behaviours -------------------------- *)
R(x) == [k \in 1..Len(x) |-> <<x[k], 0>>]
A1 == [ch |-> <<R(<<0, 3, -2, 5, 1>>), R(<<0, 0, 4, 0, 0>>)>>, cx |-> FALSE, fs |-> 1]
A2 == [ch |-> <<R(<<7, 0, -6, 2>>)>>, cx |-> FALSE, fs |-> 1]
A3 == [ch |-> << << <<1, 2>>, <<3, -1>>, <<0, 5>>, <<4, 0>>, <<0, 0>> >> >>, cx |-> TRUE, fs |-> 1]
A4 == [ch |-> <<R(<<1, 2, 3, 4, 5, 6, 7, 8, 9>>), R(<<0, -1, 0, 0, 6, 0, 2, 0, 1>>)>>, cx |-> FALSE, fs |-> 2]
A5 == [ch |-> <<R(<<9, -8, 7, -6, 5>>), R(<<1, 0, 0, 0, 2>>)>>, cx |-> FALSE, fs |-> 1]
EDStarts == { [bands |-> <<b>>, mb |-> FALSE, kind |-> k] : b \in {A1, A2, A3}, k \in {"sig", "ir"} }
            \cup { [bands |-> <<b>>, mb |-> FALSE, kind |-> "sig"] : b \in {A4} }
            \cup { [bands |-> b, mb |-> TRUE, kind |-> "sig"] : b \in { <<A1, A5>>, <<A1, A4>>, <<A3, A3>> } }
Chs == { <<0>>, <<1>>, <<1, 0>>, <<0, 0>>, <<2>> }
Cand(s) ==
    { [op |-> "pad", n |-> n, atend |-> e] : n \in {2, 4, 5, 7}, e \in BOOLEAN }
    \cup { [op |-> "len", a |-> a, b |-> b] : a \in {None, -5, -2, 0, 1}, b \in {None, -4, -1, 0, 2} }
    \cup { [op |-> "time", a |-> a, b |-> b, incl |-> i] :
             a \in {None, 0, 1, 3, 5, -1}, b \in {None, 0, 1, 3, 4, 6}, i \in BOOLEAN }
    \cup { [op |-> "delay", d |-> d, all |-> FALSE, chs |-> c, keep |-> k] : d \in {1, 3, 5}, c \in Chs, k \in BOOLEAN }
    \cup { [op |-> "delay", d |-> d, all |-> TRUE, chs |-> <<>>, keep |-> k] : d \in {0, 2}, k \in BOOLEAN }
    \cup { [op |-> "fdelay", d |-> d, all |-> FALSE, chs |-> c, keep |-> k, order |-> o] :
             d \in {1, 4}, c \in { <<0>>, <<1, 0>> }, k \in BOOLEAN, o \in {4, 7} }
    \cup (IF s.mb THEN {} ELSE
            { [op |-> "level", thr |-> t, start |-> a, end |-> e] :
                t \in { x \in 1..9 : Loud(s.bands[1], x) # {} } \cap {1, 3, 4}, a \in BOOLEAN, e \in BOOLEAN }
            \cup { [op |-> "join", oth |-> o, fit |-> f, atend |-> e] :
                     o \in { <<>>, <<A2>>, <<A3>>, <<A4>> }, f \in BOOLEAN, e \in BOOLEAN }
            \cup { [op |-> "fade", type |-> t, l |-> l, start |-> a, end |-> e] :
                     t \in {"none", "lin", "log", "exp"}, l \in { x \in {2, 3, 6} : x + 1 < Ln(s.bands[1]) },
                     a \in BOOLEAN, e \in BOOLEAN })
Fine(s) == \A k \in 1..Len(s.bands) : LET b == s.bands[k] IN Ln(b) >= Nch(b) /\ Ln(b) >= 3 /\ Ln(b) <= 16 /\ Nch(b) <= 3
EDEvents(s) == { ev \in Cand(s) : Fine(EDStep(s, ev).st) }
=============================================================================
