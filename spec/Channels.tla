------------------------------ MODULE Channels ------------------------------
(***************************************************************************)
(* A signal as a sequence of channels of rational samples with a common    *)
(* denominator: channel = sequence of <<re, im>> numerators.  Amplitude    *)
(* limiting divides everything by the peak (i.e. makes the peak the new    *)
(* denominator) whenever samples are stored while it is on, and sf is the  *)
(* factor which was applied then.  Every event answers                     *)
(*   [ok, state dump, dump of a derived signal or <<>>].                   *)
(* A rejected operation leaves the state as it was.                        *)
(***************************************************************************)
EXTENDS Base

SC == 4096                       \* fixed-point scale of observed samples
LIM == 100000                    \* beyond it numbers are no longer tracked

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE MaxOf(_)
MaxOf(s) == IF s = <<>> THEN 0 ELSE Max2(Head(s), MaxOf(Tail(s)))
AllAbs(ch) == [c \in 1..Len(ch) |-> MaxOf([k \in 1..Len(ch[c]) |-> Max2(Abs(ch[c][k][1]), Abs(ch[c][k][2]))])]
PeakN(ch) == MaxOf(AllAbs(ch))

RECURSIVE GcdAll(_, _)
GcdAll(xs, g) == IF xs = <<>> \/ g = 1 THEN g ELSE GcdAll(Tail(xs), Gcd(g, Head(xs)))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Nums(ch) == Flat([c \in 1..Len(ch) |-> [k \in 1..Len(ch[c]) |-> Gcd(Abs(ch[c][k][1]), Abs(ch[c][k][2]))]])

(* signal record: ch, den, cx (has imaginary part), fs, con, sf = <<num,den>>,
   big (numbers out of tracked range) *)
Reduce(s) ==
    IF s.big THEN s ELSE
    LET g == GcdAll(Nums(s.ch), s.den)
        r == IF g <= 1 THEN s
             ELSE [s EXCEPT !.den = @ \div g,
                            !.ch = [c \in 1..Len(s.ch) |-> [k \in 1..Len(s.ch[c]) |->
                                       <<QuotS(s.ch[c][k][1], g), QuotS(s.ch[c][k][2], g)>>]]]
    IN  IF PeakN(r.ch) > LIM \/ r.den > 8000 THEN [r EXCEPT !.big = TRUE] ELSE r

(* storing samples *)
Store(s, ch, den, cx) ==
    LET p == PeakN(ch) IN
    IF s.con /\ p > den
    THEN Reduce([s EXCEPT !.ch = ch, !.den = p, !.cx = cx,
                          !.sf = <<den \div Gcd(p, den), p \div Gcd(p, den)>>])
    ELSE Reduce([s EXCEPT !.ch = ch, !.den = den, !.cx = cx, !.sf = <<1, 1>>])

MulCh(ch, m) == [c \in 1..Len(ch) |-> [k \in 1..Len(ch[c]) |-> <<ch[c][k][1] * m, ch[c][k][2] * m>>]]

(* channels of possibly different denominators side by side *)
Join(a, da, b, db) ==
    LET g == Gcd(da, db)
        l == (da \div g) * db
    IN  [ch |-> MulCh(a, l \div da) \o MulCh(b, l \div db), den |-> l,
         big |-> l > 8000 \/ PeakN(a) * (l \div da) > LIM \/ PeakN(b) * (l \div db) > LIM]

StoreJoin(s, b, db, cx) ==
    LET g == Gcd(s.den, db)
        l == (s.den \div g) * db
    IN  IF l > 8000 THEN [s EXCEPT !.ch = s.ch \o b, !.big = TRUE, !.cx = cx]
        ELSE LET j == Join(s.ch, s.den, b, db) IN Store(s, j.ch, j.den, cx)

Z == <<0, 0>>
(* length change of a channel, at the end or at the beginning *)
FitC(c, n, atend) ==
    IF atend THEN [k \in 1..n |-> IF k <= Len(c) THEN c[k] ELSE Z]
    ELSE [k \in 1..n |-> LET j == k + Len(c) - n IN IF j >= 1 THEN c[j] ELSE Z]

CHInit(i) == Store([ch |-> i.ch, den |-> 1, cx |-> i.cx, fs |-> i.fs, con |-> i.con, sf |-> <<1, 1>>, big |-> FALSE],
                   i.ch, i.den, i.cx)

Sig(s) == IF s.big THEN "big"
          ELSE [ch |-> s.ch, den |-> s.den, cx |-> s.cx, fs |-> s.fs, con |-> s.con, sf |-> s.sf]

Derive(s, ch, cx) == Store(s, ch, s.den, cx)

Ret(s, d, take) == [st |-> IF take THEN d ELSE s, out |-> [ok |-> TRUE, me |-> Sig(s), res |-> Sig(d)]]
Upd(s) == [st |-> s, out |-> [ok |-> TRUE, me |-> Sig(s), res |-> "none"]]
Rej(s) == [st |-> s, out |-> [ok |-> FALSE, me |-> Sig(s), res |-> "none"]]

AddC(a, b) == [k \in 1..Len(a) |-> <<a[k][1] + b[k][1], a[k][2] + b[k][2]>>]
RECURSIVE SumC(_)
SumC(ch) == IF Len(ch) = 1 THEN ch[1] ELSE AddC(Head(ch), SumC(Tail(ch)))

Perm(p, n) == Len(p) = n /\ \A x \in 0..(n - 1) : \E k \in 1..n : p[k] = x

CHStep(s, ev) ==
    LET n == Len(s.ch)
        L == Len(s.ch[1])
    IN
    CASE ev.op = "data" -> Upd(Store(s, ev.ch, ev.den, ev.cx))
      [] ev.op = "imag" ->            \* replaces the imaginary part
           IF Len(ev.im) # n \/ Len(ev.im[1]) # L THEN Rej(s)
           ELSE Upd([s EXCEPT !.cx = TRUE,
                        !.ch = [c \in 1..n |-> [k \in 1..L |-> <<s.ch[c][k][1], ev.im[c][k] * s.den>>]]])
      [] ev.op = "real" -> Upd([s EXCEPT !.cx = FALSE,
                        !.ch = [c \in 1..n |-> [k \in 1..L |-> <<s.ch[c][k][1], 0>>]]])
      [] ev.op = "constrain" ->
           Upd(IF ev.on THEN Store([s EXCEPT !.con = TRUE], s.ch, s.den, s.cx) ELSE [s EXCEPT !.con = FALSE])
      [] ev.op = "fs" -> IF ev.valid THEN Upd([s EXCEPT !.fs = ev.v]) ELSE Rej(s)
      [] ev.op = "add" ->
           IF ev.fs # s.fs \/ (~ev.fit /\ Len(ev.ch[1]) # L) THEN Rej(s)
           ELSE Upd(StoreJoin(s, [c \in 1..Len(ev.ch) |-> FitC(ev.ch[c], L, TRUE)], ev.den, s.cx \/ ev.cx))
      [] ev.op = "remove" ->
           LET k == IF ev.k = -1 THEN n - 1 ELSE ev.k IN
           IF n = 1 \/ k >= n THEN Rej(s)
           ELSE Upd(Store(s, [c \in 1..(n - 1) |-> IF c <= k THEN s.ch[c] ELSE s.ch[c + 1]], s.den, s.cx))
      [] ev.op = "swap" ->
           IF ~Perm(ev.p, n) THEN Rej(s)
           ELSE Upd(Store(s, [c \in 1..n |-> s.ch[ev.p[c] + 1]], s.den, s.cx))
      [] ev.op = "get" ->
           IF \E k \in 1..Len(ev.p) : ev.p[k] >= n \/ ev.p[k] < -n THEN Rej(s)
           ELSE Ret(s, Derive(s, [c \in 1..Len(ev.p) |-> s.ch[IF ev.p[c] < 0 THEN ev.p[c] + n + 1 ELSE ev.p[c] + 1]], s.cx), ev.take)
      [] ev.op = "sum" -> Ret(s, Derive(s, << SumC(s.ch) >>, s.cx), ev.take)
      [] ev.op = "copy" -> Ret(s, s, ev.take)
      [] ev.op = "append" ->          \* join with other signals; ev.me is the position of this one
           IF \E k \in 1..Len(ev.oth) : ev.oth[k].fs # s.fs \/ (~ev.fit /\ Len(ev.oth[k].ch[1]) # L)
           THEN Rej(s)
           ELSE LET o == [k \in 1..Len(ev.oth) |->
                            [ev.oth[k] EXCEPT !.ch = [c \in 1..Len(ev.oth[k].ch) |-> FitC(ev.oth[k].ch[c], L, ev.atend)]]]
                    all == Flat([k \in 1..Len(o) |-> MulCh(o[k].ch, 4 \div o[k].den)])
                    cx == s.cx \/ \E k \in 1..Len(o) : o[k].cx
                IN  Ret(s, StoreJoin(s, all, 4, cx), ev.take)

NearQ(o, v, den) == LET d == o * den - v * SC IN d <= 2 * den /\ -d <= 2 * den

SigMatch(e, o) ==
    \/ ToString(e) = ToString("big")
    \/ /\ ToString(e) = ToString("none") /\ ToString(o) = ToString("none")
    \/ /\ ToString(e) # ToString("none") /\ ToString(o) # ToString("none")
       /\ o.n = Len(e.ch) /\ o.len = Len(e.ch[1])
       /\ o.cx = e.cx /\ o.fs = e.fs /\ o.con = e.con
       /\ NearQ(o.sf, e.sf[1], e.sf[2])
       /\ Len(o.re) = Len(e.ch) /\ Len(o.im) = Len(e.ch)
       /\ \A c \in 1..Len(e.ch) :
            /\ Len(o.re[c]) = Len(e.ch[c]) /\ Len(o.im[c]) = Len(e.ch[c])
            /\ \A k \in 1..Len(e.ch[c]) : /\ NearQ(o.re[c][k], e.ch[c][k][1], e.den)
                                          /\ NearQ(o.im[c][k], e.ch[c][k][2], e.den)

CHMatch(out, ob) ==
    /\ ~IsErr(ob)
    /\ ob.ok = out.ok
    /\ SigMatch(out.me, ob.me)
    /\ SigMatch(out.res, ob.res)

(* limited amplitudes never exceed full scale right after storing; all
   channels have the same length *)
CHInv(s) == s.big \/ ( /\ s.den >= 1 /\ Len(s.ch) >= 1
                       /\ \A c \in 1..Len(s.ch) : Len(s.ch[c]) = Len(s.ch[1])
                       /\ s.sf[1] <= s.sf[2] )

(* ---------------------------- small behaviours -------------------------- *)
R(x) == [k \in 1..Len(x) |-> <<x[k], 0>>]
X1 == R(<<1, -2, 3, 0>>)
X2 == R(<<4, 0, -1, 2>>)
X3 == << <<1, 2>>, <<0, -6>>, <<3, 3>>, <<-1, 0>> >>
X4 == R(<<8, 1, -3, 5>>)
X5 == R(<<2, 7>>)
X6 == R(<<1, 3, -1, 2, 6, 5>>)
CHStarts == { [ch |-> c, den |-> 4, cx |-> FALSE, fs |-> 1, con |-> k] :
                 c \in { <<X1>>, <<X1, X2>>, <<X2, X4, X1>> }, k \in BOOLEAN }
            \cup { [ch |-> <<X3, X1>>, den |-> 4, cx |-> TRUE, fs |-> 1, con |-> k] : k \in BOOLEAN }
CHEvents(s) ==
    LET n == Len(s.ch)
        L == Len(s.ch[1])       \* a signal has at least as many samples as channels
    IN
    { [op |-> "data", ch |-> c, den |-> 4, cx |-> FALSE] : c \in { <<X4, X2>>, <<X5>> } }
    \cup { [op |-> "data", ch |-> << X3 >>, den |-> 4, cx |-> TRUE] }
    \cup { [op |-> "imag", im |-> [c \in 1..n |-> [k \in 1..Len(s.ch[1]) |-> c - k]]], [op |-> "imag", im |-> <<<<1>>>>], [op |-> "real"] }
    \cup { [op |-> "constrain", on |-> x] : x \in BOOLEAN }
    \cup { [op |-> "fs", v |-> 2, valid |-> x] : x \in BOOLEAN }
    \cup (IF n > 3 \/ n + 1 > L THEN {} ELSE
          { [op |-> "add", ch |-> <<c>>, den |-> 4, cx |-> FALSE, fs |-> s.fs, fit |-> f] : c \in {X1, X4, X5, X6}, f \in BOOLEAN }
          \cup { [op |-> "add", ch |-> << X3 >>, den |-> 4, cx |-> TRUE, fs |-> f, fit |-> TRUE] : f \in {1, 2} })
    \cup { [op |-> "remove", k |-> x] : x \in {-1, 0, 1, 7} }
    \cup { [op |-> "swap", p |-> x] : x \in { <<0>>, <<1, 0>>, <<0, 0>>, <<2, 0, 1>>, <<1, 2, 0, 3>>, <<0, 1, 3>> } }
    \cup { [op |-> "get", p |-> x, take |-> t] : x \in { <<0>>, <<-1>>, <<1, 0>>, <<2, 0>>, <<0, 0>> }, t \in {TRUE} }
    \cup { [op |-> "sum", take |-> x] : x \in BOOLEAN }
    \cup { [op |-> "copy", take |-> TRUE] }
    \cup (IF n > 2 \/ n + 2 > L THEN {} ELSE
          { [op |-> "append", oth |-> o, fit |-> f, atend |-> a, take |-> TRUE] :
             o \in { << [ch |-> <<X4>>, den |-> 4, cx |-> FALSE, fs |-> 1] >>,
                     << [ch |-> <<X5>>, den |-> 4, cx |-> FALSE, fs |-> 1], [ch |-> <<X3>>, den |-> 4, cx |-> TRUE, fs |-> 1] >>,
                     << [ch |-> <<X6>>, den |-> 4, cx |-> FALSE, fs |-> 1] >> },
             f \in BOOLEAN, a \in BOOLEAN })
=============================================================================
