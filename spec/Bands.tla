------------------------------- MODULE Bands --------------------------------
(***************************************************************************)
(* A multiband signal: an ordered list of bands, each [ch, cx, fs] with ch *)
(* a sequence of channels of <<re, im>> integers.  same = one sampling     *)
(* rate (then one length) for all bands.  Every event answers              *)
(* [ok, me, res]; a rejected edit changes nothing, reading never does.     *)
(***************************************************************************)
EXTENDS Base

MBInit(i) == [bands |-> i.bands, same |-> i.same]

Nch(b) == Len(b.ch)
Ln(b) == Len(b.ch[1])
Fine(bs, same) ==
    \A k \in 1..Len(bs) :
        /\ Nch(bs[k]) = Nch(bs[1]) /\ bs[k].cx = bs[1].cx
        /\ same => bs[k].fs = bs[1].fs /\ Ln(bs[k]) = Ln(bs[1])

Me(s) == [bands |-> s.bands, same |-> s.same]
Upd(s, b) == LET t == [s EXCEPT !.bands = b] IN [st |-> t, out |-> [ok |-> TRUE, me |-> Me(t), res |-> "none"]]
Rej(s) == [st |-> s, out |-> [ok |-> FALSE, me |-> Me(s), res |-> "none"]]
Ans(s, r) == [st |-> s, out |-> [ok |-> TRUE, me |-> Me(s), res |-> r]]
Try(s, b) == IF Fine(b, s.same) THEN Upd(s, b) ELSE Rej(s)

InsertAt(b, f, k) == SubSeq(b, 1, k) \o <<f>> \o SubSeq(b, k + 1, Len(b))
RemoveAt(b, k) == SubSeq(b, 1, k - 1) \o SubSeq(b, k + 1, Len(b))
Perm(p, n) == Len(p) = n /\ \A x \in 0..(n - 1) : \E k \in 1..n : p[k] = x

AddC(a, b) == [k \in 1..Len(a) |-> <<a[k][1] + b[k][1], a[k][2] + b[k][2]>>]
AddB(a, b) == [a EXCEPT !.ch = [c \in 1..Nch(a) |-> AddC(a.ch[c], b.ch[c])]]
RECURSIVE SumB(_)
SumB(bs) == IF Len(bs) = 1 THEN bs[1] ELSE AddB(bs[1], SumB(Tail(bs)))

Z == <<0, 0>>
FitC(c, n, atend) ==
    IF atend THEN [k \in 1..n |-> IF k <= Len(c) THEN c[k] ELSE Z]
    ELSE [k \in 1..n |-> LET j == k + Len(c) - n IN IF j >= 1 THEN c[j] ELSE Z]
(* channel c of every band, band by band *)
Gather(bs, c) == [k \in 1..Len(bs) |-> bs[k].ch[c]]
RECURSIVE JoinBands(_, _, _, _)
JoinBands(b, os, k, e) ==
    IF os = <<>> THEN b
    ELSE JoinBands([b EXCEPT !.ch = @ \o [c \in 1..Nch(os[1][k]) |-> FitC(os[1][k].ch[c], Ln(b), e)],
                             !.cx = @ \/ os[1][k].cx], Tail(os), k, e)
Rates(bs) == [k \in 1..Len(bs) |-> bs[k].fs]
Lens(bs) == [k \in 1..Len(bs) |-> Ln(bs[k])]

MBStep(s, ev) ==
    LET b == s.bands
        n == Len(b)
    IN
    CASE ev.op = "add" -> Try(s, InsertAt(b, ev.b, IF ev.at = -1 \/ ev.at > n THEN n ELSE ev.at))
      [] ev.op = "remove" ->
           LET k == IF ev.k = -1 THEN n ELSE ev.k + 1 IN
           IF n = 0 \/ k > n THEN Rej(s)
           ELSE LET u == Upd(s, RemoveAt(b, k)) IN IF ev.ret THEN [u EXCEPT !.out.res = b[k]] ELSE u
      [] ev.op = "swap" -> IF ~Perm(ev.p, n) THEN Rej(s) ELSE Upd(s, [k \in 1..n |-> b[ev.p[k] + 1]])
      [] ev.op = "set" -> IF ~ev.valid THEN Rej(s) ELSE Try(s, ev.bl)
      [] ev.op = "copy" -> Upd(s, b)
      [] ev.op = "collapse" ->
           IF ~s.same THEN Rej(s) ELSE IF n = 0 THEN Ans(s, "free") ELSE Ans(s, SumB(b))
      [] ev.op = "channel" ->      \* all bands of one channel
           IF n = 0 THEN Ans(s, "free")
           ELSE IF ev.c > Nch(b[1]) THEN Rej(s)
           ELSE Ans(s, [ch |-> Gather(b, ev.c), cx |-> b[1].cx, fs |-> IF s.same THEN <<b[1].fs>> ELSE Rates(b)])
      [] ev.op = "all" ->
           IF n = 0 THEN Ans(s, "free") ELSE Ans(s, b)
      [] ev.op = "append" ->       \* the channels of other multiband signals, band by band
           IF \E k \in 1..Len(ev.oth) :
                 \/ Len(ev.oth[k]) # n \/ Rates(ev.oth[k]) # Rates(b)
                 \/ (~ev.fit /\ Lens(ev.oth[k]) # Lens(b))
           THEN Rej(s)
           ELSE Upd(s, [k \in 1..n |-> JoinBands(b[k], ev.oth, k, ev.atend)])
      [] ev.op = "info" ->
           IF n = 0 THEN Ans(s, [n |-> 0, ch |-> 0, len |-> <<0>>, cx |-> FALSE, fs |-> <<>>])
           ELSE Ans(s, [n |-> n, ch |-> Nch(b[1]), len |-> IF s.same THEN <<Ln(b[1])>> ELSE Lens(b), cx |-> b[1].cx,
                     fs |-> IF s.same THEN <<b[1].fs>> ELSE Rates(b)])

MBMatch(out, ob) ==
    /\ ~IsErr(ob)
    /\ ~ob.touched
    /\ Conforms(out.me, ob.me)
    /\ \/ Conforms(out.res, "free")
       \/ out.ok = ob.ok /\ Conforms(out.res, ob.res)

MBInv(s) == Fine(s.bands, s.same)

(* ---------------------------- small behaviours -------------------------- *)
R(x) == [k \in 1..Len(x) |-> <<x[k], 0>>]
B1 == [ch |-> <<R(<<1, -2, 3, 0>>), R(<<4, 0, -1, 2>>)>>, cx |-> FALSE, fs |-> 1]
B2 == [ch |-> <<R(<<5, 6, 0, 7>>), R(<<0, 0, 9, -3>>)>>, cx |-> FALSE, fs |-> 1]
B3 == [ch |-> <<R(<<-1, 1, 8, 2>>), R(<<2, 2, 0, 1>>)>>, cx |-> FALSE, fs |-> 1]
C1 == [ch |-> << << <<1, 2>>, <<3, -1>>, <<0, 5>> >> >>, cx |-> TRUE, fs |-> 1]
C2 == [ch |-> << << <<2, 0>>, <<-3, 1>>, <<4, 4>> >> >>, cx |-> TRUE, fs |-> 1]
D1 == [ch |-> <<R(<<3, 1, 2, 6, 1>>), R(<<7, 0, 0, 1, 1>>)>>, cx |-> FALSE, fs |-> 2]
E1 == [ch |-> <<R(<<3, 1, 2, 6>>)>>, cx |-> FALSE, fs |-> 1]
E2 == [ch |-> <<R(<<1, 1, 2>>), R(<<2, 2, 2>>)>>, cx |-> FALSE, fs |-> 1]
MBStarts == { [bands |-> b, same |-> TRUE] : b \in { <<>>, <<B1>>, <<B2, B1, B3>>, <<C1, C2>> } }
            \cup { [bands |-> b, same |-> FALSE] : b \in { <<>>, <<B1, D1>>, <<D1, E2, B2>> } }
MBEvents(s) ==
    LET n == Len(s.bands) IN
    (IF n > 3 THEN {} ELSE { [op |-> "add", b |-> b, at |-> k] : b \in {B2, C2, D1, E1, E2}, k \in {-1, 0, 1} })
    \cup { [op |-> "remove", k |-> k, ret |-> r] : k \in {-1, 0, 1, 3}, r \in BOOLEAN }
    \cup { [op |-> "swap", p |-> p] : p \in { <<0>>, <<1, 0>>, <<2, 0, 1>>, <<1, 1>>, <<0, 1, 3>> } }
    \cup { [op |-> "set", bl |-> bl, valid |-> TRUE] : bl \in { <<B3, B2>>, <<C1>>, <<D1, B1>>, <<E1, B1>>, <<E2, B1>>, <<>> } }
    \cup { [op |-> "set", bl |-> <<C1>>, valid |-> FALSE] }
    \cup { [op |-> "copy"], [op |-> "collapse"], [op |-> "all"], [op |-> "info"] }
    \cup { [op |-> "channel", c |-> c] : c \in 1..3 }
    \cup (IF n = 0 THEN {} ELSE      \* never more channels than samples
          LET room == (CHOOSE m \in ToSet(Lens(s.bands)) : \A x \in ToSet(Lens(s.bands)) : m <= x) - Nch(s.bands[1])
          IN  (IF room >= Nch(s.bands[1]) THEN { [op |-> "append", oth |-> << s.bands >>, fit |-> TRUE, atend |-> TRUE] } ELSE {})
              \cup (IF room >= 1 THEN { [op |-> "append", oth |-> << <<E1>> >>, fit |-> f, atend |-> TRUE] : f \in BOOLEAN } ELSE {}))
=============================================================================
