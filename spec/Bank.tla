-------------------------------- MODULE Bank --------------------------------
(***************************************************************************)
(* A filter bank as an ordered list of filters.  A filter is               *)
(* [secs (cascade of integer sections), kind ("ba" or "sos"), fs].         *)
(* Editing answers [ok, me, res]: whether the edit was accepted, the bank  *)
(* afterwards (sampling rate and the impulse response of every member, in  *)
(* order) and what was returned.  A rejected edit changes nothing.         *)
(* Queries answer the composition of the members.                          *)
(***************************************************************************)
EXTENDS LTI

IRL == 8
SCF == 1024
RECURSIVE TrimZ(_)
TrimZ(s) == IF Len(s) > 1 /\ s[Len(s)] = 0 THEN TrimZ(SubSeq(s, 1, Len(s) - 1)) ELSE s
IsFir(f) == f.kind = "ba" /\ Len(TrimZ(f.secs[1].a)) = 1

Run(f, xs) == RunBlock(f.secs, FiltZero(f.secs), xs).y
Impulse(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
Ir(f, n) == Run(f, Impulse(n))
Face(f) == [fs |-> f.fs, fir |-> IsFir(f), ir |-> Ir(f, IRL)]

BKInit(i) == [bank |-> i.bank, fs |-> IF i.bank = <<>> THEN 0 ELSE i.bank[1].fs]

Me(s) == [fs |-> s.fs, members |-> [k \in 1..Len(s.bank) |-> Face(s.bank[k])]]
Upd(s, b) == LET t == [bank |-> b, fs |-> IF b = <<>> THEN s.fs ELSE b[1].fs]
             IN [st |-> t, out |-> [ok |-> TRUE, me |-> Me(t), res |-> "none"]]
Rej(s) == [st |-> s, out |-> [ok |-> FALSE, me |-> Me(s), res |-> "none"]]
Ans(s, r) == [st |-> s, out |-> [ok |-> TRUE, me |-> Me(s), res |-> r]]

InsertAt(b, f, k) == SubSeq(b, 1, k) \o <<f>> \o SubSeq(b, k + 1, Len(b))
RemoveAt(b, k) == SubSeq(b, 1, k - 1) \o SubSeq(b, k + 1, Len(b))
Perm(p, n) == Len(p) = n /\ \A x \in 0..(n - 1) : \E k \in 1..n : p[k] = x
OneRate(b) == \A k \in 1..Len(b) : b[k].fs = b[1].fs
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* a multichannel signal: [re, im] sequences of channels, cx *)
Each(f, x) == [re |-> [c \in 1..Len(x.re) |-> Run(f, x.re[c])],
               im |-> [c \in 1..Len(x.im) |-> Run(f, x.im[c])], cx |-> x.cx]
RECURSIVE Through(_, _)
Through(b, x) == IF b = <<>> THEN x ELSE Through(Tail(b), Each(Head(b), x))
Plus(x, y) == [re |-> [c \in 1..Len(x.re) |-> AddSeqs(<<x.re[c], y.re[c]>>)],
               im |-> [c \in 1..Len(x.im) |-> AddSeqs(<<x.im[c], y.im[c]>>)], cx |-> x.cx]
RECURSIVE SumSigs(_)
SumSigs(ss) == IF Len(ss) = 1 THEN ss[1] ELSE Plus(ss[1], SumSigs(Tail(ss)))

Compose(b, x, mode) ==
    CASE mode = "parallel" -> [k \in 1..Len(b) |-> Each(b[k], x)]
      [] mode = "sequential" -> Through(b, x)
      [] mode = "summed" -> SumSigs([k \in 1..Len(b) |-> Each(b[k], x)])

(* responses at 0, a quarter and half of the sampling rate: Gaussian
   rationals [re, im, den], z^-1 in {1, -i, -1} *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Red(z) == LET g == Gcd(Gcd(Abs(z.re), Abs(z.im)), z.den)
          IN [re |-> QuotS(z.re, g), im |-> QuotS(z.im, g), den |-> z.den \div g]
ZMul(a, b) == Red([re |-> a.re * b.re - a.im * b.im, im |-> a.re * b.im + a.im * b.re, den |-> a.den * b.den])
ZAdd(a, b) == Red([re |-> a.re * b.den + b.re * a.den, im |-> a.im * b.den + b.im * a.den, den |-> a.den * b.den])
ZOne == [re |-> 1, im |-> 0, den |-> 1]
ZZero == [re |-> 0, im |-> 0, den |-> 1]
Poly(c, w) ==
    LET t(n) == CASE w = 0 -> <<1, 0>>
                  [] w = 2 -> IF n % 2 = 0 THEN <<1, 0>> ELSE <<-1, 0>>
                  [] w = 1 -> <<<<1, 0>>, <<0, -1>>, <<-1, 0>>, <<0, 1>>>>[(n % 4) + 1]
    IN  [re |-> SumTo([k \in 1..Len(c) |-> c[k] * t(k - 1)[1]], Len(c)),
         im |-> SumTo([k \in 1..Len(c) |-> c[k] * t(k - 1)[2]], Len(c)), den |-> 1]
SecTf(s, w) == LET B == Poly(s.b, w)
                   A == Poly(s.a, w)
               IN  ZMul(B, Red([re |-> A.re, im |-> -A.im, den |-> A.re * A.re + A.im * A.im]))
RECURSIVE ZProd(_)
ZProd(zs) == IF zs = <<>> THEN ZOne ELSE ZMul(Head(zs), ZProd(Tail(zs)))
RECURSIVE ZSum(_)
ZSum(zs) == IF zs = <<>> THEN ZZero ELSE ZAdd(Head(zs), ZSum(Tail(zs)))
Tf(f, w) == ZProd([k \in 1..Len(f.secs) |-> SecTf(f.secs[k], w)])
TfBank(b, w, mode) ==
    LET each == [k \in 1..Len(b) |-> Tf(b[k], w)] IN
    CASE mode = "parallel" -> each
      [] mode = "sequential" -> <<ZProd(each)>>
      [] mode = "summed" -> <<ZSum(each)>>

AllFir(b) == \A k \in 1..Len(b) : IsFir(b[k])
AllIir(b) == \A k \in 1..Len(b) : ~IsFir(b[k])

BKStep(s, ev) ==
    LET b == s.bank
        n == Len(b)
    IN
    CASE ev.op = "add" ->
           IF n > 0 /\ ev.f.fs # s.fs THEN Rej(s)
           ELSE Upd(s, InsertAt(b, ev.f, IF ev.at = -1 \/ ev.at > n THEN n ELSE ev.at))
      [] ev.op = "remove" ->
           LET k == IF ev.k = -1 THEN n ELSE ev.k + 1 IN
           IF n = 0 \/ k > n THEN Rej(s)
           ELSE LET u == Upd(s, RemoveAt(b, k))
                IN  IF ev.ret THEN [u EXCEPT !.out.res = Face(b[k])] ELSE u
      [] ev.op = "swap" -> IF ~Perm(ev.p, n) THEN Rej(s) ELSE Upd(s, [k \in 1..n |-> b[ev.p[k] + 1]])
      [] ev.op = "set" -> IF ~ev.valid \/ ~OneRate(ev.fl) THEN Rej(s) ELSE Upd(s, ev.fl)
      [] ev.op = "copy" -> Upd(s, b)
      [] ev.op = "append" ->
           IF \E k \in 1..Len(ev.banks) : ev.banks[k][1].fs # s.fs THEN Rej(s)
           ELSE Upd(s, b \o Cat(ev.banks))
      [] ev.op = "gain" ->       \* gains 2^g: one common, or one per filter
           IF Len(ev.g) # 1 /\ Len(ev.g) # n THEN Rej(s)
           ELSE Upd(s, [k \in 1..n |->
                  LET g == IF Len(ev.g) = 1 THEN ev.g[1] ELSE ev.g[k]
                      L == Len(b[k].secs)
                  IN  [b[k] EXCEPT !.secs[L].b = [j \in 1..Len(b[k].secs[L].b) |-> b[k].secs[L].b[j] * (2 ^ g)]]])
      [] ev.op = "merge" ->      \* one filter: all FIR or all IIR
           IF n < 2 \/ ~(AllFir(b) \/ AllIir(b)) THEN Rej(s)
           ELSE Ans(s, [fs |-> s.fs, fir |-> AllFir(b), ir |-> Through(b, [re |-> <<Impulse(ev.len)>>, im |-> <<>>, cx |-> FALSE]).re[1]])
      [] ev.op = "filter" ->
           IF n = 0 THEN Ans(s, "free")
           ELSE IF ev.fs # s.fs THEN Rej(s)
           ELSE Ans(s, Compose(b, [re |-> ev.x, im |-> ev.xi, cx |-> ev.cx], ev.mode))
      [] ev.op = "multi" ->      \* band k through filter k
           Ans(s, [k \in 1..n |-> Each(b[k], [re |-> ev.x[k], im |-> ev.x[k], cx |-> FALSE]).re])
      [] ev.op = "ir" ->
           IF n = 0 THEN Ans(s, "free")
           ELSE Ans(s, Compose(b, [re |-> <<Impulse(ev.len)>>, im |-> <<>>, cx |-> FALSE], ev.mode))
      [] ev.op = "member" ->     \* impulse response of one member filter
           Ans(s, LET f == b[ev.k]
                      L == IF IsFir(f) THEN Max2(ev.len, Len(f.secs[1].b)) ELSE ev.len
                  IN Ir(f, L))
      [] ev.op = "tf" ->
           IF n = 0 THEN Ans(s, "free")
           ELSE Ans(s, [w \in 1..Len(ev.w) |-> TfBank(b, ev.w[w], ev.mode)])
      [] ev.op = "relation" ->   \* any filters: bank against its members, observed both
           Ans(s, ev.mode)

NearQ(o, v, den) == LET d == o * den - v * SCF IN d <= 2 * den /\ -d <= 2 * den

BKMatch(out, ob) ==
    /\ ~IsErr(ob)
    /\ ~ob.touched
    /\ Conforms(out.me, ob.me)
    /\ Conforms(out.res, "free") \/ out.ok = ob.ok
    /\ \/ Conforms(out.res, "free")
       \/ ob.kind = "plain" /\ Conforms(out.res, ob.res)
       \/ /\ ob.kind = "tf"
          /\ Len(ob.res) = Len(out.res)
          /\ \A w \in 1..Len(out.res) :
               /\ Len(ob.res[w]) = Len(out.res[w])
               /\ \A k \in 1..Len(out.res[w]) :
                    /\ NearQ(ob.res[w][k][1], out.res[w][k].re, out.res[w][k].den)
                    /\ NearQ(ob.res[w][k][2], out.res[w][k].im, out.res[w][k].den)
       \/ /\ ob.kind = "relation"
          /\ CASE out.res = "parallel" -> Near2(ob.res.bank, ob.res.each, 2)
               [] out.res = "sequential" -> Near1(ob.res.bank, ob.res.chained, 2)
               [] out.res = "summed" -> Near1(ob.res.bank, AddSeqs(ob.res.each), 2 + Len(ob.res.each))
               [] out.res = "tfsummed" -> Near1(ob.res.bank, AddSeqs(ob.res.each), 2 + Len(ob.res.each))

BKInv(s) == OneRate(s.bank) /\ (s.bank = <<>> \/ s.fs = s.bank[1].fs)

(* ---------------------------- small behaviours -------------------------- *)
S3(b, a) == [b |-> b, a |-> a]
A1 == [secs |-> <<S3(<<1, -2>>, <<1>>)>>, kind |-> "ba", fs |-> 1]
A2 == [secs |-> <<S3(<<0, 3, 1>>, <<1>>)>>, kind |-> "ba", fs |-> 1]
A3 == [secs |-> <<S3(<<2, 4>>, <<1, 1, 1>>)>>, kind |-> "ba", fs |-> 1]
A4 == [secs |-> <<S3(<<1, 0, 1>>, <<1, -1, 1>>), S3(<<2, 1, 0>>, <<1, 0, 0>>)>>, kind |-> "sos", fs |-> 1]
A5 == [secs |-> <<S3(<<5>>, <<1>>)>>, kind |-> "ba", fs |-> 2]
BKStarts == { [bank |-> b] : b \in { <<>>, <<A1>>, <<A2, A1>>, <<A3, A4>>, <<A1, A4, A2>> } }
X == << <<1, 2, -1, 0>>, <<0, 3, 1, 1>> >>
BKEvents(s) ==
    LET n == Len(s.bank) IN
    (IF n > 3 THEN {} ELSE { [op |-> "add", f |-> f, at |-> k] : f \in {A2, A3, A5}, k \in {-1, 0, 1} })
    \cup { [op |-> "remove", k |-> k, ret |-> r] : k \in {-1, 0, 2}, r \in BOOLEAN }
    \cup { [op |-> "swap", p |-> p] : p \in { <<0>>, <<1, 0>>, <<2, 0, 1>>, <<1, 1>>, <<0, 1, 3>> } }
    \cup { [op |-> "set", fl |-> fl, valid |-> TRUE] : fl \in { <<A4, A2>>, <<A5>>, <<A1, A5>>, <<A5, A1>> } }
    \cup { [op |-> "set", fl |-> <<A5, A5>>, valid |-> FALSE] }
    \cup { [op |-> "copy"] }
    \cup (IF n = 0 \/ n > 3 THEN {} ELSE { [op |-> "append", banks |-> x] : x \in { << <<A3>> >>, << <<A1, A2>>, <<A4>> >>, << <<A5>> >> } })
    \cup { [op |-> "gain", g |-> g] : g \in { <<1>>, <<0, 2>>, <<1, 0, 2>> } }
    \cup { [op |-> "merge", len |-> 9] }
    \cup { [op |-> "filter", x |-> X, xi |-> <<>>, cx |-> FALSE, mode |-> m, fs |-> f] :
             m \in {"parallel", "sequential", "summed"}, f \in {1} }
    \cup { [op |-> "filter", x |-> <<X[1]>>, xi |-> <<X[2]>>, cx |-> TRUE, mode |-> "sequential", fs |-> 1] }
    \cup { [op |-> "ir", len |-> 9, mode |-> m] : m \in {"parallel", "summed"} }
    \cup { [op |-> "tf", w |-> <<0, 1, 2>>, mode |-> m] : m \in {"parallel", "sequential", "summed"} }
=============================================================================
