----------------------------- MODULE Distances -----------------------------
(***************************************************************************)
(* Distances between signals: log-spectral distance and Itakura-Saito      *)
(* measure as integrals over the bins of a frequency range, signal-to-     *)
(* noise ratio, scale-invariant signal-to-distortion ratio, segmental      *)
(* frequency-weighted signal-to-noise ratio.                               *)
(* Signals are integer sequences, bin k lies at 100 k Hz.                  *)
(***************************************************************************)
EXTENDS Base, Trig

Sq(x) == x * x
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Digits(_, _, _)
Digits(r, b, n) == IF n = 0 THEN 0 ELSE ((r * 10) \div b) * Pow(10, n - 1) + Digits((r * 10) % b, b, n - 1)
(* a / b with n decimals *)
Frac(a, b, n) == (a \div b) * Pow(10, n) + Digits(a % b, b, n)

(* natural logarithm (1e-4) of p (1e-4) *)
RECURSIVE LnE(_, _)
LnE(p, e) ==
    IF p >= 14143 THEN LnE(p \div 2, e + 1)
    ELSE IF p < 7071 THEN LnE(2 * p, e - 1)
    ELSE LET z == QuotS(10000 * (p - 10000), p + 10000)
             z3 == QuotS(((z * z) \div 10000) * z, 10000)
         IN  QuotS(e * 69315, 10) + 2 * z + QuotS(2 * z3, 3)
Ln(p) == LnE(p, 0)
(* 1e-2 dB of a logarithm of powers (1e-4) *)
Db(l) == QuotS(l * 4343, 100000)

(* --- power spectrum, 1e-4 -------------------------------------------------- *)
Bin(x, k) == LET n == Len(x)
                 re == QuotS(SumTo([i \in 1..n |-> x[i] * Cos(k * (i - 1), n)], n), 10)
                 im == QuotS(SumTo([i \in 1..n |-> x[i] * Sin(k * (i - 1), n)], n), 10)
             IN  (re * re + im * im) \div 100
(* one segment, or the mean of consecutive ones *)
Segs(x, n) == Len(x) \div n
Pw(x, n, k) == LET m == Segs(x, n) IN SumTo([s \in 1..m |-> Bin(SubSeq(x, n * (s - 1) + 1, n * s), k)], m) \div m
(* physical scalings count inner bins twice *)
Wgt(ev, k) == IF ev.sc = "FFTBackward" \/ k = 0 \/ 2 * k = ev.n THEN 1 ELSE 2
Near(f) == (f + 49) \div 100
First(ev) == IF ev.rng = <<>> THEN 0 ELSE Near(Min2(ev.rng[1], ev.rng[2]))
(* the range is half-open *)
Last(ev) == (IF ev.rng = <<>> THEN ev.n \div 2 ELSE Near(Max2(ev.rng[1], ev.rng[2]))) - 1
Points(ev) == Last(ev) - First(ev) + 1
Part(ev, x) == [j \in 1..Points(ev) |-> LET k == First(ev) + j - 1 IN Wgt(ev, k) * Pw(x, ev.n, k)]
Fair(ev) == /\ Points(ev) >= 2
            /\ \A z \in {ev.x, ev.y} : \A c \in 1..Len(z) : \A k \in First(ev)..Last(ev) : LET p == Pw(z[c], ev.n, k) IN p >= 10000 /\ p < 5000000

(* --- Simpson's rule, weights of 1/12 ---------------------------------------- *)
Odd12(n) == [j \in 1..n |-> IF j \in {1, n} THEN 4 ELSE IF j % 2 = 0 THEN 16 ELSE 8]
Simp(n) == IF n = 2 THEN <<6, 6>>
           ELSE IF n % 2 = 1 THEN Odd12(n)
           ELSE LET o == Odd12(n - 1) IN [j \in 1..n |-> (IF j < n THEN o[j] ELSE 0) + (CASE j = n -> 5 [] j = n - 1 -> 8 [] j = n - 2 -> -1 [] OTHER -> 0)]
Integral(y) == LET w == Simp(Len(y)) IN QuotS(SumTo([j \in 1..Len(y) |-> w[j] * y[j]], Len(y)), 12)
(* the error of an integral is at most that of its points *)
Slack(y) == 1 + (16 * SumSeq(y)) \div 12

(* logarithm of the ratio of two spectra at each point *)
Logs(ev, p, q) == LET off == IF ev.norm THEN Ln(SumSeq(p)) - Ln(SumSeq(q)) ELSE 0
                  IN  [j \in 1..Len(p) |-> Ln(p[j]) - Ln(q[j]) - off]
(* squared log-spectral distance in dB^2 bins, 1e-2 *)
LsD(ev, x, y) == LET d == TLCEval(Logs(ev, TLCEval(Part(ev, x)), TLCEval(Part(ev, y))))
                     b == TLCEval([j \in 1..Len(d) |-> Db(d[j])])
                 IN  << Integral([j \in 1..Len(d) |-> Sq(b[j]) \div 10]) \div 10, 2 + Slack([j \in 1..Len(d) |-> 1 + (8 * Abs(b[j]) + 16) \div 10]) \div 10 >>
(* ratios, 1e-3 *)
Ratio(ev, p, q) == IF ev.norm THEN LET s == SumSeq(p)
                                       t == SumSeq(q)
                                   IN  [j \in 1..Len(p) |-> Frac(Frac(p[j], s, 8), Frac(q[j], t, 8), 3)]
                   ELSE [j \in 1..Len(p) |-> Frac(p[j], q[j], 3)]
Isd(ev, x, y) == LET p == TLCEval(Part(ev, x))
                     q == TLCEval(Part(ev, y))
                     l == TLCEval(Logs(ev, p, q))
                     r == TLCEval(Ratio(ev, p, q))
                 IN  << Integral([j \in 1..Len(r) |-> r[j] - QuotS(l[j], 10) - 1000]), Slack([j \in 1..Len(r) |-> 3 + r[j] \div 100]) >>
Chan(z, c) == z[IF Len(z) = 1 THEN 1 ELSE c]

(* --- ratios in the time domain ------------------------------------------------ *)
Dot(x, y) == SumTo([i \in 1..Len(x) |-> x[i] * y[i]], Len(x))
Snr(x, y) == << Db(Ln(Dot(x, x) * Len(y)) - Ln(Dot(y, y) * Len(x))), 2 >>
SiSdr(x, y) == LET p == Sq(Dot(x, y))
                   q == Dot(x, x) * Dot(y, y) - p
               IN  CASE q = 0 -> <<15000, 3000>>          \* perfect
                     [] p = 0 -> <<-15000, 0>>
                     [] OTHER -> << Db(Ln(p) - Ln(q)), 2 >>

(* --- machine --------------------------------------------------------------------- *)
DiInit(x) == [sound |-> TRUE]
Ok(st, r) == [st |-> st, out |-> [ok |-> TRUE, res |-> r]]
DiStep(st, ev) ==
    CASE ev.op = "bad" -> [st |-> st, out |-> [ok |-> FALSE]]
      [] ev.op = "ls" -> LET r == TLCEval([c \in 1..Len(ev.x) |-> LsD(ev, ev.x[c], ev.y[c])])
                             s == [c \in 1..Len(ev.x) |-> LsD(ev, ev.y[c], ev.x[c])]
                         IN  [Ok(st, r) EXCEPT !.st = [sound |-> \A c \in 1..Len(r) : r[c] = s[c] /\ r[c][1] >= 0 /\ (ev.x[c] = ev.y[c] => r[c][1] = 0)]]
      [] ev.op = "is" -> LET r == TLCEval([c \in 1..Len(ev.x) |-> Isd(ev, ev.x[c], ev.y[c])])
                         IN  [Ok(st, r) EXCEPT !.st = [sound |-> \A c \in 1..Len(r) : r[c][1] >= -r[c][2] /\ (ev.x[c] = ev.y[c] => r[c][1] = 0)]]
      [] ev.op = "snr" -> Ok(st, [c \in 1..Len(ev.x) |-> Snr(ev.x[c], Chan(ev.y, c))])
      [] ev.op = "sdr" -> LET r == TLCEval([c \in 1..Len(ev.y) |-> SiSdr(Chan(ev.x, c), ev.y[c])])
                              s == [c \in 1..Len(ev.y) |-> SiSdr(Chan(ev.x, c), [i \in 1..Len(ev.y[c]) |-> -2 * ev.y[c][i]])]
                          IN  [Ok(st, r) EXCEPT !.st = [sound |-> \A c \in 1..Len(r) : Abs(r[c][1] - s[c][1]) <= 2]]
      \* how each channel was made from the original: "same" up to a factor, or otherwise; range in dB
      [] ev.op = "fw" -> Ok(st, [c \in 1..Len(ev.how) |-> IF ev.how[c] # 0 THEN <<100 * Max2(ev.lim[1], ev.lim[2]), 1>>
                                                          ELSE <<50 * (ev.lim[1] + ev.lim[2]), 50 * Abs(ev.lim[2] - ev.lim[1]) + 1>>])

CloseV(e, o) == LET d == o - e[1] IN d <= e[2] /\ -d <= e[2]
DiMatch(out, ob) ==
    /\ "ok" \in DOMAIN ob /\ ob.ok = out.ok
    /\ out.ok => Len(out.res) = Len(ob.res) /\ \A i \in 1..Len(out.res) : CloseV(out.res[i], ob.res[i])
DiInv(st) == st.sound

DiStarts == {[i |-> 0]}
Sig8 == { <<1, 0, 0, 0, 0, 0, 0, 0>>, <<3, 0, 0, 0, 1, 0, 0, 0>>, <<-2, 0, 0, 0, 4, 0, 0, 0>>, <<5, 1, 0, 0, 0, 0, -1, 0>>, <<0, 4, -1, 0, 1, 0, 0, 1>> }
DiEvents(st) ==
    { e \in {[op |-> o, x |-> <<x, y>>, y |-> <<y, z>>, n |-> 8, rng |-> r, norm |-> m, sc |-> s, welch |-> FALSE] :
          o \in {"ls", "is"}, x \in Sig8, y \in Sig8, z \in {<<2, 0, 0, 0, 0, 0, 0, 0>>}, r \in {<<>>, <<0, 400>>, <<300, 40>>, <<149, 351>>}, m \in BOOLEAN, s \in {"FFTBackward", "PowerSpectrum", "AmplitudeSpectralDensity"}} : Fair(e) }
    \cup {[op |-> o, x |-> <<x>>, y |-> <<y, z>>] : o \in {"sdr"}, x \in Sig8, y \in Sig8, z \in Sig8}
    \cup {[op |-> o, x |-> <<y, z>>, y |-> <<x>>] : o \in {"snr"}, x \in Sig8 \cup {<<1, 2, 3>>}, y \in Sig8, z \in Sig8}
=============================================================================
