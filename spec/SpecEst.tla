------------------------------ MODULE SpecEst -------------------------------
(***************************************************************************)
(* Spectral estimates of the channels x of a signal: transform in every    *)
(* scaling, Welch estimate, cross-spectral matrix, spectrogram, conversion *)
(* between scalings.  Everything is reduced to quantities quadratic in the *)
(* signal (a complex result to the signed squares of its parts), expected  *)
(* as <<value, tolerance>> in hundredths of 1/k, k an integer of the event *)
(* that keeps the result of the order of the squared transform.            *)
(***************************************************************************)
EXTENDS Base, Trig

(* windows in ten-thousandths, periodic *)
Win(w, N) == [k \in 1..N |->
    CASE w = "Boxcar" -> 10000
      [] w = "Hann" -> 5000 - Cos(k - 1, N) \div 2
      [] w = "Hamming" -> 5400 - (46 * Cos(k - 1, N)) \div 100
      [] w = "Blackman" -> 4200 - Cos(k - 1, N) \div 2 + (8 * Cos(2 * (k - 1), N)) \div 100
      [] w = "Bartlett" -> 10000 - (10000 * Abs(2 * (k - 1) - N)) \div N]

(* smallest length from L whose only prime factors are 2, 3, 5 *)
RECURSIVE Smooth(_)
Smooth(n) == IF n = 1 THEN TRUE
             ELSE \E p \in {2, 3, 5} : n % p = 0 /\ Smooth(n \div p)
Fast(L) == CHOOSE n \in L..(2 * L) : Smooth(n) /\ \A m \in L..(n - 1) : ~Smooth(m)

Bins(N) == N \div 2 + 1
At(c, k) == IF k >= 1 /\ k <= Len(c) THEN c[k] ELSE 0
Round(a, b) == a \div b + (IF 2 * (a % b) >= b THEN 1 ELSE 0)

(* one bin of the transform of v (in ten-thousandths), zero-extended to N: <<re, im>> in ten-thousandths *)
Dft1(v, N, b) ==
    << SumTo([k \in 1..Len(v) |-> Round(v[k] * Cos(b * (k - 1), N), 10000)], Len(v)),
       -SumTo([k \in 1..Len(v) |-> Round(v[k] * Sin(b * (k - 1), N), 10000)], Len(v)) >>
Dft(v, N) == TLCEval([b \in 1..Bins(N) |-> Dft1(v, N, b - 1)])
(* error of a transform value, ten-thousandths *)
Eps(N) == 4 * N + 10

(* products in hundredths: hundredth parts squared are ten-thousandths *)
H(a) == Round(a, 100)
RealOf(y, z) == Round(H(y[1]) * H(z[1]) + H(y[2]) * H(z[2]), 100)       \* Re y conj z
ImagOf(y, z) == Round(H(y[2]) * H(z[1]) - H(y[1]) * H(z[2]), 100)       \* Im y conj z
Sz(y) == Abs(H(y[1])) + Abs(H(y[2]))
(* tolerance of a product: (|y| + |z|) eps, in hundredths *)
TolOf(y, z, N) == ((Sz(y) + Sz(z) + 100) * Eps(N)) \div 10000 + 2
SgnSq(a) == IF a < 0 THEN -Round(H(a) * H(a), 100) ELSE Round(H(a) * H(a), 100)
Pw(y, N) == <<RealOf(y, y), TolOf(y, y, N)>>
PwC(y, z, N) == << <<RealOf(y, z), TolOf(y, z, N)>>, <<ImagOf(y, z), TolOf(y, z, N)>> >>
Sq(y, N) == << <<SgnSq(y[1]), TolOf(y, y, N)>>, <<SgnSq(y[2]), TolOf(y, y, N)>> >>
(* a value times a rational, ten-thousandths *)
Times(v, r) == << Round(v[1] * (r \div 10), 1000), 2 + Round(v[2] * (r \div 10), 1000) + Abs(v[1]) \div 300 >>

Physical(sc) == sc \in {"AmplitudeSpectrum", "AmplitudeSpectralDensity", "PowerSpectrum", "PowerSpectralDensity"}
Amplitude(sc) == sc \in {"AmplitudeSpectrum", "AmplitudeSpectralDensity", "FFTBackward", "FFTForward", "FFTOrthogonal"}
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
(* k times the power of the scaling: N points, fs the sampling rate; of the windows of both channels *)
(* W the sums and W2 the sums of squares, hundredths                                                 *)
Ratio(k, sc, N, W, W2, fs) ==
    CASE sc = "FFTBackward" -> 10000 * k
      [] sc = "FFTForward" -> Round(10000 * k, N * N)
      [] sc = "FFTOrthogonal" -> Round(10000 * k, N)
      [] sc \in {"AmplitudeSpectrum", "PowerSpectrum"} -> Round(1000000 * k, (W[1] * W[2]) \div 100)
      [] OTHER -> LET w2 == IF W2[1] = W2[2] THEN W2[1] ELSE Root(W2[1] * W2[2], 0, 46000)
                  d == fs * w2
                      a == 100000 * k
                  IN 10 * (a \div d) + (10 * (a % d)) \div d
(* sums of a window in ten-thousandths, hundredths *)
WSum(w) == Round(SumSeq(w), 100)
WSqr(w) == Round(SumTo([k \in 1..Len(w) |-> Round(w[k] * w[k], 10000)], Len(w)), 100)
(* one-sided: everything twice except for the zero and, when there is one, the Nyquist frequency *)
Side(sc, b, N) == IF ~Physical(sc) \/ b = 1 \/ (N % 2 = 0 /\ b = Bins(N)) THEN 1 ELSE 2

RECURSIVE Ins(_, _)
Ins(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Ins(Tail(s), x)
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Ins(Sort(Tail(s)), s[1])
Mid(s) == LET t == Sort(s) n == Len(s) IN IF n % 2 = 1 THEN t[(n + 1) \div 2] ELSE (t[n \div 2] + t[n \div 2 + 1]) \div 2
(* bias of the median over n frames, ten-thousandths: 1 - 1/2 + 1/3 ..., an odd number of terms *)
Bias(n) == LET m == IF n % 2 = 1 THEN n ELSE n - 1
           IN SumTo([k \in 1..m |-> IF k % 2 = 1 THEN 10000 \div k ELSE -(10000 \div k)], m)
MaxOf(s) == CHOOSE x \in ToSet(s) : \A y \in ToSet(s) : y <= x
Avg(vs, how) ==      \* vs: sequence of <<value, tolerance>>
    LET n == Len(vs)
        v == TLCEval([i \in 1..n |-> vs[i][1]])
        t == MaxOf([i \in 1..n |-> vs[i][2]])
    IN IF how = "mean" THEN <<Round(SumTo(v, n), n), t + 1>>
       ELSE << Round(Mid(v) * 1000, Bias(n) \div 10), Round(t * 100, Bias(n) \div 100) + Abs(Mid(v)) \div 300 + 2 >>

NFrames(L, st) == (L + st - 1) \div st
Frame(c, W, st, j) == [k \in 1..W |-> At(c, (j - 1) * st + k)]
Windowed(c, w, st, j, det) ==
    LET W == Len(w)
        v == TLCEval([k \in 1..W |-> At(c, (j - 1) * st + k) * w[k]])
        m == Round(SumTo(v, W), W)
    IN TLCEval(IF det THEN [k \in 1..W |-> v[k] - m] ELSE v)
Frames(c, w, st, det) == TLCEval([j \in 1..NFrames(Len(c), st) |-> Dft(Windowed(c, w, st, j, det), Len(w))])

SEInit(i) == [x |-> i.x, win |-> i.win]
Same(s, r, how) == [st |-> s, out |-> [ok |-> TRUE, how |-> how, res |-> TLCEval(r)]]

Cross(X, Y, N, how, sc, r) ==      \* X, Y: frames of two channels
    [b \in 1..Len(X[1]) |->
        LET p == TLCEval([j \in 1..Len(X) |-> PwC(X[j][b], Y[j][b], N)])
        IN << Times(Avg([j \in 1..Len(X) |-> p[j][1]], how), r * Side(sc, b, N)),
              Times(Avg([j \in 1..Len(X) |-> p[j][2]], how), r * Side(sc, b, N)) >>]
(* a transform in a scaling: signed squares when it is complex, else squares *)
Scaled(D, N, sc, r) ==
    [b \in 1..Bins(N) |->
        IF Amplitude(sc)
        THEN LET q == Sq(D[b], N) IN <<Times(q[1], r * Side(sc, b, N)), Times(q[2], r * Side(sc, b, N))>>
        ELSE <<Times(Pw(D[b], N), r * Side(sc, b, N))>>]

SEStep(s, ev) ==
    LET C == Len(s.x)
        L == Len(s.x[1])
        x4 == TLCEval([c \in 1..C |-> [k \in 1..L |-> 10000 * s.x[c][k]]])
        (* sums of the window that was applied, hundredths; without one, N ones *)
        WS(c, N) == 100 * (IF s.win = <<>> THEN N ELSE SumSeq(s.win[c]))
        WQ(c, N) == 100 * (IF s.win = <<>> THEN N ELSE SumTo([k \in 1..L |-> s.win[c][k] * s.win[c][k]], L))
    IN
    CASE ev.op = "set" -> Same([s EXCEPT !.x = ev.x, !.win = ev.win], [none |-> TRUE], "none")
      [] ev.op = "fft" ->
           LET N == IF ev.pad THEN Fast(L) ELSE L IN
           Same(s, [n |-> N, cx |-> Amplitude(ev.sc),
                    v |-> [c \in 1..C |-> Scaled(Dft(x4[c], N), N, ev.sc,
                               Ratio(ev.k, ev.sc, N, <<WS(c, N), WS(c, N)>>, <<WQ(c, N), WQ(c, N)>>, ev.fs))]], "spec")
      [] ev.op = "fftcsm" ->
           LET N == IF ev.pad THEN Fast(L) ELSE L
               D == TLCEval([c \in 1..C |-> Dft(x4[c], N)])
           IN IF C = 1 THEN [st |-> s, out |-> [ok |-> FALSE]]
              ELSE Same(s, [n |-> N, v |-> [i \in 1..C |-> [j \in 1..C |-> Cross(<<D[i]>>, <<D[j]>>, N, "mean", ev.sc,
                               Ratio(ev.k, ev.sc, N, <<WS(i, N), WS(j, N)>>, <<WQ(i, N), WQ(j, N)>>, ev.fs))]]], "csm")
      [] ev.op \in {"welch", "welchcsm"} ->
           LET w == TLCEval(Win(ev.w, ev.W))
               F == TLCEval([c \in 1..C |-> Frames(s.x[c], w, ev.step, ev.det)])
               r == Ratio(ev.k, ev.sc, ev.W, <<WSum(w), WSum(w)>>, <<WSqr(w), WSqr(w)>>, ev.fs)
           IN IF ev.op = "welch"
              THEN Same(s, [n |-> ev.W, cx |-> FALSE,
                            v |-> [c \in 1..C |-> LET P == Cross(F[c], F[c], ev.W, ev.avg, ev.sc, r)
                                                  IN [b \in 1..Bins(ev.W) |-> <<P[b][1]>>]]], "spec")
              ELSE IF C = 1 THEN [st |-> s, out |-> [ok |-> FALSE]]
              ELSE Same(s, [n |-> ev.W, v |-> [i \in 1..C |-> [j \in 1..C |-> Cross(F[i], F[j], ev.W, ev.avg, ev.sc, r)]]], "csm")
      [] ev.op = "sgram" ->
           LET w == TLCEval(Win(ev.w, ev.W))
               xp == [c \in 1..C |-> IF ev.pad THEN Zeros(ev.W - ev.step) \o s.x[c] \o Zeros(ev.W - ev.step) ELSE s.x[c]]
               n == NFrames(Len(xp[1]), ev.step)
               r == Ratio(ev.k, ev.sc, ev.nfft, <<WSum(w), WSum(w)>>, <<WSqr(w), WSqr(w)>>, ev.fs)
           IN Same(s, [n |-> ev.nfft, cx |-> Amplitude(ev.sc), frames |-> n,
                       v |-> [c \in 1..C |-> [j \in 1..n |->
                               Scaled(Dft(Windowed(xp[c], w, ev.step, j, ev.det), ev.nfft), ev.nfft, ev.sc, r)]]], "sgram")
      [] ev.op = "smooth" ->      \* stays within the values of its channel
           LET N == IF ev.pad THEN Fast(L) ELSE L
               D == TLCEval([c \in 1..C |-> Dft(x4[c], N)])
               P(c) == [b \in 1..Bins(N) |-> Pw(D[c][b], N)]
           IN Same(s, [n |-> N, v |-> [c \in 1..C |->
                    << -MaxOf([b \in 1..Bins(N) |-> P(c)[b][2] - P(c)[b][1]]), MaxOf([b \in 1..Bins(N) |-> P(c)[b][1] + P(c)[b][2]]) >>]], "smooth")
      [] ev.op = "conv" ->
           (* power factors of the scalings over a common scale: N points, window sums W, W2, rate fs *)
           LET P(sc) == CASE sc = "FFTBackward" -> <<1, 1>>
                          [] sc = "FFTForward" -> <<1, ev.N * ev.N>>
                          [] sc = "FFTOrthogonal" -> <<1, ev.N>>
                          [] sc \in {"AmplitudeSpectrum", "PowerSpectrum"} -> <<2, ev.W * ev.W>>
                          [] OTHER -> <<2, ev.W2 * ev.fs>>
               a == P(ev.a)
               b == P(ev.b)
               (* between two amplitudes, the factor squared is observed *)
           IN Same(s, [v |-> <<Round(1000 * b[1] * a[2], b[2] * a[1]), 2 + Round(b[1] * a[2], b[2] * a[1])>>], "conv")

In(e, o) == LET d == e[1] - o IN d <= e[2] /\ -d <= e[2]
SEMatch(out, ob) ==
    /\ ~IsErr(ob) /\ ~ob.touched /\ out.ok = ob.ok
    /\ out.ok =>
       CASE out.how = "none" -> "none" \in DOMAIN ob.res
         [] out.how = "spec" ->
              /\ ob.res.n = out.res.n /\ ob.res.cx = out.res.cx /\ Len(ob.res.v) = Len(out.res.v)
              /\ \A c \in 1..Len(out.res.v) :
                   /\ Len(ob.res.v[c]) = Len(out.res.v[c])
                   /\ \A b \in 1..Len(out.res.v[c]) : \A i \in 1..Len(out.res.v[c][b]) : In(out.res.v[c][b][i], ob.res.v[c][b][i])
         [] out.how = "csm" ->
              /\ ob.res.n = out.res.n /\ Len(ob.res.v) = Len(out.res.v)
              /\ \A i, j \in 1..Len(out.res.v) :
                   /\ Len(ob.res.v[i][j]) = Len(out.res.v[i][j])
                   /\ \A b \in 1..Len(out.res.v[i][j]) : \A p \in 1..2 :
                        In(out.res.v[i][j][b][p], ob.res.v[i][j][b][p])
         [] out.how = "sgram" ->
              /\ ob.res.n = out.res.n /\ ob.res.cx = out.res.cx /\ ob.res.frames = out.res.frames /\ Len(ob.res.v) = Len(out.res.v)
              /\ \A c \in 1..Len(out.res.v) : \A j \in 1..out.res.frames :
                   /\ Len(ob.res.v[c][j]) = Len(out.res.v[c][j])
                   /\ \A b \in 1..Len(out.res.v[c][j]) : \A i \in 1..Len(out.res.v[c][j][b]) : In(out.res.v[c][j][b][i], ob.res.v[c][j][b][i])
         [] out.how = "smooth" ->
              /\ ob.res.n = out.res.n /\ Len(ob.res.v) = Len(out.res.v)
              /\ \A c \in 1..Len(out.res.v) :
                   /\ Len(ob.res.v[c]) = Bins(out.res.n)
                   /\ \A b \in 1..Len(ob.res.v[c]) : ob.res.v[c][b] >= out.res.v[c][1] - 2 /\ ob.res.v[c][b] <= out.res.v[c][2] + 2
         [] out.how = "conv" -> In(out.res.v, ob.res.v)

(* the one-sided density of any signal sums to its mean square, in all lengths: *)
(* N * sum of squares = the two-sided sum of the squared transform              *)
Parseval(c, N) ==
    LET D == Dft(TLCEval([k \in 1..Len(c) |-> 10000 * c[k]]), N)
        e == SumTo([b \in 1..Bins(N) |-> Pw(D[b], N)[1] * Side("PowerSpectralDensity", b, N)], Bins(N))
        t == SumTo([b \in 1..Bins(N) |-> 2 * Pw(D[b], N)[2]], Bins(N))
        q == 100 * N * SumTo([k \in 1..Len(c) |-> c[k] * c[k]], Len(c))
    IN e - q <= t /\ q - e <= t
SEInv(s) == /\ \A c \in 1..Len(s.x) : Len(s.x[c]) = Len(s.x[1])
            /\ \A c \in 1..Len(s.x) : Parseval(s.x[c], Len(s.x[c])) /\ Parseval(s.x[c], Fast(Len(s.x[c])))

Scalings == {"AmplitudeSpectrum", "AmplitudeSpectralDensity", "PowerSpectrum", "PowerSpectralDensity",
             "FFTBackward", "FFTForward", "FFTOrthogonal"}
SEStarts == { [x |-> x, win |-> <<>>] : x \in { <<<<1, -2, 3, 0, 2, 4, -1>>>>,
              << <<1, 2, 0, -4, 1, 3, 2, -2, 1, 0, 4, 1>>, <<0, 3, -1, 2, 2, -3, 1, 1, 0, 4, -4, 2>> >> } }
K(sc, N, W, W2, fs) == CASE sc = "FFTBackward" -> 1 [] sc = "FFTForward" -> N * N [] sc = "FFTOrthogonal" -> N
                         [] sc \in {"AmplitudeSpectrum", "PowerSpectrum"} -> W * W [] OTHER -> W2 * fs
SEEvents(s) ==
    LET L == Len(s.x[1]) IN
    { [op |-> o, sc |-> sc, pad |-> p, fs |-> 10, k |-> K(sc, L, L, L, 10)] : o \in {"fft", "fftcsm"}, sc \in Scalings, p \in BOOLEAN }
    \cup { [op |-> "welch", sc |-> sc, w |-> w, W |-> 8, step |-> st, det |-> d, avg |-> a, fs |-> 10, k |-> K(sc, 8, 4, 3, 10)] :
             sc \in Scalings, w \in {"Hann", "Boxcar"}, st \in {4, 6, 8}, d \in BOOLEAN, a \in {"mean", "median"} }
    \cup { [op |-> "welchcsm", sc |-> sc, w |-> "Hamming", W |-> 8, step |-> 4, det |-> d, avg |-> a, fs |-> 10, k |-> K(sc, 8, 4, 3, 10)] :
             sc \in Scalings, d \in BOOLEAN, a \in {"mean", "median"} }
    \cup { [op |-> "sgram", sc |-> sc, w |-> w, W |-> 16, step |-> 8, nfft |-> n, det |-> d, pad |-> p, fs |-> 10, k |-> K(sc, n, 8, 6, 10)] :
             sc \in Scalings, w \in {"Hann"}, n \in {16, 19}, d \in BOOLEAN, p \in BOOLEAN }
    \cup { [op |-> "smooth", pad |-> TRUE, frac |-> 3] : z \in {1} }
=============================================================================
