------------------------------- MODULE Gener --------------------------------
(***************************************************************************)
(* Generated signals: tones of every wave form, chirps, noises, impulses.  *)
(* Samples in 1e-4.  Rates and frequencies are integers in Hz, levels are  *)
(* -5 lev dBFS.  Nothing is remembered between calls but their number.     *)
(***************************************************************************)
EXTENDS Levels, Trig

(* 2^(j/24) in 1e-5 *)
Pow24(j) == <<100000, 102930, 105946, 109051, 112246, 115535, 118921, 122405, 125992, 129684, 133484, 137395, 141421, 145565, 149831, 154221, 158740, 163392, 168179, 173107, 178180, 183401, 188775, 194306>>[(j % 24) + 1] * 2^(j \div 24)

(* --- the unscaled samples of one channel, 1e-4 ------------------------- *)
Harm(ev) == {h \in 1..60 : /\ h * ev.f < ev.cut
                           /\ ev.w \in {"Square", "Triangle"} => h % 2 = 1
                           /\ ev.w = "Harmonic" => h = 1}
(* amplitude of harmonic h *)
Sgn(ev, h) == CASE ev.w \in {"Harmonic", "Square"} -> 1
                [] ev.w = "Sawtooth" -> IF h % 2 = 1 THEN 1 ELSE -1
                [] ev.w = "Triangle" -> IF h % 4 = 1 THEN 1 ELSE -1
Amp(ev, h) == IF ev.w = "Triangle" THEN h * h ELSE h
Tone(ev) ==
    LET H == Harm(IF ev.w = "Harmonic" THEN [ev EXCEPT !.cut = 2 * ev.f] ELSE ev)
        one(n, h) == (Sgn(ev, h) * Sine((((h * ev.f * n) % ev.fs) * 9600) \div ev.fs)) \div Amp(ev, h)
    IN  TLCEval([n \in 1..ev.L |-> SumTo([h \in 1..60 |-> IF h \in H THEN one(n - 1, h) ELSE 0], 60)])

Lin(ev) ==
    LET N == ev.L
        D == 2 * ev.fs * (N - 1) * (N - 1)
        ph(i) == (2 * ev.f0 * N * i * (N - 1) + (ev.f1 - ev.f0) * N * i * i) % D
    IN  TLCEval([n \in 1..N |-> Sine((ph(n - 1) * 9600) \div D + 400 * ev.off)])
(* f1 = 2^o f0; the samples are 1/(12 m) octaves apart, h/2 = f0 T *)
Turns(x) == x + (x * 44) \div 100 + ((x \div 100) * 2695) \div 10000         \* x / ln 2
LogC(ev) ==
    TLCEval([n \in 1..ev.L |->
        LET e == Pow24(((n - 1) * 24 * ev.o) \div (ev.L - 1)) - 100000
            t == Turns(((e * 2 * ev.f0 * ev.L) \div ev.fs) \div (2 * ev.o))
        IN  Sine(((t % 100000) * 9600) \div 100000 + 400 * ev.off)])
(* synchronized: k whole turns for every octave *)
Ln2(x) == (x * 693) \div 1000 + (x * 147) \div 1000000
SyncK(ev) == (2 * ev.f0 * ev.L * 1000 + ev.fs * ev.o * 693) \div (2 * ev.fs * ev.o * 693)
SyncN(ev) == (2 * SyncK(ev) * ev.fs * ev.o * 693 + ev.f0 * 1000) \div (2 * ev.f0 * 1000)
Sync(ev) ==
    LET k == SyncK(ev)
        N == SyncN(ev)
    IN  TLCEval([n \in 1..N |-> LET e == Pow24(((n - 1) * 24 * ev.o) \div (N - 1))
                                IN  Sine((((k * e) % 100000) * 9600) \div 100000)])

(* scaled to the level, faded (5 % of the length), padded *)
Shape(x, ev) ==
    LET m == Peak1(x)
        q == Quart(ev.lev)
        n == Len(x)
        w == FadeW(ev.fade, ev.L \div 20, n, TRUE, TRUE)
    IN  [i \in 1..(n + ev.pad) |-> IF i > n THEN <<0, 0>> ELSE <<Rnd(Rnd(x[i] * q, m) * w[i], 10000), ev.tol>>]
Rep(v, n) == [c \in 1..n |-> v]

(* --- noise: ratios of the amplitudes at given bins, 1e-3 --------------- *)
GreyTab(hz) == CASE hz = 100 -> 9062 [] hz = 250 -> 2715 [] hz = 1000 -> 1000 [] hz = 2000 -> 871 [] hz = 4000 -> 895
(* slope b2 = 2 beta; bins 16 times higher *)
Slope(b2) == IF b2 >= 0 THEN <<1000 \div 2^b2, 25 + 25 \div 2^b2>> ELSE <<1000 * 2^(-b2), 25 * 2^(-b2)>>
Beta2(ev) == CASE ev.type = "White" -> 0 [] ev.type = "Pink" -> 2 [] ev.type = "Red" -> 4 [] ev.type = "Blue" -> -2
               [] ev.type = "Violet" -> -4 [] ev.type = "beta" -> ev.b2
NoiseOut(ev) ==
    LET rat == IF ev.type = "Grey" THEN [k \in 1..4 |-> LET g == GreyTab(<<100, 250, 2000, 4000>>[k]) IN <<g, g \div 30>>]
               ELSE << Slope(Beta2(ev)) >>
        white == ev.type = "White" \/ (ev.type = "beta" /\ ev.b2 = 0)
    IN  [c \in 1..ev.ch |-> [peak |-> IF ev.fade = "NoFade" THEN <<Quart(ev.lev), 1>> ELSE <<Quart(ev.lev) \div 2, Quart(ev.lev) \div 2 + 1>>,
                             low |-> LET v == CASE ev.fade # "NoFade" -> <<0, 2000000000>> [] white /\ ev.fs < 10 * ev.L -> <<1000, 60>> [] OTHER -> <<0, 1>>
                                     IN  <<v, v>>,
                             rat |-> IF ev.fade = "NoFade" /\ ev.L >= 500 THEN rat ELSE <<>>]]

GnInit(i) == [calls |-> 0]
GnStep(st, ev) ==
    LET nx == [calls |-> st.calls + 1]
        r(n, kind, res) == [st |-> nx, out |-> [ok |-> TRUE, kind |-> kind, n |-> n, ch |-> ev.ch, fs |-> ev.fs, res |-> res, T |-> 0]]
    IN  CASE ev.bad -> [st |-> nx, out |-> [ok |-> FALSE]]
          [] ev.op = "osc" -> r(ev.L + ev.pad, "near", Rep(Shape(Tone(ev), ev), ev.ch))
          [] ev.op = "unc" -> r(ev.L, "unc", LET H == Harm(IF ev.w = "Harmonic" THEN [ev EXCEPT !.cut = 2 * ev.f] ELSE ev)
                                             IN  Rep([h \in 1..12 |->
                                                IF h \notin H THEN << <<0, 5>>, <<0, 2000000000>>, <<0, 2000000000>> >>
                                                ELSE LET s == 10000 * Sgn(ev, h)
                                                         j == (h - 1) % 4
                                                     IN  << <<10000 \div Amp(ev, h), 5>>, <<(IF j = 0 THEN s ELSE IF j = 2 THEN -s ELSE 0), 20>>,
                                                            <<(IF j = 1 THEN s ELSE IF j = 3 THEN -s ELSE 0), 20>> >>], ev.ch))
          [] ev.op = "lin" -> r(ev.L + ev.pad, "near", Rep(Shape(Lin(ev), ev), ev.ch))
          [] ev.op = "log" -> r(ev.L + ev.pad, "near", Rep(Shape(LogC(ev), ev), ev.ch))
          [] ev.op = "sync" -> [r(SyncN(ev) + ev.pad, "near", Rep(Shape(Sync(ev), ev), ev.ch)) EXCEPT !.out.T = (SyncK(ev) * ev.o * 6931) \div ev.f0]
          [] ev.op = "noise" -> r(ev.L + ev.pad, "noise", NoiseOut(ev))
          [] ev.op = "dirac" -> r(ev.L, "near", Rep([i \in 1..ev.L |-> <<IF i = ev.d + 1 THEN 10000 ELSE 0, 0>>], ev.ch))

CloseV(e, o) == LET d == o - e[1] IN d <= e[2] /\ -d <= e[2]
Close1(e, o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : CloseV(e[i], o[i])
GnMatch(out, ob) ==
    /\ "ok" \in DOMAIN ob /\ ob.ok = out.ok
    /\ out.ok =>
        /\ ob.n = out.n /\ ob.ch = out.ch /\ ob.fs = out.fs
        /\ CloseV(<<out.T, 1 + out.T \div 1000>>, ob.T)
        /\ Len(ob.res) = out.ch
        /\ CASE out.kind = "near" -> \A c \in 1..out.ch : Close1(out.res[c], ob.res[c])
             [] out.kind = "unc" -> ob.distinct /\ \A c \in 1..out.ch : \A h \in 1..12 : Close1(out.res[c][h], ob.res[c][h])
             [] out.kind = "noise" -> /\ ob.distinct /\ ob.quiet
                                      /\ \A c \in 1..out.ch : /\ CloseV(out.res[c].peak, ob.res[c].peak)
                                                              /\ Close1(out.res[c].low, ob.res[c].low)
                                                              /\ out.res[c].rat # <<>> => Close1(out.res[c].rat, ob.res[c].rat)
GnInv(st) == st.calls >= 0

GnStarts == {[calls |-> 0]}
GnEvents(st) ==
    {[op |-> "osc", w |-> w, f |-> f, fs |-> 240, cut |-> cut, L |-> L, lev |-> lev, fade |-> t, pad |-> p, ch |-> c, tol |-> 25, bad |-> FALSE] :
        w \in {"Harmonic", "Square", "Sawtooth", "Triangle"}, f \in {10, 15, 24}, cut \in {60, 120}, L \in {25, 48, 67},
        lev \in {0, 4}, t \in {"NoFade", "Linear", "Logarithmic"}, p \in {0, 7}, c \in {1, 3}}
    \cup {[op |-> "dirac", L |-> L, d |-> d, fs |-> 8000, ch |-> c, bad |-> (d >= L \/ d < 0)] : L \in 4..7, d \in -1..7, c \in 1..3}
    \cup {[op |-> "log", f0 |-> f0, fs |-> 12 * o + 1, o |-> o, L |-> 12 * o + 1, off |-> k, lev |-> 1, fade |-> t, pad |-> 3, ch |-> c, tol |-> 40, bad |-> FALSE] :
        f0 \in {1}, o \in 2..4, k \in {0, 3, 6}, t \in {"NoFade", "Exponential"}, c \in {1, 2}}
=============================================================================
