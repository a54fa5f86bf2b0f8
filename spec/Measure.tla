------------------------------- MODULE Measure -------------------------------
(***************************************************************************)
(* Calibration and the audio device.                                       *)
(*                                                                         *)
(* Calibration data: recordings of a calibrator (channels of integers, in  *)
(* 1/16), the level of the calibrator and the way its RMS is taken (over   *)
(* time, or the component at 1 kHz of the spectrum).  The factor of a      *)
(* channel is P(level)/RMS; it is computed with the first use, when        *)
(* channels are added and on demand.                                       *)
(*                                                                         *)
(* Device: four outputs, four inputs; what is played arrives sample by     *)
(* sample on the outputs it was mapped to; input c records the sequence    *)
(* 10c, 10c+1, ... (in 1/128).  Defaults: input and output device, rate,   *)
(* latencies, block size.                                                  *)
(***************************************************************************)
EXTENDS Base

Rnd(a, b) == a \div b + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
SqSum(c) == SumTo([i \in 1..Len(c) |-> c[i] * c[i]], Len(c))
Peak1(c) == LET v == {Abs(c[i]) : i \in 1..Len(c)} IN CHOOSE m \in v : \A w \in v : w <= m
Peak(b) == LET v == {Peak1(b[i]) : i \in 1..Len(b)} IN CHOOSE m \in v : \A w \in v : w <= m

(* --- calibration -------------------------------------------------------- *)
(* squared component at a quarter of the sampling rate, times 2 L^2: 4 |X|^2 *)
Comp(c) ==
    LET L == Len(c)
        re == SumTo([i \in 1..L |-> LET k == (i - 1) % 4 IN IF k = 0 THEN c[i] ELSE IF k = 2 THEN -c[i] ELSE 0], L)
        im == SumTo([i \in 1..L |-> LET k == (i - 1) % 4 IN IF k = 1 THEN c[i] ELSE IF k = 3 THEN -c[i] ELSE 0], L)
    IN  re * re + im * im
(* squared factor in 1e-6 for 94 dB *)
Fac2(c, high) ==
    LET L == Len(c)
    IN  IF high THEN Rnd(1004755 * L, SqSum(c))
        ELSE Rnd(502378 * L, (Comp(c) + L \div 2) \div L)      \* rms^2 = 2 |X|^2 / L^2
(* signed squares of calibrated samples (x/16) in 1e-3 Pa^2 *)
Level == [l \in {94, 104, 114} |-> CASE l = 94 -> 1000 [] l = 104 -> 100 [] l = 114 -> 10]
Cal(c, f, l) == [i \in 1..Len(c) |->
                LET v == Rnd(c[i] * c[i] * f, Level[l])
                IN  <<(IF c[i] < 0 THEN -1 ELSE 1) * v, 2 + v \div 1500>>]

FitTo(c, n) == Fit(c, n)
AddCh(st, ev) ==
    LET n == Len(st.cal[1])
        okc == ev.same /\ (Len(ev.b[1]) = n \/ ev.fit)
    IN  IF ~okc THEN st
        ELSE [st EXCEPT !.cal = TLCEval(@ \o [k \in 1..Len(ev.b) |-> FitTo(ev.b[k], n)]), !.fac = <<>>, !.stale = FALSE]
Facs(st) == TLCEval([k \in 1..Len(st.cal) |-> Fac2(st.cal[k], st.high)])
Calibrate(st, ev) ==
    LET fresh == st.fac = <<>> \/ ev.force
        s1 == IF fresh THEN [st EXCEPT !.fac = Facs(st), !.facspl = st.spl, !.stale = FALSE] ELSE st
        n == Len(ev.b[1])
        okc == Len(s1.fac) = 1 \/ Len(s1.fac) = n
        f(k) == IF Len(s1.fac) = 1 THEN s1.fac[1] ELSE s1.fac[k]
    IN  << s1, okc, IF ~okc THEN <<>> ELSE [i \in 1..Len(ev.b) |-> [k \in 1..n |-> Cal(ev.b[i][k], f(k), s1.facspl)]], s1.stale >>

(* --- device --------------------------------------------------------------- *)
Chans(ev) == IF ev.map = <<>> THEN [k \in 1..Len(ev.b) |-> k] ELSE ev.map
Frames(ev) == IF ev.dur = 0 THEN Len(ev.b[1]) ELSE Min2(ev.dur, Len(ev.b[1]))
(* samples in 1e-4; level: 0: as they are, otherwise the peak in 1e-4 *)
Played(ev) ==
    LET b == TLCEval([k \in 1..Len(ev.b) |-> SubSeq(ev.b[k], 1, Frames(ev))])
        pk == Peak(b)
        v(x) == IF ev.level = 0 THEN Rnd(x * 10000, 16) ELSE Rnd(x * ev.level, pk)
        m == Chans(ev)
    IN  [o \in 1..4 |-> LET w == {k \in 1..Len(m) : m[k] = o}
                        IN  IF w = {} THEN <<>>
                            ELSE LET k == CHOOSE k \in w : TRUE IN [t \in 1..Len(b[k]) |-> v(b[k][t])]]
PlayOk(ev) == /\ Len(Chans(ev)) = Len(ev.b)
              /\ \A k \in 1..Len(Chans(ev)) : Chans(ev)[k] >= 1 /\ Chans(ev)[k] <= 4
              /\ ev.dur >= 0 /\ ev.level <= 10000
Rec(ch, n) == [k \in 1..Len(ch) |-> [t \in 1..n |-> 10 * ch[k] + t - 1]]
RecOk(ev) == \A k \in 1..Len(ev.rec) : ev.rec[k] >= 1 /\ ev.rec[k] <= 4
Dev(st, ev) == IF ev.dev = "" THEN st.dev ELSE <<ev.dev, ev.dev>>

Names == <<"Mic Array", "Speaker", "array b", "SPEAKER two">>
Low == [x \in {"array", "Array", "speaker", "SPEAKER", "b", "none", "Speaker t", "mic array", "AY B"} |->
          CASE x \in {"array", "Array", "mic array"} -> 0 [] x \in {"speaker", "SPEAKER"} -> 1 [] x = "b" -> 2
            [] x = "Speaker t" -> 3 [] x = "AY B" -> 2 [] OTHER -> 99]
SetDev(st, ev) ==
    LET n == Len(ev.names)
        byName == [k \in 1..n |-> Low[ev.names[k]]]
        ids == IF n > 0 THEN byName ELSE ev.ids
        okc == Len(ids) \in {1, 2} /\ ~ev.mixed /\ \A k \in 1..Len(ids) : ids[k] < 4
        s(k) == ToString(ids[k])
    IN  << IF okc THEN [st EXCEPT !.dev = <<s(1), s(Len(ids))>>, !.rate = IF ev.rate > 0 THEN ev.rate ELSE @] ELSE st, okc >>

None == [st |-> 0]
MEInit(i) == [cal |-> i.cal, fs |-> i.fs, spl |-> i.spl, high |-> i.high, fac |-> <<>>, facspl |-> i.spl, stale |-> FALSE,
              dev |-> <<"default", "default">>, rate |-> 0, lat |-> <<"high", "high">>, blk |-> 0]
Out(st, ok, kind, res, more) == [ok |-> ok, kind |-> kind, res |-> res, more |-> more, dev |-> st.dev,
                                 defaults |-> <<ToString(st.rate), st.lat[1], st.lat[2], ToString(st.blk)>>]
MEStep(st, ev) ==
    CASE ev.op = "addch" -> LET n == AddCh(st, ev) IN [st |-> n, out |-> Out(n, n.cal # st.cal, "none", <<>>, <<>>)]
      [] ev.op = "setcal" -> LET n == [st EXCEPT !.spl = ev.spl, !.high = ev.high, !.stale = (st.fac # <<>>)]
                             IN  [st |-> n, out |-> Out(n, TRUE, "none", <<>>, <<>>)]
      [] ev.op = "calibrate" -> LET r == TLCEval(Calibrate(st, ev))
                                IN  [st |-> r[1], out |-> Out(r[1], r[2], IF r[4] THEN "any" ELSE "near", r[3], <<>>)]
      [] ev.op = "play" -> LET okc == PlayOk(ev)
                               n == IF okc THEN [st EXCEPT !.dev = Dev(st, ev)] ELSE st
                           IN  [st |-> n, out |-> Out(n, okc, "play", IF okc THEN Played(ev) ELSE <<>>, <<ToString(ev.fs)>>)]
      [] ev.op = "record" -> LET okc == RecOk(ev)
                                 n == IF okc THEN [st EXCEPT !.dev = Dev(st, ev)] ELSE st
                             IN  [st |-> n, out |-> Out(n, okc, "rec", IF okc THEN Rec(ev.rec, ev.dur) ELSE <<>>, <<ToString(ev.fs)>>)]
      [] ev.op = "playrec" -> LET okc == PlayOk(ev) /\ RecOk(ev)
                                  n == IF okc THEN [st EXCEPT !.dev = Dev(st, ev)] ELSE st
                              IN  [st |-> n, out |-> Out(n, okc, "both", IF okc THEN <<Played(ev), Rec(ev.rec, Frames(ev))>> ELSE <<>>,
                                                         <<ToString(ev.fs)>>)]
      [] ev.op = "setdev" -> LET r == SetDev(st, ev) IN [st |-> r[1], out |-> Out(r[1], r[2], "none", <<>>, <<>>)]
      [] ev.op = "setlat" -> LET n == [st EXCEPT !.lat = <<IF ev.a THEN "low" ELSE "high", IF ev.b THEN "low" ELSE "high">>]
                             IN  [st |-> n, out |-> Out(n, TRUE, "none", <<>>, <<>>)]
      [] ev.op = "setblk" -> LET n == [st EXCEPT !.blk = ev.n] IN [st |-> n, out |-> Out(n, TRUE, "none", <<>>, <<>>)]
      [] ev.op = "stream" -> [st |-> st, out |-> Out(st, TRUE, "none", <<>>, <<ToString(ev.fs), ToString(Len(ev.b)), ToString(ev.n)>>)]

CloseV(e, o) == LET d == o - e[1] IN d <= e[2] /\ -d <= e[2]
Close3(e, o) == /\ Len(e) = Len(o)
                /\ \A i \in 1..Len(e) : /\ Len(e[i]) = Len(o[i])
                                        /\ \A j \in 1..Len(e[i]) : /\ Len(e[i][j]) = Len(o[i][j])
                                                                   /\ \A t \in 1..Len(e[i][j]) : CloseV(e[i][j][t], o[i][j][t])
MEMatch(out, ob) ==
    /\ ob.ok = out.ok /\ ob.touched = FALSE
    /\ (out.ok \/ out.kind = "none") => ob.dev = out.dev
    /\ ob.defaults = out.defaults
    /\ out.ok => /\ ob.more = out.more \/ out.kind = "any"
                 /\ CASE out.kind = "near" -> Close3(out.res, ob.res)
                      [] out.kind = "play" -> Near2(out.res, ob.res, 1)
                      [] out.kind = "rec" -> Near2(out.res, ob.res, 0)
                      [] out.kind = "both" -> Len(ob.res) = 2 /\ Near2(out.res[1], ob.res[1], 1) /\ Near2(out.res[2], ob.res[2], 0)
                      [] OTHER -> TRUE

MEInv(st) == /\ Len(st.cal) >= 1 /\ (st.fac = <<>> \/ Len(st.fac) = Len(st.cal))
             /\ \A k \in 1..Len(st.fac) : st.fac[k] > 0
             /\ \A k \in 1..Len(st.cal) : Len(st.cal[k]) = Len(st.cal[1])

(* exhaustive part *)
C1 == <<4, 8, -4, 0>>
C2 == <<6, -6, 6, -2>>
MEStarts == {[cal |-> c, fs |-> 4000, spl |-> 94, high |-> h] : c \in {<<C1>>, <<C1, C2>>}, h \in {TRUE, FALSE}}
B1 == <<1, -2, 3, 5>>
B2 == <<7, 0, -8, 2>>
MEEvents(st) ==
    {[op |-> "addch", b |-> <<c>>, same |-> s, fit |-> f, how |-> w] :
        c \in {C2, <<8, 4, -8>>}, s \in {TRUE, FALSE}, f \in {TRUE, FALSE}, w \in {"tuple"}}
    \cup {[op |-> "calibrate", b |-> b, im |-> FALSE, force |-> f] : b \in {<< <<B1>> >>, << <<B1, B2>> >>, << <<B1, B2>>, <<B2, B1>> >>}, f \in {TRUE, FALSE}}
    \cup {[op |-> "setcal", spl |-> 114, high |-> h] : h \in {TRUE, FALSE}}
    \cup {[op |-> "playrec", b |-> <<B1, B2>>, fs |-> 8000, dur |-> d, level |-> 0, dev |-> w, map |-> m, rec |-> r] :
            d \in {0, 3}, w \in {"", "X"}, m \in {<<>>, <<3, 1>>, <<2>>, <<0, 1>>}, r \in {<<1>>, <<2, 4>>}}
    \cup {[op |-> "setdev", ids |-> <<1, 2>>, names |-> n, mixed |-> FALSE, rate |-> r] : n \in {<<>>, <<"b">>, <<"none">>}, r \in {0, 44100}}
==============================================================================
