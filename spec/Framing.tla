------------------------------ MODULE Framing -------------------------------
(***************************************************************************)
(* Overlapping frames.  State: x, the channels of a signal, and fr, frames *)
(* as fr[channel][frame][sample] together with the step they were cut at.  *)
(* Cutting, adding back with and without a window, and the short-time      *)
(* Fourier transform (observed through its inverse transform frame by      *)
(* frame) with its inverse.                                                *)
(***************************************************************************)
EXTENDS Base

None == 99999
Skip == 77777
FRInit(i) == [x |-> i.x, fr |-> <<>>, step |-> 1]

Ceil(a, b) == (a + b - 1) \div b
At(c, k) == IF k >= 1 /\ k <= Len(c) THEN c[k] ELSE 0
(* with keep, as many frames as steps are needed to reach the end; without, only complete frames *)
NFrames(L, W, st, keep) == IF keep THEN Ceil(L, st) ELSE IF L < W THEN 0 ELSE (L - W) \div st + 1
Cut(c, W, st, keep) == [j \in 1..NFrames(Len(c), W, st, keep) |-> [k \in 1..W |-> At(c, (j - 1) * st + k)]]

Total(n, W, st) == st * (n - 1) + W
(* frames that cover sample k: j with (j-1)*st < k <= (j-1)*st + W *)
Cover(n, W, st, k) == { j \in Max2(1, (k - W) \div st - 1)..Min2(n, k \div st + 2) : (j - 1) * st < k /\ k <= (j - 1) * st + W }
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET j == CHOOSE j \in S : TRUE IN f[j] + SumSet(S \ {j}, f)
(* overlap-add of the frames of one channel: <<numerator, denominator>> per sample *)
Ola(fr, st, w) ==
    LET n == Len(fr)
        W == Len(fr[1])
    IN [k \in 1..Total(n, W, st) |->
          LET C == Cover(n, W, st, k)
              num == SumSet(C, [j \in C |-> fr[j][k - (j - 1) * st] * (IF w = <<>> THEN 1 ELSE w[k - (j - 1) * st])])
              den == IF w = <<>> THEN 1 ELSE SumSet(C, [j \in C |-> w[k - (j - 1) * st] * w[k - (j - 1) * st]])
          IN <<num, den>>]
FitP(s, n) == IF n = None THEN s ELSE [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE <<0, 1>>]

Out(r, h) == [res |-> r, how |-> h]
Pad(c, ov, padding) == IF padding THEN Zeros(ov) \o c \o Zeros(ov) ELSE c

FRStep(s, ev) ==
    CASE ev.op = "frame" ->
           LET fr == [i \in 1..Len(s.x) |-> Cut(s.x[i], ev.W, ev.step, ev.keep)] IN
           [st |-> IF fr[1] = <<>> THEN s ELSE [s EXCEPT !.fr = fr, !.step = ev.step], out |-> Out(fr, "eq")]
      [] ev.op = "scale" ->      \* the caller changes one frame
           LET fr == [i \in 1..Len(s.fr) |-> [s.fr[i] EXCEPT ![ev.j] = [k \in 1..Len(@) |-> ev.f * @[k]]]] IN
           [st |-> [s EXCEPT !.fr = fr], out |-> Out(<<>>, "eq")]
      [] ev.op = "ola" ->        \* adding the frames back
           [st |-> s, out |-> Out([i \in 1..Len(s.fr) |-> FitP(Ola(s.fr[i], s.step, ev.w), ev.len)], "ratio")]
      [] ev.op = "back" ->       \* cut with the analysis window and added back with it
           [st |-> s, out |-> Out([x |-> s.x, w |-> ev.w, step |-> ev.step], "back")]
      [] ev.op = "stft" ->
           [st |-> s, out |-> Out([i \in 1..Len(s.x) |->
               LET fr == Cut(Pad(s.x[i], ev.ov, ev.pad), ev.W, ev.W - ev.ov, TRUE)
               IN [j \in 1..Len(fr) |-> [k \in 1..ev.nfft |-> IF k <= Min2(ev.W, ev.nfft) THEN fr[j][k] ELSE 0]]], "frames")]
      [] ev.op = "istft" ->      \* of the unmodified transform
           [st |-> s, out |-> Out([x |-> s.x, W |-> ev.W, step |-> ev.W - ev.ov, ov |-> ev.ov, pad |-> ev.pad,
                                   same |-> ev.via = "signal"], "istft")]

(* observed fixed point, 10000 per unit *)
S4 == 10000
RatioOk(out, ob) ==
    /\ Len(ob) = Len(out)
    /\ \A i \in 1..Len(out) :
         /\ Len(ob[i]) = Len(out[i])
         /\ \A k \in 1..Len(out[i]) :
              LET n == out[i][k][1]
                  d == out[i][k][2]
              IN IF d = 0 THEN ob[i][k] = 0
                 ELSE LET e == S4 * n - ob[i][k] * d IN e <= d + 1 /\ -e <= d + 1
FramesOk(out, ob) ==
    /\ Len(ob) = Len(out)
    /\ \A i \in 1..Len(out) :
         /\ Len(ob[i]) = Len(out[i])
         /\ \A j \in 1..Len(out[i]) :
              /\ Len(ob[i][j]) = Len(out[i][j])
              /\ \A k \in 1..Len(out[i][j]) : ob[i][j][k] \in {Skip, out[i][j][k]}
(* the samples that some window sees come back exactly *)
BackOk(o, ob) ==
    LET L == Len(o.x[1])
        W == Len(o.w)
        n == NFrames(L, W, o.step, TRUE)
    IN /\ Len(ob) = Len(o.x)
       /\ \A i \in 1..Len(o.x) :
            /\ Len(ob[i]) = L
            /\ \A k \in 1..L : LET C == Cover(n, W, o.step, k)
                               IN ob[i][k] = IF \E j \in C : o.w[k - (j - 1) * o.step] # 0 THEN o.x[i][k] ELSE 0
IstftOk(o, ob) ==
    LET L == Len(o.x[1])
        P == L + (IF o.pad THEN 2 * o.ov ELSE 0)
        len == IF o.same THEN L ELSE Total(Ceil(P, o.step), o.W, o.step) - (IF o.pad THEN 2 * o.ov ELSE 0)
    IN /\ Len(ob) = Len(o.x)
       /\ \A i \in 1..Len(o.x) :
            /\ Len(ob[i]) = len
            /\ \A k \in 1..len : (o.pad \/ (k > o.W /\ k <= L - o.W)) => ob[i][k] = At(o.x[i], k)

FRMatch(out, ob) ==
    /\ ~IsErr(ob) /\ ~ob.touched
    /\ CASE out.how = "eq" -> Conforms(out.res, ob.res)
         [] out.how = "ratio" -> RatioOk(out.res, ob.res)
         [] out.how = "frames" -> FramesOk(out.res, ob.res)
         [] out.how = "back" -> BackOk(out.res, ob.res)
         [] out.how = "istft" -> IstftOk(out.res, ob.res)

FRInv(s) == \A i \in 1..Len(s.fr) : Len(s.fr[i]) = Len(s.fr[1])
(* adding frames that abut, or frames weighted by a window, restores the signal: *)
(* checked over all small signals and cuts                                       *)
Invertible(x, W, st, w) ==
    LET n == NFrames(Len(x), W, st, TRUE)
        fr == [j \in 1..n |-> [k \in 1..W |-> w[k] * Cut(x, W, st, TRUE)[j][k]]]
        y == Ola(fr, st, w)
    IN \A k \in 1..Len(x) : y[k][2] # 0 => y[k][1] = x[k] * y[k][2]
ASSUME \A L \in 1..7, W \in 1..4 : \A st \in 1..W :
           Invertible([k \in 1..L |-> 3 * k - 5], W, st, [k \in 1..W |-> (k * k) % 4])

FRStarts == { [x |-> x] : x \in { <<<<1, 2, 3, 4, 5>>>>, << <<1, -2, 3, 0, 5, 6>>, <<7, 8, 9, 1, 2, 3>> >> } }
FREvents(s) ==
    { [op |-> "frame", W |-> W, step |-> st, keep |-> k] :
        W \in {1, 3, 4}, st \in {1, 2, 4}, k \in BOOLEAN }
    \cup { [op |-> "frame", W |-> 7, step |-> st, keep |-> TRUE] : st \in {2, 3} }
    \cup { [op |-> "back", w |-> w, step |-> st] : w \in { <<1, 2, 3>>, <<0, 2, 1, 3>>, <<1>> }, st \in 1..3 }
    \cup (IF s.fr = <<>> THEN {} ELSE
            { [op |-> "scale", j |-> j, f |-> 2] : j \in {1, Len(s.fr[1])} }
            \cup { [op |-> "ola", w |-> w, len |-> l] :
                    w \in { <<>>, [k \in 1..Len(s.fr[1][1]) |-> 1 + (k % 3)] }, l \in {None, 4, 9} })
=============================================================================
