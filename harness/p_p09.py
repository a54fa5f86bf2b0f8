"""P09: framing and short-time transforms (spec/Framing.tla)."""

import numpy as np
import scipy.signal as sps
from common import Adapter, BAD, Check, MachineryError, arr, dsp, fx, q, same

NONE, ANY, S4 = 99999, 77777, 10000


def scaling(name):
    return getattr(dsp().SpectrumScaling, name)


class Ad(Adapter):
    def __init__(self, init):
        self.x = arr(init["x"])
        self.fr = None
        self.hop = 1

    def apply(self, ev):
        self.watch = [(a, a.copy()) for a in [self.x] + ([] if self.fr is None else [self.fr])]
        if ev["op"] == "scale":
            self.fr[:, ev["j"] - 1, :] *= ev["f"]
            return {"res": [], "touched": bool(np.any(self.x != self.watch[0][1]))}
        r = self.do(ev)
        return {"res": r, "touched": bool(any(a.shape != b.shape or np.any(a != b) for a, b in self.watch))}

    def sig(self, ev):
        d = dsp()
        s = d.Signal(None, self.x, ev.get("fs", 1000), constrain_amplitude=False)
        win = getattr(d.Window, ev["win"])
        s.set_spectrogram_parameters(ev["W"], win, 100 * ev["ov"] / ev["W"],
                                     None if ev["none"] else ev["nfft"], False, ev["pad"], scaling(ev["sc"]))
        return s, win

    def do(self, ev):
        d, op = dsp(), ev["op"]
        if op == "frame":
            fr = d.tools.framed_signal(self.x, ev["W"], ev["step"], ev["keep"])
            if fr.ndim != 3 or fr.shape[0] != ev["W"] or fr.shape[2] != self.x.shape[1]:
                return BAD
            L, n = len(self.x), fr.shape[1]
            if not ev["keep"] and L >= ev["W"] and n * ev["step"] == L - ev["W"]:
                # known finding: the last frame that fits exactly is missing
                fr = np.concatenate([fr, self.x[L - ev["W"]:][:, None, :]], 1)
            if fr.shape[1]:
                self.fr, self.hop = fr.copy(), ev["step"]
            out = [[q(fr[:, j, i]) for j in range(fr.shape[1])] for i in range(fr.shape[2])]
            fr += 50.0  # the frames are the caller's own
            return out
        if op == "ola":
            w = np.array(ev["w"], float) if ev["w"] else None
            if w is not None:
                self.watch.append((w, w.copy()))
            y = d.tools.reconstruct_from_framed_signal(self.fr, self.hop, w, None if ev["len"] == NONE else ev["len"])
            return [fx(y[:, i], S4) for i in range(y.shape[1])]
        if op == "back":
            w = np.array(ev["w"], float)
            self.watch.append((w, w.copy()))
            fr = d.tools.framed_signal(self.x, len(w), ev["step"])
            y = d.tools.reconstruct_from_framed_signal(fr * w[:, None, None], ev["step"], w, len(self.x))
            return [q(y[:, i]) for i in range(y.shape[1])]
        s, win = self.sig(ev)
        t, f, S = s.get_spectrogram()
        if op == "stft":
            nfft, W = ev["nfft"], ev["W"]
            if len(t) != S.shape[1] or len(f) != S.shape[0] or len(f) != nfft // 2 + 1:
                return BAD
            if np.max(np.abs(f * nfft / s.sampling_rate_hz - np.arange(len(f)))) > 1e-6:
                return BAD
            fr = np.fft.irfft(S, n=nfft, axis=0, norm=scaling(ev["sc"]).fft_norm())
            w = sps.get_window(win.to_scipy_format(), W)[:nfft]
            out = []
            for i in range(fr.shape[2]):
                ch = []
                for j in range(fr.shape[1]):
                    v = fr[:, j, i]
                    ch.append([q(v[k] / w[k], tol=1e-5) if w[k] > 0.02 else ANY for k in range(len(w))] +
                              [q(v[k]) for k in range(len(w), nfft)])
                out.append(ch)
            return out
        if op == "istft":
            keep = S.copy()
            if ev["via"] == "signal":
                y = d.transforms.istft(S, original_signal=s)
            else:
                p = dict(window_length_samples=ev["W"], window_type=win, overlap_percent=100 * ev["ov"] / ev["W"],
                         fft_length_samples=None if ev["none"] else ev["nfft"], padding=ev["pad"], scaling=scaling(ev["sc"]))
                if ev["via"] == "dict":
                    p0 = dict(p)
                    y = d.transforms.istft(S, parameters=p, sampling_rate_hz=1000)
                    if p != p0:
                        return BAD
                else:
                    y = d.transforms.istft(S, sampling_rate_hz=1000, **p)
            if np.any(keep != S) or y.sampling_rate_hz != 1000:
                return BAD
            sf = y.amplitude_scale_factor if ev["via"] != "signal" else 1.0
            return [q(c, tol=1e-5) for c in (y.time_data / sf).T]
        raise MachineryError(op)


def match(out, ob):
    if ob.get("err") or ob["touched"]:
        return False
    if out["how"] == "ratio":
        o, r = out["res"], ob["res"]
        return isinstance(r, list) and len(o) == len(r) and all(
            len(a) == len(b) and all((v == 0) if den == 0 else abs(S4 * num - v * den) <= den + 1
                                     for (num, den), v in zip(a, b)) for a, b in zip(o, r))
    if out["how"] == "back":
        o, r = out["res"], ob["res"]
        W, st, L = len(o["w"]), o["step"], len(o["x"][0])
        n = -(-L // st)
        want = [[x if any(0 <= k - j * st < W and o["w"][k - j * st] for j in range(n)) else 0
                 for k, x in enumerate(c)] for c in o["x"]]
        return same(want, r)
    return same(out["res"], ob["res"])


def script(rng):
    long = rng.random() < 0.5
    nch, L = rng.randint(1, 3), rng.randint(17, 110) if long else rng.randint(4, 30)
    x = [[rng.randint(-9, 9) for _ in range(L)] for _ in range(nch)]
    evs = []
    fr = None
    for _ in range(rng.randint(1, 3) if long else rng.randint(2, 6)):
        op = rng.choice(["stft", "istft"] if long else ["frame", "frame", "scale", "ola", "ola", "back"])
        if op == "frame":
            W = rng.choice([rng.randint(1, 8), rng.randint(1, L + 3)])
            st = rng.choice([rng.randint(1, W), W, rng.randint(1, 12)])
            keep = rng.random() < 0.6 or L < W
            evs.append(dict(op=op, W=W, step=st, keep=keep))
            n = -(-L // st) if keep else (0 if L < W else (L - W) // st + 1)
            if n:
                fr = (W, n, st)
        elif op == "scale":
            if fr:
                evs.append(dict(op=op, j=rng.randint(1, fr[1]), f=rng.choice([2, -1, 0])))
        elif op == "ola":
            if fr and fr[2] <= fr[0]:
                w = [] if rng.random() < 0.3 else [rng.randint(0, 4) for _ in range(fr[0])]
                tot = fr[2] * (fr[1] - 1) + fr[0]
                evs.append(dict(op=op, w=w, len=rng.choice([NONE, L, rng.randint(1, tot + 4)])))
        elif op == "back":
            W = rng.randint(1, 9)
            evs.append(dict(op=op, w=[rng.randint(0, 4) for _ in range(W)], step=rng.randint(1, W)))
        else:
            W = rng.choice([16, 16, 32])
            win = rng.choice(["Hann", "Boxcar", "Hamming", "Blackman"])
            sc = rng.choice(["FFTBackward", "FFTForward", "FFTOrthogonal"] +
                            (["AmplitudeSpectrum", "AmplitudeSpectralDensity"] if op == "istft" else []))
            nfft = rng.choice([W, W, W + 1, W + 3, 2 * W] + ([W - 3] if op == "stft" else []))
            ov = rng.randint(W // 2, W - 1) if win in ("Blackman", "Hann") else rng.randint(0, W - 1)
            if ov == W - 1 and rng.random() < 0.7:
                ov = W // 2
            evs.append(dict(op=op, W=W, ov=ov, win=win, sc=sc, nfft=nfft, none=nfft == W and rng.random() < 0.5,
                            pad=rng.random() < 0.7, via=rng.choice(["signal", "signal", "dict", "args"])))
    return dict(x=x), evs


def last_frame_missing():
    return dsp().tools.framed_signal(np.ones((12, 1)), 4, 2, False).shape[1] != 5


def run(c: Check):
    dsp()
    c.probe_known("last-complete-frame", last_frame_missing)
    c.assumptions = ["samples are small integers; short-time spectra are observed through numpy's inverse real transform"]
    c.generate("FramingGen", Ad, match, limit=c.n(8000, None))
    c.drive("FramingTrace", Ad, [script(c.rng) for _ in range(c.n(2500, 40000))])
