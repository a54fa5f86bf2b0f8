"""P11: spectral estimates (spec/SpecEst.tla)."""

import numpy as np
from common import Adapter, BAD, Check, MachineryError, dsp, fx, same

NO = dict(none=True)


def ssq(a, k):
    """signed square in hundredths"""
    return fx(float(a) * abs(float(a)) * k, 100)


def nbins(f, fs):
    """the number of points a frequency vector belongs to"""
    f = np.asarray(f)
    n = 1 if len(f) == 1 else int(round(fs / f[1]))
    if not np.allclose(f, np.arange(len(f)) * fs / n) or len(f) != n // 2 + 1:
        return BAD
    return n


class Ad(Adapter):
    def __init__(self, init):
        super().__init__(init)
        self.init = dict(init)
        self.cache = False

    def apply(self, ev):
        if ev["op"] == "set":
            self.init = dict(x=ev["x"], win=ev["win"])
            return dict(ok=True, res=NO, touched=False)
        if ev["op"] == "conv":
            return self.conv(ev)
        d = dsp()
        x = np.array(self.init["x"], float).T.copy()
        win = np.array(self.init["win"], float).T.copy() if self.init["win"] else None
        via = ev.get("via", "signal")
        if win is not None and via in ("signal", "spectrum"):
            via = "ir"
        fs, k = ev["fs"] if "fs" in ev else 10, ev.get("k", 1)
        sc = getattr(d.SpectrumScaling, ev.get("sc", "FFTBackward"))
        sig = (d.ImpulseResponse if via == "ir" else d.Signal)(None, x.copy(), fs, constrain_amplitude=False)
        if win is not None and via == "ir":
            sig.set_window(win.copy())
        if ev.get("cache"):
            sig.activate_cache = True
        w = getattr(d.Window, ev["w"]) if "w" in ev else d.Window.Hann
        ok, res = True, NO
        try:
            op = ev["op"]
            if op in ("fft", "fftcsm", "smooth"):
                sig.set_spectrum_parameters(d.SpectrumMethod.FFT, smoothing=ev.get("frac", 0), pad_to_fast_length=ev["pad"], scaling=sc)
            elif op in ("welch", "welchcsm"):
                sig.set_spectrum_parameters(d.SpectrumMethod.WelchPeriodogram, window_length_samples=ev["W"], window_type=w,
                                            overlap_percent=100 * (1 - ev["step"] / ev["W"]), detrend=ev["det"], average=ev["avg"], scaling=sc)
            else:
                sig.set_spectrogram_parameters(ev["W"], w, 100 * (1 - ev["step"] / ev["W"]),
                                               None if ev["nfft"] == ev["W"] and not ev.get("exp") else ev["nfft"], ev["det"], ev["pad"], sc)
            for _ in range(2 if ev.get("cache") else 1):
                res = getattr(self, op.replace("welch", "").replace("fft", "") or "spec")(ev, sig, sc, k, fs, x, win, via)
        except AssertionError:
            ok = False
        except MachineryError:
            raise
        touched = not np.array_equal(sig.time_data, x) or (win is not None and via == "ir" and not np.array_equal(sig.window, win))
        if "sc" in ev and ev["op"] != "sgram" and sig.spectrum_scaling != sc:
            touched = True
        return dict(ok=ok, res=res, touched=bool(touched))

    def spec(self, ev, sig, sc, k, fs, x, win, via):
        d = dsp()
        welch = ev["op"] == "welch"
        if via == "tool" and not welch:
            n = nbins(sig.get_spectrum()[0], fs)
            raw = np.fft.rfft(x, n, axis=0)
            r0 = raw.copy()
            f, s = np.fft.rfftfreq(n, 1 / fs), d.tools.scale_spectrum(raw, sc, n, fs, win)
            if not np.array_equal(raw, r0):
                return dict(n=BAD, cx=False, v=[])
        elif via == "spectrum":
            cx = not welch and sc.is_amplitude_scaling()
            o = d.Spectrum.from_signal(sig, cx)
            f, s = o.frequency_vector_hz, o.spectral_data
            if not sc.is_amplitude_scaling():
                s = s**2  # magnitudes of what is a power
        else:
            f, s = sig.get_spectrum()
        if s.ndim != 2 or s.shape != (len(f), x.shape[1]):
            return dict(n=BAD, cx=False, v=[])
        cx = np.iscomplexobj(s)
        if cx != sc.outputs_complex_spectrum(sig.spectrum_method):
            return dict(n=BAD, cx=cx, v=[])
        if cx:
            v = [[[ssq(z.real, k), ssq(z.imag, k)] for z in c] for c in s.T]
        else:
            p = s**2 if sc.is_amplitude_scaling() else s
            v = [[[fx(z * k, 100)] for z in c] for c in p.T]
            if np.any(s < 0):
                v = []
        return dict(n=nbins(f, fs), cx=bool(cx), v=v)

    def csm(self, ev, sig, sc, k, fs, x, win, via):
        f, c = sig.get_csm()
        nch = x.shape[1]
        if c.shape != (len(f), nch, nch):
            return dict(n=BAD, v=[])
        root = sc.is_amplitude_scaling() and (ev["op"] == "welchcsm" or sc.has_physical_units())
        if root:
            if np.any(c.real < -1e-9):
                return dict(n=BAD, v=[])
            c = c**2
        v = [[[[fx(z.real * k, 100), fx(z.imag * k, 100)] for z in c[:, i, j]] for j in range(nch)] for i in range(nch)]
        return dict(n=nbins(f, fs), v=v)

    def sgram(self, ev, sig, sc, k, fs, x, win, via):
        t, f, s = sig.get_spectrogram()
        if s.ndim != 3 or s.shape != (len(f), len(t), x.shape[1]) or (len(t) > 1 and np.any(np.diff(t) <= 0)) or t[0] != 0:
            return dict(n=BAD, cx=False, frames=0, v=[])
        cx = bool(np.iscomplexobj(s))
        if cx:
            v = [[[[ssq(z.real, k), ssq(z.imag, k)] for z in s[:, j, c]] for j in range(s.shape[1])] for c in range(s.shape[2])]
        else:
            v = [[[[fx(z * k, 100)] for z in s[:, j, c]] for j in range(s.shape[1])] for c in range(s.shape[2])]
        return dict(n=nbins(f, fs), cx=cx, frames=s.shape[1], v=v)

    def smooth(self, ev, sig, sc, k, fs, x, win, via):
        f, s = sig.get_spectrum()
        if s.shape != (len(f), x.shape[1]):
            return dict(n=BAD, v=[])
        return dict(n=nbins(f, fs), v=[[fx(abs(z) ** 2, 100) for z in c] for c in s.T])

    def conv(self, ev):
        d = dsp()
        a, b = getattr(d.SpectrumScaling, ev["a"]), getattr(d.SpectrumScaling, ev["b"])
        w = np.array(ev["win"], float)[:, None] if ev["win"] else None
        w0 = None if w is None else w.copy()
        c = np.ravel(a.conversion_factor(b, ev["N"], ev["fs"], w))
        if c.shape != (1,):
            return dict(ok=True, res=dict(v=BAD), touched=False)
        c = float(c[0])
        if a.is_amplitude_scaling() and b.is_amplitude_scaling():
            c = c**2
        return dict(ok=True, res=dict(v=fx(c, 1000)), touched=w is not None and not np.array_equal(w, w0))


def inn(e, o):
    return isinstance(o, int) and abs(e[0] - o) <= e[1]


def deep(e, o):
    if e and isinstance(e[0], int):
        return inn(e, o)
    return isinstance(o, list) and len(e) == len(o) and all(map(deep, e, o))


def match(out, ob):
    if ob.get("err") or ob["touched"] or ob["ok"] != out["ok"]:
        return False
    if not out["ok"]:
        return True
    r, o = out["res"], ob["res"]
    if out["how"] == "none":
        return True
    if out["how"] == "conv":
        return inn(r["v"], o["v"])
    if out["how"] == "smooth":
        return o["n"] == r["n"] and len(o["v"]) == len(r["v"]) and all(
            len(c) == r["n"] // 2 + 1 and all(e[0] - 2 <= z <= e[1] + 2 for z in c) for e, c in zip(r["v"], o["v"]))
    return all(o[k] == r[k] for k in ("n", "cx", "frames") if k in r) and deep(r["v"], o["v"])


SCAL = ["AmplitudeSpectrum", "AmplitudeSpectralDensity", "PowerSpectrum", "PowerSpectralDensity", "FFTBackward", "FFTForward", "FFTOrthogonal"]


def fast(n):
    while True:
        m = n
        for p in (2, 3, 5):
            while m % p == 0:
                m //= p
        if m == 1:
            return n
        n += 1


def script(rng):
    nch = rng.choice([1, 1, 2, 2, 3])
    L = rng.randint(nch + 1, 22)

    def data(L, hi=4):
        kind = rng.random()
        if kind < 0.15:
            return [[rng.choice([3, -2])] * L for _ in range(nch)]
        return [[rng.randint(-hi, hi) for _ in range(L)] for _ in range(nch)]

    def window(L):
        if rng.random() < 0.6:
            return []
        return [[rng.randint(0, 3) for _ in range(L - 1)] + [rng.randint(1, 3)] for _ in range(nch)]

    x, win = data(L), window(L)
    init = dict(x=x, win=win)
    evs = []

    def kk(sc, N, W, W2, fs):
        return max(1, round({"FFTBackward": 1, "FFTForward": N * N, "FFTOrthogonal": N}.get(
            sc, W * W if sc in ("AmplitudeSpectrum", "PowerSpectrum") else W2 * fs)))

    from scipy.signal import windows as sw

    for _ in range(rng.randint(1, 4)):
        op = rng.choice(["fft", "fft", "fftcsm", "welch", "welch", "welchcsm", "sgram", "smooth", "conv", "set"])
        sc, fs = rng.choice(SCAL), rng.choice([2, 5, 8, 10])
        ev = dict(op=op)
        if op == "set":
            L = rng.randint(nch + 1, 22)
            x, win = data(L), window(L)
            ev.update(x=x, win=win)
        elif op in ("fft", "fftcsm"):
            pad = rng.random() < 0.5
            N = fast(L) if pad else L
            ev.update(sc=sc, pad=pad, fs=fs, via=rng.choice(["signal", "ir", "spectrum", "tool"] if op == "fft" else ["signal", "ir"]),
                      cache=rng.random() < 0.3)
            W = min(sum(w) for w in win) if win else N
            W2 = min(sum(v * v for v in w) for w in win) if win else N
            ev["k"] = kk(sc, N, W, W2, fs)
        elif op in ("welch", "welchcsm"):
            W = rng.choice([8, 8, 16]) if nch < 3 or op == "welch" else 8
            w = rng.choice(["Hann", "Boxcar", "Hamming", "Blackman", "Bartlett"])
            wv = sw.get_window(w.lower(), W)
            ev.update(sc=sc, w=w, W=W, step=rng.choice([W // 4, W // 2, 3 * W // 4, W, 3 * W // 8]), det=rng.random() < 0.5,
                      avg=rng.choice(["mean", "median"]), fs=fs, k=kk(sc, W, wv.sum(), (wv**2).sum(), fs), cache=rng.random() < 0.3,
                      via=rng.choice(["signal", "ir", "spectrum"]))
        elif op == "sgram":
            w = rng.choice(["Hann", "Boxcar", "Hamming", "Blackman", "Bartlett"])
            wv = sw.get_window(w.lower(), 16)
            n = rng.choice([16, 16, 17, 20, 24, 32])
            ev.update(sc=sc, w=w, W=16, step=rng.choice([4, 8, 12, 16, 6]), nfft=n, det=rng.random() < 0.5, pad=rng.random() < 0.5, fs=fs,
                      k=kk(sc, n, wv.sum(), (wv**2).sum(), fs), exp=rng.random() < 0.5, cache=rng.random() < 0.3)
        elif op == "smooth":
            ev.update(pad=rng.random() < 0.5, frac=rng.choice([1, 3, 6]))
            if L < 5:
                continue
        else:
            N = rng.randint(1, 8)
            wv = [rng.randint(0, 3) for _ in range(N - 1)] + [2] if rng.random() < 0.6 else []
            ev.update(a=rng.choice(SCAL), b=rng.choice(SCAL), N=N, win=wv, W=sum(wv) if wv else N, W2=sum(v * v for v in wv) if wv else N, fs=fs)
        evs.append(ev)
    return init, evs


def run(c: Check):
    dsp()
    c.assumptions = ["signals are short vectors of small integers, transforms up to 32 points, compared to within half a percent"]
    c.generate("SpecEstGen", Ad, match, limit=c.n(800, None))
    c.drive("SpecEstTrace", Ad, [script(c.rng) for _ in range(c.n(700, 8000))])
