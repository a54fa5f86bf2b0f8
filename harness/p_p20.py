"""P20: generated signals (spec/Gener.tla)."""

import math

import numpy as np
from common import Adapter, BAD, Check, MachineryError, dsp, fx


class Ad(Adapter):
    def apply(self, ev):
        try:
            return dict(ok=True, **getattr(self, "do_" + ev["op"])(ev))
        except MachineryError:
            raise
        except (AssertionError, ValueError, TypeError, IndexError):
            return dict(ok=False)

    def out(self, s, ev, typ, T=0, **kw):
        x = s.time_data
        n, ch = x.shape
        if type(s) is not typ or s.number_of_channels != ch or s.length_samples != n or np.iscomplexobj(x):
            ch = BAD
        o = dict(n=n, ch=ch, fs=s.sampling_rate_hz, T=fx(T, 10000))
        o["res"] = kw.pop("res", None) or [[fx(v, 10000) for v in c] for c in x.T]
        o.update(kw)
        return o

    def common(self, ev):
        d = dsp()
        fade = None if ev["fade"] == "NoFade" and ev["L"] % 2 else d.FadeType[ev["fade"]]
        return dict(peak_level_dbfs=-5.0 * ev["lev"], number_of_channels=ev["ch"], fade=fade,
                    padding_end_seconds=(ev["pad"] + (ev.get("jit", 0) / 10 if ev["pad"] > 0 else 0)) / ev["fs"])

    def do_osc(self, ev):
        d = dsp()
        k = {} if ev["cut"] == ev["fs"] // 2 else dict(harmonic_cutoff_hz=ev["cut"])
        f = d.generators.oscillator(ev["f"], ev["fs"], (ev["L"] + ev.get("jit", 0) / 10) / ev["fs"], d.generators.WaveForm[ev["w"]], **k, **self.common(ev))
        return self.out(f, ev, d.Signal)

    def do_unc(self, ev):
        d = dsp()
        s = d.generators.oscillator(ev["f"], ev["fs"], ev["L"] / ev["fs"], d.generators.WaveForm[ev["w"]], ev["cut"], number_of_channels=ev["ch"],
                                    uncorrelated=True, fade=None)
        x = s.time_data
        res, phases = [], []
        for c in x.T:
            t = np.arange(len(c)) * ev["f"] / ev["fs"]
            cs = [np.sum(c * np.exp(-2j * np.pi * h * t)) for h in range(1, 13)]
            u = cs[0] / abs(cs[0])
            phases.append(np.angle(u))
            one = []
            for h, v in enumerate(cs, 1):
                w = v / max(abs(v), 1e-300) * np.conj(u) ** h
                if ev["f"] * h * 2 > ev["fs"]:
                    v = 0
                one.append([fx(abs(v) / abs(cs[0]), 10000), fx(w.real, 10000), fx(w.imag, 10000)])
            res.append(one)
        return self.out(s, ev, d.Signal, res=res, distinct=len(set(np.round(phases, 6))) == len(phases))

    def chirp(self, ev, typ):
        d = dsp()
        rng = [ev["f0"], ev["f1"] if typ == "Linear" else ev["f0"] * 2 ** ev["o"]]
        if ev["L"] % 3 == 0:
            rng = rng[::-1]
        return d.generators.chirp(ev["fs"], d.generators.ChirpType[typ], rng, ev["L"] / ev["fs"], phase_offset=ev["off"] / 24 * 2 * np.pi, **self.common(ev))

    def do_lin(self, ev):
        return self.out(self.chirp(ev, "Linear"), ev, dsp().Signal)

    def do_log(self, ev):
        return self.out(self.chirp(ev, "Logarithmic"), ev, dsp().Signal)

    def do_sync(self, ev):
        s, T = self.chirp(ev, "SyncLog")
        return self.out(s, ev, dsp().Signal, T)

    def do_noise(self, ev):
        d = dsp()
        typ = ev["b2"] / 2 if ev["type"] == "beta" else d.generators.NoiseType[ev["type"]]
        s = d.generators.noise((ev["L"] + ev.get("jit", 0) / 10) / ev["fs"], ev["fs"], typ, **self.common(ev))
        x = s.time_data[: ev["L"]]
        X = np.abs(np.fft.rfft(x, axis=0))
        low = [k for k in range(1, len(X)) if (k + 0.5) * ev["fs"] / ev["L"] < 15]
        res = []
        for c in range(x.shape[1]):
            v = X[:, c]
            if ev["type"] == "Grey":
                b = [round(h * ev["L"] / ev["fs"]) for h in (1000, 100, 250, 2000, 4000)]
                rat = [fx(v[k] / v[b[0]], 1000) for k in b[1:]] if b[-1] < len(v) else []
            else:
                k = max(round(30 * ev["L"] / ev["fs"]), 2)
                rat = [fx(v[16 * k] / v[k], 1000)] if 16 * k < len(v) else []
            ref = max(np.max(v), 1e-300)
            res.append(dict(peak=fx(np.max(np.abs(x[:, c])), 10000), low=([fx(v[low].min() / ref, 1000), fx(v[low].max() / ref, 1000)] if low else [0, 0]), rat=rat))
        quiet = not s.time_data[ev["L"]:].any() and bool(np.isfinite(x).all()) and bool((X[0] < 1e-6 * X.max()).all() if ev["fade"] == "NoFade" else True)
        distinct = len({c.tobytes() for c in x.T}) == x.shape[1]
        return self.out(s, ev, d.Signal, res=res, quiet=quiet, distinct=distinct)

    def do_dirac(self, ev):
        d = dsp()
        return self.out(d.generators.dirac(ev["L"], ev["fs"], ev["d"], ev["ch"]), ev, d.ImpulseResponse)


FADES = ["NoFade", "NoFade", "Linear", "Logarithmic", "Exponential"]


def event(rng):
    z = rng.random()
    fade = rng.choice(FADES)
    common = dict(lev=rng.randint(0, 8), pad=rng.choice([0, 0, 1, 7, 29, 57]), ch=rng.randint(1, 4), fade=fade, jit=rng.choice([0, 0, -3, 3]), tol=25, bad=False)
    lens = [n for n in range(24, 120) if n // 20 in (1, 2, 3, 5) and 2 < n % 20 < 18]
    if z < 0.3:
        fs = rng.choice([100, 240, 480, 1000, 1200, 8000])
        div = [f for f in range(1, fs // 2) if (f * 48) % fs == 0 or rng.random() < 0.05 and f * 60 > fs]
        f = rng.choice(div)
        cut = fs // 2 if rng.random() < 0.4 else rng.choice([v for v in (f * 3, f * 5, f * 2, f * 4, f * 3 + 1, fs // 3) if f < v <= fs // 2] or [fs // 2])
        L = rng.choice(lens)
        while L * f < fs / 2 or len({(n * f) % fs for n in range(L)}) < 3 or max(abs(np.sin(2 * np.pi * f * n / fs)) for n in range(L)) < 0.5:      # a recognizable tone
            f = rng.choice(div)
            L = rng.choice(lens)
            cut = fs // 2
        e = dict(op="osc", w=rng.choice(["Harmonic", "Square", "Sawtooth", "Triangle"]), f=f, fs=fs, cut=cut, L=L, **common)
        if rng.random() < 0.06:
            e.update(bad=True, **rng.choice([dict(f=fs // 2), dict(f=0), dict(cut=fs), dict(pad=-3)]))
    elif z < 0.36:
        f = rng.choice([10, 20, 30])
        e = dict(op="unc", w=rng.choice(["Harmonic", "Square", "Sawtooth", "Triangle"]), f=f, fs=960, cut=rng.choice([f * 3, f * 12, f * 7, f * 2 + 1]), L=192, ch=rng.randint(2, 4), bad=False)
    elif z < 0.5:
        fs = rng.choice([40, 50, 60])
        L = rng.randint(24, 30)
        f0, f1 = sorted(rng.sample(range(1, fs // 2 + 1), 2))
        e = dict(op="lin", f0=f0, f1=f1, fs=fs, L=L, off=rng.randint(0, 23), **{**common, "tol": 40})
        if rng.random() < 0.06:
            e.update(bad=True, **rng.choice([dict(f1=fs), dict(f0=0), dict(f0=-1), dict(pad=-3)]))
    elif z < 0.62:
        o = rng.randint(1, 4)
        m = rng.choice([1, 2])
        while 12 * o * m // 20 not in (0, 1, 2, 3, 5):
            m = 1
            o = rng.randint(1, 4)
        L = 12 * o * m + 1
        f0 = rng.randint(1, 6)
        fs = L * rng.choice([1, 2, 4]) if rng.random() < 0.7 else rng.randint(f0 * 2 ** (o + 1), f0 * 2 ** (o + 1) + 100)
        while f0 * 2 ** o > fs // 2 or f0 * L * 2**o > 24 * fs:
            fs = fs * 2
        e = dict(op="log", f0=f0, o=o, fs=fs, L=L, off=rng.randint(0, 23), **{**common, "tol": 60})
    elif z < 0.72:
        e = None
        while e is None:
            o, m, f0 = rng.randint(1, 4), rng.choice([1, 1, 2]), rng.randint(1, 8)
            k = rng.randint(1, 4)
            fs = round(f0 * 12 * o * m / (k * o * math.log(2))) + rng.randint(-2, 2)
            if fs // 2 < f0 * 2 ** o:
                continue
            L = round(k * fs / f0 * o * math.log(2)) + rng.randint(-5, 5)
            kk = f0 * L / fs / (o * math.log(2)) + 0.5
            n = int(kk) / f0 * o * math.log(2) * fs + 0.5
            if int(n) == 12 * o * m + 1 and 0.1 < n % 1 < 0.9 and 0.05 < kk % 1 < 0.95 and L // 20 in (0, 1, 2, 3, 5) and 2 < L % 20 < 18:
                e = dict(op="sync", f0=f0, o=o, fs=fs, L=L, off=0, **{**common, "tol": 60})
    elif z < 0.9:
        t = rng.choice(["White", "Pink", "Red", "Blue", "Violet", "Grey", "beta", "beta"])
        fs, L = rng.choice([(10000, 1000), (8000, 2000), (10000, 5000), (44100, 4410), (48000, 14400), (1000, 900), (1000, 901), (16000, 203), (8000, 107), (8000, 50), (44100, 45), (48000, 24)])
        if t == "Grey" and L >= 500:
            fs, L = rng.choice([(10000, 1000), (20000, 2000), (10000, 5000)])
        if t == "Grey" and fs / L > 1500:       # no bin to weight
            fs = 8000
        e = dict(op="noise", type=t, b2=rng.randint(-4, 5) if t == "beta" else 0, fs=fs, L=L, **common)
        if rng.random() < 0.05:
            e.update(bad=True, **rng.choice([dict(lev=-1), dict(pad=-3), dict(ch=0)]))
    else:
        L = rng.randint(4, 40)
        d = rng.randint(0, L - 1)
        e = dict(op="dirac", L=L, d=d, fs=rng.choice([8000, 44100]), ch=rng.randint(1, 4), bad=False)
        if rng.random() < 0.2:
            e.update(rng.choice([dict(d=L + rng.randint(0, 2)), dict(d=-1), dict(ch=0)]), bad=True)
    return e


def match(out, ob):
    def close(e, o):
        if isinstance(e[0], int):
            return abs(o - e[0]) <= e[1]
        return len(e) == len(o) and all(close(x, y) for x, y in zip(e, o))

    if ob["ok"] != out["ok"] or not out["ok"]:
        return ob["ok"] == out["ok"]
    return (ob["n"], ob["ch"], ob["fs"]) == (out["n"], out["ch"], out["fs"]) and close(out["res"], ob["res"])


def run(c: Check):
    c.generate("GenerGen", Ad, match, limit=c.n(1500, 6000))
    c.drive("GenerTrace", Ad, [(dict(calls=0), [event(c.rng) for _ in range(c.rng.randint(2, 6))]) for _ in range(c.n(1500, 12000))])
