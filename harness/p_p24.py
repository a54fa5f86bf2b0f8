"""P24: distances between signals (spec/Distances.tla)."""

import warnings
import numpy as np
from common import Adapter, BAD, Check, MachineryError, arr, dsp, fx


class Ad(Adapter):
    def apply(self, ev):
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                return dict(ok=True, res=getattr(self, "do_" + ev["op"])(ev))
        except MachineryError:
            raise
        except (AssertionError, ValueError, TypeError, KeyError, IndexError):
            return dict(ok=False)

    def sig(self, chs, fs):
        return dsp().Signal(None, arr(chs), fs, constrain_amplitude=False)

    def do_bad(self, ev):
        D = dsp().distances
        k = ev["kind"]
        a, b = [[1, 2, 0, 1] * 4], [[1, 0, 0, 1] * 4]
        x, y = self.sig(a, 1600), self.sig(b, 1600)
        fast, two = self.sig(b, 3200), self.sig(b + b, 1600)
        sp = [D.log_spectral, D.itakura_saito][ev["i"]]
        m = dsp().SpectrumMethod.FFT
        if k == "rate":
            [D.snr, D.si_sdr][ev["i"]](x, fast)
        elif k == "sprate":
            sp(x, fast, m, None)
        elif k == "spchan":
            sp(x, two, m, None)
        elif k == "range3":
            sp(x, y, m, [0, 100, 200])
        elif k == "nyq":
            sp(x, y, m, [0, 801])
        elif k == "neg":
            sp(x, y, m, [-1, 700])
        elif k == "chan":
            [D.snr, D.si_sdr][ev["i"]](*[(x, two), (two, self.sig(a * 3, 1600))][ev["i"]])
        elif k == "len":
            D.si_sdr(x, self.sig([[1, 2, 3]], 1600))
        elif k == "fw":
            n = np.random.default_rng(1).normal(size=(800, 1))
            x, y = (dsp().Signal(None, n, fs) for fs in (8000, 8000 + 2000 * (ev["j"] == 0)))
            if ev["j"] == 1:
                y = dsp().Signal(None, n[:-1], 8000)
            elif ev["j"] == 2:
                x = dsp().Signal(None, np.tile(n, 2), 8000)
            kw = [{}, {}, {}, dict(gamma=0.05), dict(gamma=2.1), dict(f_range_hz=[100, 4000]), dict(f_range_hz=[0, 1000]), dict(f_range_hz=[100]), dict(snr_range_db=[1, 2, 3])][ev["j"]]
            D.fw_snr_seg(x, y, **{**dict(f_range_hz=[100, 2000]), **kw})
        return []

    def spectral(self, ev, fn):
        d = dsp()
        fs = 100 * ev["n"]
        x, y = self.sig(ev["x"], fs), self.sig(ev["y"], fs)
        before = [(s.time_data, dict(s._spectrum_parameters)) for s in (x, y)]
        p = dict(scaling=getattr(d.SpectrumScaling, ev["sc"]))
        if ev["welch"]:
            p |= dict(window_length_samples=ev["n"], window_type=d.Window.Boxcar, overlap_percent=0, detrend=False)
        m = d.SpectrumMethod.WelchPeriodogram if ev["welch"] else d.SpectrumMethod.FFT
        r = fn(x, y, m, list(ev["rng"]) or None, ev["norm"], p)
        for s, (t, q) in zip((x, y), before):
            if not np.array_equal(s.time_data, t) or s._spectrum_parameters != q:
                raise KeyError("changed")
        return np.asarray(r)

    def do_ls(self, ev):
        return fx(self.spectral(ev, dsp().distances.log_spectral) ** 2 / 100, 100)

    def do_is(self, ev):
        return fx(self.spectral(ev, dsp().distances.itakura_saito) / 100, 1000)

    def do_snr(self, ev):
        return fx(dsp().distances.snr(self.sig(ev["x"], 8000), self.sig(ev["y"], 8000)), 100)

    def do_sdr(self, ev):
        return fx(np.clip(dsp().distances.si_sdr(self.sig(ev["x"], 8000), self.sig(ev["y"], 8000)), -150, 150), 100)

    def do_fw(self, ev):
        d = dsp()
        g = np.random.default_rng(ev["seed"])
        mono = ev["mono"]
        n = len(ev["how"])
        x = g.normal(size=(ev["len"], 1 if mono else n))
        y = np.array([x[:, 0 if mono else c] * (h / 4) if h else x[:, 0 if mono else c] + ev["mix"] / 4 * g.normal(size=ev["len"]) for c, h in enumerate(ev["how"])]).T
        S = lambda v: d.Signal(None, v, 8000, constrain_amplitude=False)
        f = lambda a, b: d.distances.fw_snr_seg(S(a), S(b), [200, 2000], list(ev["lim"]), ev["gam"] / 10)
        r = f(x, y)
        one = [f(x[:, :1] if mono else x[:, c:c + 1], y[:, c:c + 1])[0] for c in range(n)] if n > 1 else r
        if not np.allclose(r, one, atol=1e-6):
            return [BAD]
        return fx(r, 100)


def fair(ev):
    n = ev["n"]
    a, b = [0, n // 2] if not ev["rng"] else [(f + 49) // 100 for f in sorted(ev["rng"])]
    if b - a < 2:
        return False
    for z in ev["x"] + ev["y"]:
        p = np.mean([np.abs(np.fft.rfft(z[i:i + n])) ** 2 for i in range(0, len(z), n)], axis=0)[a:b]
        if p.min() < 1.01 or p.max() > 499:
            return False
    return True


def vec(rng, n, m):
    while True:
        x = [rng.randint(-m, m) for _ in range(n)]
        if any(x):
            return x


def event(rng):
    k = rng.choice(["ls"] * 5 + ["is"] * 5 + ["snr"] * 2 + ["sdr"] * 3 + ["bad"] + (["fw"] if rng.random() < 0.4 else []))
    if k == "bad":
        return dict(op=k, kind=rng.choice(["rate", "sprate", "spchan", "range3", "nyq", "neg", "chan", "len", "fw"]), i=rng.randint(0, 1), j=rng.randint(0, 8))
    if k in ("ls", "is"):
        while True:
            w = rng.random() < 0.3
            n = rng.choice([8, 16] if w else [8, 10, 12, 16, 20, 24])
            c = rng.randint(1, 2)
            ln = n * (rng.randint(1, 3) if w else 1)
            mk = lambda: vec(rng, ln, 2) if rng.random() < 0.5 else [rng.choice([0, 0, 0, 0, 1, -1]) if i else rng.choice([3, 4, -5]) for i in range(ln)]
            r = rng.choice([[], [0, 50 * n]]) if rng.random() < 0.3 else [rng.randint(0, 50 * n), rng.randint(0, 50 * n)]
            e = dict(op=k, x=[mk() for _ in range(c)], y=[mk() for _ in range(c)], n=n, rng=r, norm=rng.random() < 0.5,
                     sc=rng.choice(["FFTBackward", "PowerSpectrum", "PowerSpectralDensity", "AmplitudeSpectrum", "AmplitudeSpectralDensity"]), welch=w)
            if fair(e):
                return e
    if k == "snr":
        c = rng.randint(1, 3)
        n, m = rng.randint(4, 16), rng.randint(4, 16)
        return dict(op=k, x=[vec(rng, n, 5) for _ in range(c)], y=[vec(rng, m, 5) for _ in range(rng.choice([1, c]))])
    if k == "sdr":
        c = rng.randint(1, 3)
        n = rng.randint(4, 16)
        x = [vec(rng, n, 5) for _ in range(rng.choice([1, c]))]
        y = [vec(rng, n, 5) if rng.random() < 0.8 else [-v for v in x[0]] for _ in range(c)]
        return dict(op=k, x=x, y=y)
    how = [rng.choice([0, 4, 4, 1, 8, -4]) for _ in range(rng.randint(1, 2))]
    return dict(op=k, how=how, mono=rng.random() < 0.5, lim=rng.choice([[-10, 35], [35, -10], [0, 20], [5, 5], [-3, 4]]), gam=rng.choice([1, 2, 10, 20]),
                len=rng.choice([600, 900, 1300]), mix=rng.choice([0, 1, 4, 40]) or 1, seed=rng.randint(0, 999))


def match(out, ob):
    if ob.get("ok") != out["ok"] or not out["ok"]:
        return ob.get("ok") == out["ok"]
    r = ob["res"]
    return len(out["res"]) == len(r) and all(abs(b - a[0]) <= a[1] for a, b in zip(out["res"], r))


def run(c: Check):
    c.generate("DistancesGen", Ad, match, limit=c.n(2000, 20000))
    c.drive("DistancesTrace", Ad, [(dict(i=0), [event(c.rng) for _ in range(c.rng.randint(3, 6))]) for _ in range(c.n(500, 4000))])
