"""P21: resampling (spec/Resample.tla)."""

import numpy as np
from common import Adapter, BAD, Check, MachineryError, dsp, fx

FS = 10080


class Ad(Adapter):
    def __init__(self, init):
        super().__init__(init)
        self.f = self.build(init)

    def build(self, e):
        d = dsp()
        b, a = np.array(e["b"], float), np.array(e["a"], float)
        if e["k"] == "sos":
            return d.Filter.from_sos(np.concatenate([b, a])[None, :], FS)
        return d.Filter.from_ba(b, a, FS)

    def sig(self, x, fs):
        d = dsp()
        s = (d.ImpulseResponse if fs % 4 == 0 else d.Signal)(None, np.asarray(x, float), fs, constrain_amplitude=False)
        self.watch.append((s, s.time_data.copy(), fs))
        return s

    def look(self):
        T = dsp().FilterCoefficientsType
        b, a = self.f.get_coefficients(T.Ba)
        return [list(map(float, b)), list(map(float, a)), self.f.has_sos, self.f.order, self.f.sampling_rate_hz, hasattr(self.f, "zi")]

    def apply(self, ev):
        self.watch = []
        if ev["op"] == "new":
            self.f = self.build(ev)
        elif ev["op"] == "change":
            self.f.sos = np.concatenate([ev["b"], ev["a"]]).astype(float)[None, :]
        before = self.look()
        ok, res = True, []
        try:
            res = getattr(self, "do_" + ev["op"], lambda ev: [])(ev)
        except MachineryError:
            raise
        except (AssertionError, ValueError, TypeError, IndexError, AttributeError):
            ok = False
        touched = self.look() != before or any(not np.array_equal(s.time_data, t) or s.sampling_rate_hz != r for s, t, r in self.watch)
        return dict(ok=ok, res=res, touched=bool(touched))

    def out(self, s, x, fs, k=1):
        if type(s) is not type(x) or s is x or s.sampling_rate_hz != fs or type(s.sampling_rate_hz) is not int:
            return [[BAD]]
        return [[fx(v, k) for v in c] for c in s.time_data.T]

    def do_down(self, ev):
        fs = FS + 720 if ev["bad"] == "rate" else FS
        x = self.sig(np.array(ev["x"]).T, fs)
        new = fs // ev["f"] if ev["bad"] != "frac" else fs * 2 // 3
        return self.out(self.f.filter_and_resample_signal(x, new), x, new)

    def do_up(self, ev):
        fs = FS // ev["f"] if ev["bad"] != "rate" else FS // ev["f"] + 60
        x = self.sig(np.array(ev["x"]).T, fs)
        new = fs * ev["f"] if ev["bad"] != "frac" else fs * 3 // 2
        return self.out(self.f.filter_and_resample_signal(x, new), x, new)

    def do_filt(self, ev):
        x = self.sig(np.array(ev["x"]).T, FS)
        return self.out(self.f.filter_signal(x), x, FS)

    def do_same(self, ev):
        x = self.sig(np.array(ev["x"]).T, ev["fs"])
        o = dsp().resample(x, ev["fs"], ev["rescale"])
        if np.shares_memory(o.time_data, x.time_data):
            return [[BAD]]
        return self.out(o, x, ev["fs"])

    def do_ramp(self, ev):
        t = np.arange(ev["n"])
        x = self.sig(np.array([p[0] + p[1] * t for p in ev["p"]]).T, 300 * ev["d"])
        return self.out(dsp().resample(x, 300 * ev["u"], ev["rescale"]), x, 300 * ev["u"], 1000)

    def do_kept(self, ev):
        x = self.sig(np.array(ev["x"]).T, 1000)
        return self.out(dsp().resample(x, 1000 * ev["u"]), x, 1000 * ev["u"], 1000)

    def do_rfilt(self, ev):
        d = dsp()
        fs, new = ev["fs"], ev["new"]
        f = d.Filter.from_ba(ev["b"], ev["a"], fs)
        g = d.resample_filter(f, new)
        if g.sampling_rate_hz != new or f.sampling_rate_hz != fs:
            return [[BAD]]
        h = g.get_transfer_function(np.array([0, new / np.pi * np.arctan(fs / new), new / 2]))
        return [[fx(v.real, 1000), fx(v.imag, 1000)] for v in h]


def ints(rng, n, m=9):
    while True:
        c = [rng.randint(-m, m) for _ in range(n)]
        if any(c):
            return c


def coeffs(rng, k=None):
    k = k or rng.choice(["fir", "fir", "fir", "iir", "sos"])
    if k == "fir":
        return dict(k=k, b=ints(rng, rng.randint(1, 14) if rng.random() < 0.8 else rng.randint(20, 40)), a=[1])
    a = rng.choice([[1, -1], [1, 1], [1, 0, 1], [1, 1, 1], [1, -1, 1], [1, 0, -1]])
    if k == "iir":
        return dict(k=k, b=ints(rng, rng.randint(1, 4), 4), a=a)
    return dict(k=k, b=ints(rng, 3, 4), a=(a + [0])[:3])


def chans(rng, lo, hi, m=9):
    n = rng.randint(lo, hi)
    return [ints(rng, n, m) for _ in range(rng.randint(1, min(3, n)))]


def script(rng, length):
    init = coeffs(rng)
    k = init["k"]
    evs = []
    for _ in range(length):
        z = rng.random()
        if z < 0.12:
            e = dict(op="new", **coeffs(rng))
            k = e["k"]
        elif z < 0.24 and k == "sos":
            e = dict(op="change", **coeffs(rng, "sos"))
        elif z < 0.45:
            f = rng.randint(1, 8)
            x = chans(rng, f + 2, 30 if k == "fir" else 20)      # as many samples as channels are left
            if -(-len(x[0]) // f) < len(x):
                x = x[:1]
            e = dict(op="down", f=f, x=x, bad="")
            if rng.random() < 0.07:
                e["bad"] = rng.choice(["rate", "frac"])
        elif z < 0.64:
            f = rng.randint(1, 8)
            e = dict(op="up", f=f, x=chans(rng, 3, 14 if k == "fir" else 6), bad="")
            if rng.random() < 0.07:
                e["bad"] = "frac" if f % 2 == 0 and f > 2 or f == 1 else "rate"
        elif z < 0.74:
            e = dict(op="filt", x=chans(rng, 3, 20))
        elif z < 0.78:
            e = dict(op="same", x=chans(rng, 3, 20), fs=rng.choice([8000, 9001]), rescale=rng.random() < 0.5)
        elif z < 0.88:
            u, d = rng.choice([(1, 2), (2, 1), (3, 2), (2, 3), (1, 3), (5, 3), (3, 4), (4, 1), (5, 2), (7, 5)])
            e = dict(op="ramp", u=u, d=d, n=rng.randint(20 * max(u, d) // u + 8, 20 * max(u, d) // u + 40), p=[[rng.randint(-20, 20), rng.randint(-4, 4)] for _ in range(rng.randint(1, 3))], rescale=rng.random() < 0.4)
            if rng.random() < 0.3:      # ratios of common rates
                u, d = rng.choice([(160, 147), (147, 160), (441, 320), (80, 441), (1001, 1000), (125, 128)])
                e.update(u=u, d=d, n=rng.randint(60, 300) if u * 4 > d else rng.randint(150, 300), p=[[rng.randint(-20, 20), rng.randint(-4, 4)]], rescale=False)
        elif z < 0.92:
            e = dict(op="kept", u=rng.randint(2, 6), x=chans(rng, 3, 14))
        else:
            fs, new = rng.choice([(8000, 16000), (8000, 11000), (9000, 6000), (4000, 7000)])
            a = rng.choice([[1], [1], [4, -2], [4, 1, 2], [3, 0, 1], [2, 1], [4, -3, 1]])
            b = ints(rng, rng.randint(1, 4), 5) if rng.random() < 0.5 else [int(v) for v in np.convolve([1, 1], ints(rng, rng.randint(1, 2), 4))]
            b[0] = b[0] or 1
            if len(a) > 1:
                b, a = b[: len(a)], a
            bad = (fs + new) / (fs - new)      # zeros there move to infinity
            b = [v + (1 if i == 0 and np.min(np.abs(np.roots(b) - bad), initial=9) < 1e-6 else 0) for i, v in enumerate(b)]
            b[0] = b[0] or 1
            e = dict(op="rfilt", b=b, a=a, fs=fs, new=new)
        evs.append(e)
    return init, evs


def match(out, ob):
    def close(e, o):
        if isinstance(e[0], int):
            return abs(o - e[0]) <= e[1]
        return len(e) == len(o) and all(close(x, y) for x, y in zip(e, o))

    if ob.get("ok") != out["ok"] or ob["touched"]:
        return False
    if not out["ok"] or out["kind"] == "none":
        return True
    return out["res"] == ob["res"] if out["kind"] == "exact" else close(out["res"], ob["res"])


def run(c: Check):
    c.generate("ResampleGen", Ad, match, limit=c.n(3000, 30000))
    c.drive("ResampleTrace", Ad, [script(c.rng, c.rng.randint(2, 8)) for _ in range(c.n(1500, 15000))])
