"""P13: gain, normalization, fades, detrending, level measures (spec/Levels.tla)."""

import math
import numpy as np
from common import Adapter, BAD, Check, MachineryError, dsp, fx


def db(p, q):
    return 20 * math.log10(p / q)


def grid(mats, k=1e3):
    """samples of [time, channel] arrays as bands x channels x time"""
    return [[[fx(z, k) for z in c] for c in np.asarray(m).T] for m in mats]


class Ad(Adapter):
    def __init__(self, init):
        super().__init__(init)
        d = dsp()
        self.nch = len(init["b"][0])
        self.den = init["den"]
        self.peak = max(abs(v) for c in init["b"][0] for v in c)
        self.sigs = []
        for b in init["b"]:
            x = np.array(b, float).T / init["den"]
            if len(init["im"]):
                x = x + 1j * np.array(init["im"], float).T / init["den"]
            self.sigs.append(d.Signal(None, x, 100, constrain_amplitude=init["con"]))
        self.s = self.sigs[0] if len(self.sigs) == 1 else d.MultiBandSignal(self.sigs, same_sampling_rate=True)

    def bands(self, s):
        return [s] if not hasattr(s, "bands") else s.bands

    def data(self, s):
        return [b.time_data.copy() for b in self.bands(s)] + [b.time_data_imaginary.copy() for b in self.bands(s) if b.time_data_imaginary is not None]

    def apply(self, ev):
        d = dsp()
        before = self.data(self.s)
        cons = [b.constrain_amplitude for b in self.bands(self.s)]
        ok, res = True, []
        try:
            res = getattr(self, ev["op"])(ev, d)
        except (AssertionError, ValueError):
            ok = False
        except MachineryError:
            raise
        src = getattr(self, "src", self.s)
        after = self.data(src)
        touched = len(before) != len(after) or any(not np.array_equal(a, b) for a, b in zip(before, after))
        touched = touched or cons != [b.constrain_amplitude for b in self.bands(src)]
        self.src = self.s
        return dict(ok=ok, res=res, touched=bool(touched))

    def same_kind(self, o):
        b = self.bands(o)
        return type(o) is type(self.s) and len(b) == len(self.sigs) and all(
            z.sampling_rate_hz == 100 and z.constrain_amplitude == self.init["con"] and z.number_of_channels == self.nch and z.length_samples == self.sigs[0].length_samples for z in b)

    def gain(self, ev, d):
        g = [db(p, q) for p, q in zip(ev["p"], ev["q"])]
        o = d.apply_gain(self.s, g[0] if len(g) == 1 else np.array(g))
        if not self.same_kind(o):
            return [[[BAD]]]
        r = grid(self.data(o))
        if ev["keep"]:
            self.src, self.s = self.s, o
            self.den *= ev["q"][0]
            self.peak *= ev["p"][0]
            if self.init["con"]:
                self.den = max(self.den, self.peak)
        return r

    def norm(self, ev, d):
        o = d.normalize(self.s, db(ev["p"], ev["q"]), not ev["rms"], ev["each"])
        if not self.same_kind(o):
            return [[[BAD]]]
        return grid([np.sign(x) * x**2 / 10 if ev["rms"] else x for x in self.data(o)])

    def fade(self, ev, d):
        n = ev["n"]
        o = d.fade(self.s, getattr(d.FadeType, ev["t"]), None if n == -1 else (n + 0.25) / 100, ev["s"], ev["e"])
        return grid(self.data(o)) if self.same_kind(o) else [[[BAD]]]

    def levels(self, ev, d):
        mb = len(self.sigs) > 1
        lin, log = d.rms(self.s, False), d.rms(self.s)
        cl, cd = d.crest_factor(self.s, False), d.crest_factor(self.s)
        tp, pk = d.true_peak_level(self.s)
        ct = d.crest_factor(self.s, False, True)
        shape = (len(self.sigs), self.nch) if mb else (self.nch,)
        if any(np.shape(v) != shape for v in (lin, log, cl, cd, tp, pk, ct)):
            return [[[BAD]]]
        if not (np.allclose(20 * np.log10(lin), log) and np.allclose(20 * np.log10(cl), cd)):
            return [[[BAD]]]
        tpl = 10 ** (tp / 20)
        good = (tp > pk - 0.6) & (tpl < 3 * 10 ** (pk / 20)) & np.isclose(ct * lin, tpl, rtol=1e-6)
        lin, cl, pk, good = [np.atleast_2d(v) for v in (lin, cl, pk, good)]
        return [[[fx(lin[i, j] ** 2, 1e3), fx(cl[i, j] ** 2, 1e3), fx(10 ** (pk[i, j] / 10), 1e3), int(good[i, j])] for j in range(self.nch)] for i in range(len(lin))]

    def detrend(self, ev, d):
        o = d.detrend(self.s, ev["k"])
        if not self.same_kind(o):
            return [[[BAD]]]
        out = []
        for b in self.bands(o):
            f = b.amplitude_scale_factor  # a constrained residual may be scaled down to full scale
            if f < 1 and (not self.init["con"] or abs(np.max(np.abs(b.time_data)) - 1) > 1e-9):
                return [[[BAD]]]
            out.append(b.time_data / f)
        return grid(out, 1e4 * self.den_now())

    def den_now(self):
        return self.den

    def env(self, ev, d):
        e = d.envelope(self.s, False, ev["m"])
        if len(self.sigs) == 1:
            if e.shape != (self.sigs[0].length_samples, self.nch):
                return [[[BAD]]]
            e = e[:, None, :]
        if e.shape[1:] != (len(self.sigs), self.nch):
            return [[[BAD]]]
        return grid([e[:, i, :] ** 2 for i in range(e.shape[1])], 1e4)

    def active(self, ev, d):
        t = lambda c: 0.0 if c == 4 else 1000 * math.log(0.05) / math.log(1 - c / 4) / 100
        ch = ev["ch"] - 1
        x = self.s.time_data[:, ch].copy()
        with np.errstate(all="ignore"):
            o, oth = d.standard.activity_detector(self.s, 10 * math.log10(ev["p"] / ev["q"]), ch, ev["rel"], None, t(ev["a"]), t(ev["r"]))
        i, j = oth["signal_indices"], oth["noise_indices"]
        if len(i) != len(x) or not np.array_equal(i, ~j):
            return [[[BAD]]]
        for s, k in ((o, i), (oth["noise"], j)):
            want = x[k] if k.any() else None
            if want is None:
                if np.any(s.time_data != 0):
                    return [[[BAD]]]
            elif s.time_data.shape[1] != 1 or not np.array_equal(s.time_data[:, 0], want):
                return [[[BAD]]]
        return [[[2 * int(z) for z in i]]]

    def fgain(self, ev, d):
        g = [db(p, q) for p, q in zip(ev["p"], ev["q"])]
        fs = []
        for sec, kind in zip(ev["f"], ev["kind"]):
            if kind == "sos":
                fs.append(d.Filter.from_sos(np.array([[float(v) for v in b] + [0.0] * (3 - len(b)) + [1.0, 0.0, 0.0] for b in sec]), 100))
            elif kind == "zpk":
                z = np.roots(np.convolve(sec[0], [1.0]))
                fs.append(d.Filter.from_zpk(z, np.zeros(len(z)), float(sec[0][0]), 100))
            else:
                b = np.array([1.0])
                for v in sec:
                    b = np.convolve(b, v)
                fs.append(d.Filter.from_ba(b if kind == "ba" else [int(z) for z in b], [1.0], 100))
        imp = d.Signal(None, np.eye(8)[:, :1], 100, constrain_amplitude=False)
        y = lambda f: f.filter_signal(imp).time_data[:, 0]
        if ev["bank"]:
            t = d.FilterBank(fs)
            o = d.apply_gain(t, g[0] if len(g) == 1 else np.array(g))
            got, old = [y(f) for f in o.filters], [y(f) for f in t.filters]
        else:
            t = fs[0]
            o = d.apply_gain(t, g[0])
            got, old = [y(o)], [y(t)]
        for f, b in zip(ev["f"], old):      # the filter given stays what it was
            w = np.array([1.0])
            for v in f:
                w = np.convolve(w, v)
            if not np.allclose(b[: len(w)], w[:8]):
                return [[[BAD]]]
        return [[[fx(z, 1e3) for z in v] for v in got]]

    def dither(self, ev, d):
        o = d.dither(self.s, ev["tri"], ev["eps"] / 1e4, None, ev["trunc"])
        n = o.time_data - self.s.time_data
        bound = ev["eps"] / 1e4 * (1 if ev["tri"] else 0.5)
        if ev["trunc"]:
            bound += np.max(np.abs(o.time_data)) * 2.0**-10
            fine = np.array_equal(o.time_data, o.time_data.astype(np.float16))
        else:
            fine = not np.any(n == 0)
        return [[[int(self.same_kind(o)), int(np.all(np.abs(n) <= bound + 1e-12)), int(fine)]]]

    def lufs(self, ev, d):
        x = np.random.default_rng(ev["seed"]).normal(size=(9600, 5)) * 0.1
        S = lambda a, con=False: d.Signal(None, a, 8000, constrain_amplitude=con)
        L = d.standard.lufs_integrated
        s = S(x, True)
        a = L(s)
        k = int(s.constrain_amplitude is True and np.array_equal(s.time_data, S(x, True).time_data))
        g = L(S(x * ev["p"] / ev["q"])) - L(S(x))
        y = np.zeros((9600, 5))
        y[:, 0] = x[:, 0]
        z = np.zeros((9600, 5))
        z[:, ev["ch"]] = x[:, 0]
        w = L(S(z)) - L(S(y[:, :2]))
        loud = S(np.concatenate([x[:, :1], np.zeros((9600, 1))]))     # silence is gated away, up to the frames at the edge
        e = L(loud) - L(S(x[:, :1]))
        return [[[fx(10 ** (g / 10), 1e3), fx(10 ** (w / 10), 1e3), 1000 if abs(e) < 1.0 else BAD, k and 1]]] if np.isfinite(a) else [[[BAD]]]


def match(out, ob):
    if not isinstance(ob, dict) or "ok" not in ob or ob["ok"] != out["ok"] or ob["touched"]:
        return False
    if not out["ok"]:
        return True
    e, o = out["res"], ob["res"]
    if out["op"] == "detrend":
        return len(e) == len(o) and all(len(a) == len(b) and all(residual(c, r, out["k"]) for c, r in zip(a, b)) for a, b in zip(e, o))
    return len(e) == len(o) and all(
        len(a) == len(b) and all(len(c) == len(r) and all(abs(z - w[0]) <= w[1] for w, z in zip(c, r)) for c, r in zip(a, b)) for a, b in zip(e, o))


def residual(c, r, k):
    if len(c) != len(r) or any(abs(z) >= BAD for z in r):
        return False
    t = range(len(c))
    if any(abs(sum(z * i**m for i, z in zip(t, r))) > sum(i**m for i in t) + 2 for m in range(k + 1)):
        return False
    d = [10000 * a - b for a, b in zip(c, r)]
    for _ in range(k + 1):
        d = [b - a for a, b in zip(d, d[1:])]
    return all(abs(z) <= 8 for z in d)


def script(r):
    mb = r.random() < 0.25
    nch = r.randint(1, 3)
    L = r.randint(max(5, nch + 1), 10)
    fadey = r.random() < 0.2
    if fadey:
        L = r.randint(40, 90)
    im = not mb and r.random() < 0.15
    lim = 9

    def chan():
        while True:
            c = [r.randint(-lim, lim) for _ in range(L)]
            if any(c):
                return c

    b = [[chan() for _ in range(nch)] for _ in range(r.randint(2, 3) if mb else 1)]
    con = not im and r.random() < 0.4
    den = r.randint(lim, 12) if con else r.randint(1, 12)
    init = dict(b=b, den=den, con=con, im=[chan() for _ in range(nch)] if im else [])
    evs, kept = [], 0
    for _ in range(r.randint(2, 6)):
        op = r.choice(["gain", "gain", "norm", "norm", "fade", "levels", "detrend", "env", "active", "fgain", "dither"])
        if im:
            op = r.choice(["gain", "fgain"])
        elif fadey and op in ("detrend", "env", "active"):
            op = "fade"
        if op == "active" and mb:
            op = "levels"
        p, q = r.randint(1, 4), r.randint(1, 4)
        ev = dict(op=op)
        if op == "gain":
            n = r.choice([1, 1, nch, nch, nch + 1])
            keep = n == 1 and kept < 2 and (not mb or not con) and not (con and p > q)
            ev.update(p=[r.randint(1, 3) for _ in range(n)], q=[r.randint(1, 3) for _ in range(n)], keep=False)
            if keep:
                if con and ev["p"][0] > ev["q"][0]:
                    keep = False
                ev["keep"] = keep
                kept += keep
        elif op == "norm":
            ev.update(p=p, q=q, each=r.random() < 0.5, rms=r.random() < 0.5 and not fadey and not kept)
        elif op == "fade":
            if mb:
                continue
            t = r.choice(["Linear", "Exponential", "Logarithmic", "NoFade"])
            n = r.choice(dict(Linear=[0, 1, 2, 3, 4, 7, L, L + 2], Exponential=[1, 2, 3, 5, 6, 11], Logarithmic=[0, 1, 2, 3, 5], NoFade=[2])[t])
            if r.random() < 0.3 and (25 * L) // 1000 in (0, 1, 2) and (25 * L) % 1000:
                n = -1
            if t in ("Exponential", "Logarithmic") and n >= L:
                n = 2
            if n == 0 and t != "Logarithmic":
                n = 1
            if n == 0:
                n = 0
            ev.update(t=t, n=n, s=r.random() < 0.7, e=r.random() < 0.6)
        elif op == "detrend":
            ev["k"] = r.choice([0, 1, 2, -1])
        elif op == "env":
            ev["m"] = r.randint(1, L)
        elif op == "active":
            ev.update(ch=r.randint(1, nch), a=r.randint(1, 4), r=r.randint(1, 4), p=p, q=r.choice([q, 7, 20, 100]), rel=r.random() < 0.6)
        elif op == "fgain":
            bank = r.random() < 0.5
            n = r.randint(2, 3) if bank else 1
            kinds = [r.choice(["ba", "int", "sos", "zpk"]) for _ in range(n)]
            f = []
            for k in kinds:
                if k == "zpk":
                    z = [r.choice([1, -1, 2, -3]) for _ in range(2)]
                    f.append([[int(v) for v in np.poly(z) * r.choice([1, -2, 3])]])
                else:
                    m = 2 if k == "sos" else r.randint(1, 2)
                    f.append([[r.choice([1, -2, 3, 4])] + [r.randint(-4, 4) for _ in range(2)] for _ in range(m)])
            m = r.choice([1, n, n + 1]) if bank else 1
            ev.update(f=f, kind=kinds, bank=bank, p=[r.randint(1, 4) for _ in range(m)], q=[r.randint(1, 4) for _ in range(m)])
        elif op == "dither":
            if mb or con:
                continue
            ev.update(tri=r.random() < 0.5, eps=r.choice([1, 100, 2000]), trunc=r.random() < 0.3)
        evs.append(ev)
    return init, evs or [dict(op="levels")]


def run(c: Check):
    dsp()
    c.assumptions = ["samples are small rationals, gains and targets rational factors, compared to within 0.002 of full scale of the test data"]
    c.generate("LevelsGen", Ad, match, limit=c.n(3000, None))
    r = c.rng
    scripts = [script(r) for _ in range(c.n(1800, 16000))]
    one = dict(b=[[[1, 2, 3, 2, 1]]], den=4, con=False, im=[])
    scripts += [(one, [dict(op="lufs", p=r.randint(1, 4), q=r.randint(1, 4), ch=r.randint(0, 4), seed=r.randint(0, 999))]) for _ in range(c.n(12, 100))]
    c.drive("LevelsTrace", Ad, scripts)
