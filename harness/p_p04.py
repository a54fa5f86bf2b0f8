"""P04: real-time filter structures (sample/block processing)."""

from fractions import Fraction as F

import numpy as np
from common import BAD, Adapter, Check, arr, chans, dsp, fx, pmap, q
import lti

FS = 1000


def ints(y):
    return q(np.asarray(y, dtype=float))


class RT(Adapter):
    def __init__(self, init):
        d = dsp()
        fb = d.filterbanks
        self.i = i = init
        im = i["impl"]
        n = i["n"]
        self.block = None
        if i["kind"] == "lti":
            secs = i["secs"]
            sec = secs[0] if not i["perch"] else None
            b = a = None
            if sec:
                b, a = np.array(sec["b"], float), np.array(sec["a"], float)
            if im == "iir":
                o = fb.IIRFilter(b, a)
            elif im == "iir_from":
                o = fb.IIRFilter.from_filter(self.filt(secs))
            elif im == "fir":
                o = fb.FIRFilter(b)
            elif im == "fir_from":
                o = fb.FIRFilter.from_filter(self.filt(secs))
            elif im == "ols":
                o = fb.FIRFilterOverlapSave.from_filter(self.filt(secs))
                self.block = i["block"]
                o.prepare(self.block, n)
            elif im == "up":
                o = fb.FIRUniformPartitioned.from_filter(self.filt(secs))
                self.block = i["block"]
                o.prepare(self.block, n)
            elif im == "upm":
                L = max(len(s[0]["b"]) for s in secs)
                m = np.array([s[0]["b"] + [0] * (L - len(s[0]["b"])) for s in secs])
                o = fb.FIRUniformPartitionedMultichannel(m.T.astype(float))
                self.block = i["block"]
                o.prepare(self.block)
            elif im == "ss":
                o = fb.StateSpaceFilter.from_filter(self.filt(secs))
            elif im == "ss_sos":
                o = fb.FilterChain(
                    fb.StateSpaceFilter.from_filter_as_sos_list(self.filt(secs, True))
                )
            elif im == "chain":
                o = fb.FilterChain(
                    [
                        (
                            fb.FIRFilter(np.array(s["b"], float))
                            if s["a"] == [1]
                            else fb.IIRFilter(
                                np.array(s["b"], float), np.array(s["a"], float)
                            )
                        )
                        for s in secs
                    ]
                )
            elif im == "lattice":
                o = fb.LatticeLadderFilter.from_filter(
                    self.filt(secs, i.get("sos", False))
                )
            else:
                raise AssertionError(im)
        elif im == "wfir":
            o = fb.WarpedFIR.from_filter(
                d.Filter.from_ba(np.array(i["c"], float), [1.0], FS), i["p"] / i["q"]
            )
        elif im == "kautz":
            o = fb.KautzFilter(np.zeros(len(i["c"]), dtype=complex), FS)
            o.set_filter_coefficients(np.array(i["c"], float), np.array([]))
        elif im == "wiir":
            o = fb.WarpedIIR(
                np.array(i["b"], float), np.array(i["a"], float), i["p"] / i["q"], FS
            )
        elif im == "svf":
            o = fb.StateVariableFilter(FS / 4, float(i["r"]), FS)
        elif im == "ema":
            t = [np.log(0.5) / np.log(1 - k / i["den"]) / FS for k in (i["inc"], i["dec"])]
            o = fb.ExponentialAverageFilter(t[0], t[1], FS, accuracy_step_response=0.5)
        else:
            raise AssertionError(im)
        self.o = o
        if self.block is None:
            o.set_n_channels(n)

    def filt(self, secs, sos=False):
        import p_p03

        return p_p03.make_filter(secs, "sos" if sos else None)

    def apply(self, ev):
        o, op = self.o, ev["op"]
        svf = self.i["kind"] == "svf"
        if op == "reset":
            o.reset_state()
            return "done"
        if op == "channels":
            if self.block is not None:
                o.prepare(self.block, ev["n"])
            else:
                o.set_n_channels(ev["n"])
            return "done"
        if op == "run":
            c = ev["ch"] - 1
            if self.block is not None:
                return ints(o.process_block(np.array(ev["x"], float), c))
            return ints(
                [np.asarray(o.process_sample(float(x), c)).squeeze() for x in ev["x"]]
            )
        if op == "all":
            return chans(o.process_block(arr(ev["x"])))
        if op == "signal":
            y = o.filter_signal(dsp().Signal.from_time_data(arr(ev["x"]), FS, False))
            if svf:
                t = np.array([b.time_data for b in y.bands])  # 4, L, ch
                return q(np.moveaxis(t, (0, 1, 2), (2, 1, 0)))
            return chans(y.time_data)


# ------------------------------------------------------------ choosing input
class Inexact(Exception):
    pass


def simulate(init, evs):
    """Exact rational run, only to reject scripts whose values are not small
    integers."""
    k = init["kind"]

    def ok(v):
        v = F(v)
        if v.denominator != 1 or abs(v) > 2e8:
            raise Inexact
        return v

    def fresh(c):
        if k == "lti":
            return lti.zero(init["secs"][c] if init["perch"] else init["secs"])
        if k == "tapped":
            return lti.zero([ap] * (len(init["c"]) - 1))
        if k == "wiir":
            return lti.zero([ap] * (max(len(init["b"]), len(init["a"])) - 1))
        return [0, 0]

    if k in ("tapped", "wiir"):
        p, qq = init["p"], init["q"]
        ap = {"b": [-p, qq], "a": [qq, -p]}

    def taps(h, x):
        t = [ok(x)]
        for s in h:
            x = ok(lti.run([ap], [s], [x])[0])
            t.append(x)
        return t

    def one(h, x, c):
        if k == "lti":
            secs = init["secs"][c] if init["perch"] else init["secs"]
            for s, hh in zip(secs, h):
                x = ok(lti.run([s], [hh], [x])[0])
                ok(sum(abs(v) for v in s["b"] + s["a"]) * (abs(x) + max(map(abs, hh[0] + hh[1] + [0]))))
            return
        if k == "tapped":
            ok(sum(abs(v * t) for v, t in zip(init["c"], taps(h, x))))
        elif k == "wiir":
            import copy

            m = len(h)
            a = init["a"] + [0] * (m + 1 - len(init["a"]))
            b = init["b"] + [0] * (m + 1 - len(init["b"]))
            rest = taps(copy.deepcopy(h), 0)
            num = ok((x - sum(u * v for u, v in zip(a, rest))) * qq**m)
            den = sum(a[j] * (-p) ** j * qq ** (m - j) for j in range(m + 1))
            if den == 0:
                raise Inexact
            w = ok(num / F(den))
            ok(sum(abs(u * v) for u, v in zip(b, taps(h, w))))
        elif k == "svf":
            r = init["r"]
            yh = ok((x - (r + 1) * h[0] - h[1]) / F(2 + r))
            yb = ok(yh + h[0])
            yl = ok(yb + h[1])
            h[0], h[1] = yh + yb, yb + yl
            ok(yl - r * yb + yh)
        elif k == "ema":
            kk = init["inc"] if x > h[0] else init["dec"]
            ok(abs(x * kk) + abs((init["den"] - kk) * h[0]))
            h[0] = ok((x * kk + (init["den"] - kk) * h[0]) / F(init["den"]))

    n = init["n"]
    mem = [fresh(c) for c in range(n)]
    for e in evs:
        if e["op"] == "run":
            for x in e["x"]:
                one(mem[e["ch"] - 1], x, e["ch"] - 1)
        elif e["op"] == "all":
            for c in range(n):
                for x in e["x"][c]:
                    one(mem[c], x, c)
        elif e["op"] == "reset":
            mem = [fresh(c) for c in range(n)]
        elif e["op"] == "channels":
            n = e["n"]
            mem = [fresh(c) for c in range(n)]
        elif e["op"] == "signal":
            nn = len(e["x"])
            live = init["sig"] == "live"
            m2 = mem if live and nn == n else [fresh(c) for c in range(nn)]
            for c in range(nn):
                for x in e["x"][c]:
                    one(m2[c], x, c)
            if live:
                n, mem = nn, m2


KINDS = [
    "iir", "iir", "iir_from", "iir_sos", "fir", "fir", "fir_from", "ols", "ols", "up",
    "up", "upm", "ss", "ss_sos", "chain", "chain", "lattice_iir", "lattice_sos",
    "lattice_fir", "wfir", "wfir", "kautz", "wiir", "wiir", "svf", "ema",
]


def script(rng):
    kd = rng.choice(KINDS)
    n = rng.choice([1, 2, 2, 3, 4])
    scale = 1
    init = {"n": n, "sig": "none"}
    if kd in ("iir", "iir_from", "iir_sos", "fir", "fir_from", "ols", "up", "upm", "ss", "ss_sos", "chain",
              "lattice_iir", "lattice_sos", "lattice_fir"):
        init.update(kind="lti", impl=kd, perch=False)
        if kd == "iir":
            s = lti.rand_sec(rng, False)
            if rng.random() < 0.15:  # no feedback or gain only
                s = {"b": s["b"], "a": [rng.choice([1, -1, 2])]}
                s["b"] = [v * s["a"][0] for v in s["b"]]
            init["secs"] = [s]
        elif kd == "iir_from":
            init["secs"] = [lti.rand_sec(rng, False)]
        elif kd == "iir_sos":
            init["impl"] = "ss_sos"
            init["secs"] = [lti.rand_sec(rng) for _ in range(rng.randint(1, 3))]
        elif kd in ("fir", "fir_from"):
            init["secs"] = lti.rand_fir(rng, 7)
        elif kd in ("ols", "up"):
            init["secs"] = lti.rand_fir(rng, 14)
            init["block"] = rng.choice([1, 2, 3, 4, 5, 8])
        elif kd == "upm":
            init["secs"] = [lti.rand_fir(rng, 14) for _ in range(n)]
            L = max(n, max(len(s[0]["b"]) for s in init["secs"]))
            for s in init["secs"]:
                s[0]["b"] += [0] * (L - len(s[0]["b"]))
            init["perch"] = True
            init["block"] = rng.choice([1, 2, 3, 4, 5, 8])
        elif kd == "ss":
            s = lti.rand_sec(rng, False)
            m = max(len(s["a"]), len(s["b"]))
            init["secs"] = [s]
        elif kd == "ss_sos":
            init["secs"] = [lti.rand_sec(rng) for _ in range(rng.randint(1, 3))]
        elif kd == "chain":
            init["secs"] = [
                rng.choice([lti.rand_fir(rng, 4)[0], lti.rand_sec(rng, False)])
                for _ in range(rng.randint(1, 3))
            ]
        else:
            init["impl"] = "lattice"
            init["sig"] = "live"
            # minimum-phase/stable sections over denominator 2
            def den(o):
                return rng.choice({1: [[2, 1], [2, -1], [4, 1]], 2: [[2, 0, 1], [2, 1, 1], [2, -1, 1], [2, 1, 0], [4, 2, 1]]}[o])
            if kd == "lattice_iir":
                o = rng.choice([1, 2])
                a = den(o)
                init["secs"] = [{"b": [rng.randint(-3, 3) * a[0] for _ in range(o)] + [a[0]], "a": a}]
            elif kd == "lattice_sos":
                init["sos"] = True
                init["secs"] = []
                for _ in range(rng.randint(1, 2)):
                    a = den(2)
                    init["secs"].append({"b": [a[0] * rng.randint(1, 2)] + [rng.randint(-3, 3) * a[0] for _ in range(2)], "a": a})
            else:
                a = den(rng.choice([1, 2]))
                g = rng.choice([1, 1, 2, 3])
                init["secs"] = [{"b": [v * g for v in a], "a": [a[0]] if rng.random() < 0.5 else [1]}]
            scale = 2 ** 12
    elif kd in ("wfir", "kautz"):
        init.update(kind="tapped", impl=kd, sig="fresh")
        init["c"] = [rng.randint(-4, 4) or 1 for _ in range(rng.randint(1, 4))]
        init["p"], init["q"] = rng.choice([(0, 1), (1, 2), (-1, 2), (3, 4)]) if kd == "wfir" else (0, 1)
        scale = 2 ** 14 if init["p"] else 1
        if kd == "kautz":
            # a Kautz filter of zero poles is a tapped delay line
            init["p"], init["q"] = 0, 1
    elif kd == "wiir":
        init.update(kind="wiir", impl="wiir", sig="fresh")
        while True:
            init["a"] = [rng.choice([1, 2, 4])] + [rng.randint(-2, 2) for _ in range(rng.randint(1, 2))]
            init["b"] = [rng.randint(-3, 3) or 1 for _ in range(rng.randint(1, 3))]
            init["p"], init["q"] = rng.choice([(0, 1), (1, 2), (-1, 2)])
            m = max(len(init["a"]), len(init["b"])) - 1
            den = sum(v * F(-init["p"], init["q"]) ** j for j, v in enumerate(init["a"]))
            if den != 0 and abs(den) in (F(1), F(2), F(1, 2), F(4), F(1, 4)):
                break
        scale = 2 ** 14
    elif kd == "svf":
        init.update(kind="svf", impl="svf", sig="live", r=rng.choice([0, 2]))
        scale = 4 ** 6
    else:
        init.update(kind="ema", impl="ema", den=4, inc=rng.choice([1, 2, 3]), dec=rng.choice([1, 2, 3]))
        scale = 4 ** 7
    block = init.get("block")
    evs = []
    big = 3 if scale > 1 else 9
    val = lambda: rng.randint(-big, big) * scale
    for _ in range(rng.randint(2, 12)):
        r = rng.random()
        if init["impl"] == "upm":
            if r < 0.1:
                evs.append({"op": "reset"})
            else:
                evs.append({"op": "all", "x": [[val() for _ in range(block)] for _ in range(n)]})
            continue
        if r < 0.07:
            evs.append({"op": "reset"})
        elif r < 0.12:
            n = rng.randint(1, 4)
            evs.append({"op": "channels", "n": n})
        elif r < 0.2 and init["sig"] != "none":
            m = n if rng.random() < 0.7 else rng.randint(1, 3)
            L = max(m, rng.randint(1, 5))
            evs.append({"op": "signal", "x": [[val() for _ in range(L)] for _ in range(m)]})
            if init["sig"] == "live":
                n = m
        else:
            L = block or rng.choice([1, 1, 1, 2, 3, 6])
            evs.append({"op": "run", "ch": rng.randint(1, n), "x": [val() for _ in range(L)]})
    return init, evs


def run(c: Check):
    c.generate("RealTimeGen", RT, limit=c.n(6000, None))
    scripts = []
    tries = 0
    while len(scripts) < c.n(2500, 20000):
        s = script(c.rng)
        tries += 1
        try:
            simulate(*s)
        except Inexact:
            # keep the longest prefix that stays exact
            i, evs = s
            lo = 0
            for k in range(1, len(evs) + 1):
                try:
                    simulate(i, evs[:k])
                    lo = k
                except Inexact:
                    break
            if lo < 2:
                continue
            s = (i, evs[:lo])
        scripts.append(s)
    c.drive("RealTimeTrace", RT, scripts)


# ------------------------------------------------ real-valued coefficients
SC = 1e6


def rand_iir(rng, order):
    """Stable denominators from pole locations (numpy array b, a)."""
    p = []
    while len(p) < order:
        r = rng.uniform(0.1, 0.85)
        if order - len(p) >= 2 and rng.random() < 0.7:
            z = r * np.exp(1j * rng.uniform(0.2, 2.9))
            p += [z, z.conjugate()]
        else:
            p.append(r * rng.choice([-1, 1]))
    a = np.real(np.poly(p))
    b = np.array([rng.uniform(-1, 1) for _ in range(rng.randint(1, order + 1))])
    return b, a


def min_phase_fir(rng, n):
    p = [rng.uniform(-0.6, 0.6) for _ in range(n)]
    return np.real(np.poly(p)) * rng.choice([1.0, 0.5, -1.5])


def build_rt(kind, rng):
    """(structure, whole-signal reference function, block or None)"""
    d = dsp()
    fb = d.filterbanks
    S = lambda x: d.Signal.from_time_data(x, FS, False)
    via = lambda f: (lambda x: [f.filter_signal(S(x)).time_data])
    own = lambda o: (lambda x: [o.filter_signal(S(x)).time_data])
    if kind in ("iir", "ss", "ss_sos", "lattice", "lattice_sos"):
        order = rng.choice([1, 2, 3, 4, 6])
        if kind in ("lattice_sos", "ss_sos"):
            f = d.Filter.iir_filter(
                rng.choice([2, 4, 6]), rng.uniform(40, 400), d.FilterPassType.Lowpass, FS
            )
        else:
            f = d.Filter.from_ba(*rand_iir(rng, order), FS)
        o = {
            "iir": lambda: fb.IIRFilter.from_filter(f),
            "ss": lambda: fb.StateSpaceFilter.from_filter(f),
            "ss_sos": lambda: fb.FilterChain(fb.StateSpaceFilter.from_filter_as_sos_list(f)),
            "lattice": lambda: fb.LatticeLadderFilter.from_filter(f),
            "lattice_sos": lambda: fb.LatticeLadderFilter.from_filter(f),
        }[kind]()
        return o, via(f), None
    if kind in ("fir", "lattice_fir", "ols", "up"):
        b = (
            min_phase_fir(rng, rng.randint(1, 6))
            if kind == "lattice_fir"
            else np.array([rng.uniform(-1, 1) for _ in range(rng.randint(1, 40))])
        )
        f = d.Filter.from_ba(b, [1.0], FS)
        cls = {
            "fir": fb.FIRFilter, "lattice_fir": fb.LatticeLadderFilter,
            "ols": fb.FIRFilterOverlapSave, "up": fb.FIRUniformPartitioned,
        }[kind]
        blk = rng.choice([1, 2, 5, 8, 13]) if kind in ("ols", "up") else None
        return cls.from_filter(f), via(f), blk
    if kind == "wfir":
        b = np.array([rng.uniform(-1, 1) for _ in range(rng.randint(1, 12))])
        mk = lambda: fb.WarpedFIR(b, rng2, FS)
        rng2 = rng.uniform(-0.8, 0.8)
        return mk(), own(mk()), None
    if kind == "wiir":
        # stable in the warped domain: |poles| < 1 there
        b, a = rand_iir(rng, rng.choice([1, 2, 3, 4]))
        w = rng.uniform(-0.7, 0.7)
        return fb.WarpedIIR(b, a, w, FS), warped_reference(b, a, w), None
    if kind == "kautz":
        ps, used = [], rng.randint(1, 4)
        for _ in range(used):
            r = rng.uniform(0.1, 0.85)
            ps.append(r * np.exp(1j * rng.uniform(0.2, 2.9)) if rng.random() < 0.6
                      else complex(r * rng.choice([-1, 1])))
        nr = sum(p.imag == 0 for p in ps)
        cr = np.array([rng.uniform(-1, 1) for _ in range(nr)])
        cc = np.array([rng.uniform(-1, 1) for _ in range(2 * (used - nr))])
        mk = lambda: fb.KautzFilter(np.array(ps), FS).set_filter_coefficients(cr, cc)
        return mk(), kautz_reference(ps, cr, cc), None
    if kind == "parallel":
        ps = np.array([rng.uniform(0.1, 0.8) * np.exp(1j * rng.uniform(0.3, 2.8))
                       for _ in range(rng.randint(1, 3))])
        nf, off, delay = rng.randint(0, 4), rng.randint(1, 3), rng.choice([0, 0, 1, 4])
        ir = np.array([rng.uniform(-1, 1) * 0.93**k for k in range(128)])
        ir = d.ImpulseResponse.from_time_data(ir, FS, False)
        mk = lambda: fb.ParallelFilter(ps, nf, FS).set_parameters(delay, off).fit_to_ir(ir)
        return mk(), own(mk()), None
    if kind == "svf":
        f, r = rng.uniform(20, 400), rng.uniform(0.3, 2)
        mk = lambda: fb.StateVariableFilter(f, r, FS)
        return mk(), lambda x: [b.time_data for b in mk().filter_signal(S(x)).bands], None
    if kind == "chain":
        parts = [build_rt(rng.choice(["iir", "fir", "ss", "wfir", "kautz", "lattice"]), rng)
                 for _ in range(rng.randint(1, 3))]

        def ref(x):
            for _, r, _ in parts:
                x = r(x)[0]
            return [x]

        return fb.FilterChain([p[0] for p in parts]), ref, None
    raise AssertionError(kind)


def warped_reference(b, a, w):
    """B(D)/A(D) with D=(z^-1 - w)/(1 - w z^-1), expanded to a plain transfer
    function and run by the library's own Filter."""
    m = max(len(a), len(b)) - 1
    num, den = np.array([-w, 1.0]), np.array([1.0, -w])

    def expand(c):
        tot = np.zeros(m + 1)
        for k, v in enumerate(c):
            t = np.array([v])
            for _ in range(k):
                t = np.convolve(t, num)
            for _ in range(m - k):
                t = np.convolve(t, den)
            tot += t
        return tot

    f = dsp().Filter.from_ba(expand(b), expand(a), FS)
    return lambda x: [f.filter_signal(dsp().Signal.from_time_data(x, FS, False)).time_data]


def kautz_reference(ps, cr, cc):
    """The orthonormal tapped all-pass chain, run by the library's Filter."""
    d = dsp()

    def lf(b, a, x):
        f = d.Filter.from_ba(np.array(b, float), np.array(a, float), FS)
        return f.filter_signal(d.Signal.from_time_data(x, FS, False)).time_data

    def ref(x):
        y = np.zeros_like(x)
        for c, p in zip(cr, [p.real for p in ps if p.imag == 0]):
            y = y + c * lf([(1 - p * p) ** 0.5], [1, -p], x)
            x = lf([-p, 1], [1, -p], x)
        for k, p in enumerate([p for p in ps if p.imag != 0]):
            q, r = -2 * p.real, abs(p) ** 2
            for s, c in ((-1, cc[2 * k]), (1, cc[2 * k + 1])):
                g = ((1 - r) * (1 + r + s * q) / 2) ** 0.5
                y = y + c * lf([g, s * g], [1, q, r], x)
            x = lf([r, q, 1], [1, q, r], x)
        return [y]

    return ref


class RefRT(Adapter):
    def __init__(self, init):
        import random

        self.o, self.ref, self.block = build_rt(init["kind"], random.Random(init["seed"]))
        r = np.random.default_rng(init["seed"])
        self.n = init["n"]
        self.x = r.uniform(-0.5, 0.5, (init["len"], self.n))
        self.pos = [0] * self.n
        self.dim()

    def dim(self):
        if self.block:
            self.o.prepare(self.block, self.n)
        else:
            self.o.set_n_channels(self.n)

    def apply(self, ev):
        if ev["op"] == "whole":
            return [fx(y.T, SC) for y in self.ref(self.x)]
        if ev["op"] == "reset":
            self.dim() if ev["how"] == "dim" else self.o.reset_state()
            self.pos = [0] * self.n
            return "done"
        if ev["op"] == "other":
            # reading an impulse response or filtering another signal
            if hasattr(self.o, "get_ir"):
                self.o.get_ir(20)
            if hasattr(self.o, "filter_signal"):
                self.o.filter_signal(dsp().Signal.from_time_data(self.x[:5], FS, False))
            return "done"
        c = ev["ch"] - 1
        k = ev["n"]
        x = self.x[self.pos[c] : self.pos[c] + k, c]
        self.pos[c] += k
        if self.block:
            y = self.o.process_block(x.copy(), c)
            return [[fx(y, SC)]]
        ys = [np.atleast_1d(np.squeeze(self.o.process_sample(float(v), c))) for v in x]
        return [[fx([y[o] for y in ys], SC)] for o in range(len(ys[0]))]


RKINDS = ["iir", "iir", "ss", "ss_sos", "lattice", "lattice_sos", "fir", "lattice_fir", "ols", "ols",
          "up", "up", "wfir", "wiir", "wiir", "kautz", "kautz", "parallel", "parallel", "svf", "chain", "chain"]


def ref_script(rng):
    import random

    kind = rng.choice(RKINDS)
    n = rng.choice([1, 2, 3])
    seed = rng.randrange(10**6)
    block = None
    if kind in ("ols", "up"):
        block = build_rt(kind, random.Random(seed))[2]
    L = 60 if not block else block * max(6, 60 // block)
    init = {"kind": kind, "seed": seed, "n": n, "len": L}
    evs, pos = [], [0] * n
    for _ in range(rng.randint(10, 40)):
        r = rng.random()
        if r < 0.04:
            evs.append({"op": "reset", "how": rng.choice(["reset", "dim"])})
            pos = [0] * n
            continue
        if r < 0.08 and kind in ("wfir", "wiir", "kautz", "parallel"):
            evs.append({"op": "other"})
            continue
        c = rng.randrange(n)
        k = block or rng.choice([1, 1, 2, 5])
        k = min(k, L - pos[c])
        if k == 0 or (block and k < block):
            continue
        evs.append({"op": "one", "ch": c + 1, "n": k})
        pos[c] += k
    return init, evs


_run_exact = run


def run(c: Check):
    from p_p03 import run_refs

    _run_exact(c)
    run_refs(c, RefRT, [ref_script(c.rng) for _ in range(c.n(800, 6000))])
