"""P23: filter design and representations (spec/Design.tla)."""

import warnings
import numpy as np
from math import log, log10
from common import Adapter, BAD, Check, MachineryError, arr, dsp, fx

FS = 9600


class Ad(Adapter):
    def apply(self, ev):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return dict(ok=True, res=getattr(self, "do_" + ev["op"])(ev))
        except MachineryError:
            raise
        except (AssertionError, ValueError, TypeError, KeyError, NotImplementedError, IndexError):
            return dict(ok=False)

    def do_bad(self, ev):
        d = dsp()
        F = d.Filter
        k = ev["kind"]
        f = F.from_ba([1.0, 0.5], [1.0], FS)
        if k == "above":
            f.get_transfer_function(np.array([0.0, FS / 2 + 1]))
        elif k == "dim":
            f.get_transfer_function(np.zeros((2, 2)))
        elif k == "rate":
            F.from_ba([1.0], [1.0], 9600.5)
        elif k == "norate":
            F.from_ba([1.0], [1.0], None)
        elif k == "two":
            T = d.FilterCoefficientsType
            F({T.Ba: [[1.0], [1.0]], T.Sos: np.array([[1.0, 0, 0, 1, 0, 0]])}, FS)
        elif k == "none":
            F({}, FS)
        elif k == "sos":
            F.from_sos(np.ones((1, 5)), FS)
        elif k == "ba2":
            F.from_ba(np.ones((2, 2)), [1.0], FS)
        elif k == "matched":
            d.filterbanks.matched_biquad(d.BiquadEqType.Peaking, FS / 2 + 1.0, 3.0, 1.0, FS)
        elif k == "matchedq":
            d.filterbanks.matched_biquad(d.BiquadEqType.Peaking, 100.0, 3.0, 0.0, FS)
        elif k == "matchedtype":
            d.filterbanks.matched_biquad(d.BiquadEqType.Notch, 100.0, 3.0, 1.0, FS)
        elif k == "pink":
            d.filterbanks.pinking_filter(FS / 2 + 1.0, FS)
        elif k == "thiran":
            d.filterbanks.fractional_delay(1.0, 2, FS)
        elif k == "thiran0":
            d.filterbanks.fractional_delay(0.5, 0, FS)
        elif k == "gauss":
            d.filterbanks.gaussian_kernel(0.1, 1e-2, 3, FS)
        elif k == "cutoff":
            F.iir_filter(2, FS / 2 + 10.0, d.FilterPassType.Lowpass, FS)
        elif k == "fircutoff":
            F.fir_filter(4, FS / 2 + 10.0, d.FilterPassType.Lowpass, FS)
        elif k == "firdlen":
            d.filterbanks.FirDesigner(np.ones(9), np.ones(8), 16, FS)
        elif k == "linneg":
            d.filterbanks.PhaseLinearizer(np.zeros(49), 96, FS).set_parameters(delay_increase_percent=-1.0)
        return []

    def grid(self, f, n):
        h = f.get_transfer_function(np.arange(n + 1) * FS / (2 * n))
        return [fx(x, 10000) for v in h for x in (v.real, v.imag)]

    def edges(self, ev):
        e = [k * FS / (2 * ev["n"]) for k in ev["ks"]]
        return e[0] if len(e) == 1 else e

    def do_bq(self, ev):
        d = dsp()
        g = ev["g1"] / ev["g2"]
        db = (80 if ev["t"] in ("Peaking", "Lowshelf", "Highshelf") else 20) * log10(g)
        f = d.Filter.biquad(getattr(d.BiquadEqType, ev["t"]), ev["k0"] * FS / (2 * ev["n"]), db, ev["q"] / 10, FS)
        return [self.grid(f, ev["n"])]

    def do_iir(self, ev):
        d = dsp()
        m = getattr(d.IirDesignMethod, ev["meth"])
        e = ev["e"] / 1000
        rp = 10 * log10(1 + e)
        kw = {}
        if ev["meth"] == "Chebyshev1":
            kw = dict(passband_ripple_db=rp)
        elif ev["meth"] == "Chebyshev2":
            kw = dict(stopband_attenuation_db=10 * log10(1 + 1 / e))
        elif ev["meth"] == "Elliptic":
            kw = dict(passband_ripple_db=rp, stopband_attenuation_db=30.0)
        f = d.Filter.iir_filter(ev["ord"], self.edges(ev), getattr(d.FilterPassType, ev["pass"]), FS, m, **kw)
        h = f.get_transfer_function(np.arange(ev["n"] + 1) * FS / (2 * ev["n"]))
        # the same by the impulse response
        ir = f.get_ir(6000).time_data[:, 0]
        w = np.exp(-1j * np.pi * np.outer(np.arange(ev["n"] + 1) / ev["n"], np.arange(6000)))
        if np.max(np.abs(w @ ir - h)) > 1e-3 or not f.is_iir:
            return [[BAD]]
        return [fx(np.abs(h) ** 2, 10000), [int(f.order)]]

    def do_fir(self, ev):
        d = dsp()
        f = d.Filter.fir_filter(ev["ord"], self.edges(ev), getattr(d.FilterPassType, ev["pass"]), FS, getattr(d.Window, ev["win"]))
        if not f.is_fir or f.order != ev["ord"]:
            return [[BAD]]
        return [fx(f.ba[0], 10000)]

    def fil(self, ev):
        F = dsp().Filter
        if ev["kind"] == "ba":
            return F.from_ba(ev["b"], ev["a"], FS)
        if ev["kind"] == "zpk":
            return F.from_zpk(np.array(ev["z"]) / 4, np.array(ev["p"]) / 4, ev["k"], FS)
        return F.from_sos(np.array(ev["sec"], float), FS)

    def do_rep(self, ev):
        d = dsp()
        T = d.FilterCoefficientsType
        f = self.fil(ev)
        z = np.exp(-2j * np.pi * np.arange(9) / 16)
        ev_ = lambda b, a: np.polyval(b[::-1], z) / np.polyval(a[::-1], z)
        b, a = f.get_coefficients(T.Ba)
        s = f.get_coefficients(T.Sos)
        zz, p, k = f.get_coefficients(T.Zpk)
        hs = [f.get_transfer_function(np.arange(9) * FS / 16), ev_(np.array(b), np.array(a)), np.prod([ev_(r[:3], r[3:]) for r in s], axis=0),
              k * np.prod([1 - r * z for r in zz] + [z * 0 + 1], axis=0) / np.prod([1 - r * z for r in p] + [z * 0 + 1], axis=0)]
        flags = [int(f.order), int(f.is_iir), int(f.has_sos), int(f.has_zpk)]
        if len(f) != flags[0] + 1 or f.is_fir == f.is_iir or f.metadata["order"] != flags[0] or f.metadata["filter_type"] != ("iir" if f.is_iir else "fir"):
            return [[BAD]]
        return [flags] + [[fx(x, 10000) for v in h for x in (v.real, v.imag)] for h in hs]

    def do_gd(self, ev):
        f = self.fil(ev)
        fr = np.array(ev["ks"]) * FS / 16
        s, t = f.get_group_delay(fr, False), f.get_group_delay(fr)
        if not np.allclose(s, t * FS):
            return [[BAD]]
        return [fx(s, 10000)]

    def do_matched(self, ev):
        d = dsp()
        f0 = ev["k0"] * FS / (2 * ev["n"])
        f = d.filterbanks.matched_biquad(getattr(d.BiquadEqType, ev["t"]), f0, 20 * log10(ev["g1"] / ev["g2"]), ev["q"] / 10, FS)
        shelf = ev["t"].endswith("shelf")
        h = np.abs(f.get_transfer_function(np.array([0.0, FS / 2 if shelf else f0])))
        return [[fx(h[0], 10000), fx(h[1] ** 2, 1000) if shelf else fx(h[1], 10000)]]

    def do_weight(self, ev):
        f = dsp().filterbanks.weighting_filter(ev["a"], ev["fs"])
        h = f.get_transfer_function(np.array([31.623, 63.096, 125.89, 251.19, 501.19, 1000.0, 1995.3, 3981.1, 7943.3]))
        return [fx(20 * np.log10(np.abs(h)), 10)]

    def do_pink(self, ev):
        f = dsp().filterbanks.pinking_filter(float(ev["f"]), ev["fs"])
        h = np.abs(f.get_transfer_function(np.append(float(ev["f"]), ev["fs"] / 4 / 2.0 ** np.arange(7))))
        return [[fx(h[0], 10000)] + fx(20 * np.log10(h[1:-1] / h[2:]), 100)]

    def do_thiran(self, ev):
        f = dsp().filterbanks.fractional_delay(ev["p"] / ev["q"], ev["ord"], FS)
        b, a = f.ba
        return [fx(a, 100000), fx(b, 100000), [fx(f.get_group_delay(np.array([0.5]), False)[0], 10000)]]

    def do_gauss(self, ev):
        m = ev["m"] / 10
        sigma = (2 * ev["K"] * m / (1 - m) ** 2) ** 0.5
        bv = ev.get("bv", 1) / 100
        f = dsp().filterbanks.gaussian_kernel(sigma * (2 * log(1 / bv)) ** 0.5 / FS, bv, 2 * ev["K"], FS)
        return [fx(f.get_ir(ev["len"]).time_data[:, 0], 1000000)]

    def do_fird(self, ev):
        d = dsp()
        gd = (np.array(ev["d"]) + 1e-7) / FS
        flat = len(set(ev["mag"])) == 1 and ev["mag"][0] == 1
        o = d.filterbanks.GroupDelayDesigner(gd, ev["n"], FS) if flat else d.filterbanks.FirDesigner(np.array(ev["mag"], float), gd, ev["n"], FS)
        o.set_parameters(additional_length_samples=None if ev["add"] < 0 else ev["add"])
        return self.taps(o)

    def taps(self, o):
        f, i = o.get_filter(), o.get_filter_as_ir()
        if not f.is_fir or f.sampling_rate_hz != FS or i.sampling_rate_hz != FS:
            return [[BAD]]
        if not np.allclose(i.time_data[:, 0] * i.amplitude_scale_factor ** -1, f.ba[0]):
            return [[BAD]]
        return [fx(f.ba[0], 10000)]

    def do_lin(self, ev):
        ph = np.array(ev["ph"]) * 2 * np.pi / 9600
        o = dsp().filterbanks.PhaseLinearizer(np.angle(np.exp(1j * ph)), ev["n"], FS)
        o.set_parameters(delay_increase_percent=100.0 * ev["inc"], additional_length_samples=None)
        return self.taps(o)

    def do_ar(self, ev):
        d = dsp()
        f = d.filterbanks.arma(d.ImpulseResponse(None, arr([ev["x"]]), FS, constrain_amplitude=False), ev["order"])
        return [fx(f.ba[1], 10000), fx(f.ba[0], 10000)]


def poly_ok(b, a):
    z = np.exp(-2j * np.pi * np.arange(9) / 16)
    B, A = np.polyval(b[::-1], z), np.polyval(a[::-1], z)
    return np.min(np.abs(A)) > 0.15 * np.sum(np.abs(a)), np.min(np.abs(B)) > 0.15 * np.sum(np.abs(b)), np.max(np.abs(B / A)) < 25


def rat(rng, gd):
    while True:
        k = rng.choice(["ba", "ba", "zpk", "sos"])
        if k == "ba":
            b = [rng.randint(-5, 5) for _ in range(rng.randint(1, 5))]
            if not b[0]:
                continue
            a = rng.choice([[1], [2], [4, 0, 0]]) if rng.random() < 0.4 else [rng.choice([2, 4, 5])] + [rng.randint(-3, 3) for _ in range(rng.randint(1, 3))]
            e = dict(kind=k, b=b, a=a)
        elif k == "zpk":
            z, p = ([rng.randint(-5, 5) for _ in range(rng.randint(0, 3))], [rng.randint(-3, 3) for _ in range(rng.randint(0, 3))])
            if not z and not p:
                continue
            n = max(len(z), len(p))
            b, a = np.array([1.0]), np.array([1.0])
            for r in z:
                b = np.convolve(b, [1, -r / 4])
            for r in p:
                a = np.convolve(a, [1, -r / 4])
            e = dict(kind=k, z=z, p=p, k=rng.randint(1, 3))
            b = b * e["k"]
        else:
            sec = []
            b, a = np.array([1.0]), np.array([1.0])
            for _ in range(rng.randint(1, 2)):
                o = rng.randint(1, 2)
                # first coefficient of the denominator is 1, as scipy wants it
                s = [rng.randint(1, 4), rng.randint(-3, 3), rng.randint(-3, 3) if o == 2 else 0, 1, 0, 0]
                sec.append(s)
                b, a = np.convolve(b, s[:3]), np.convolve(a, s[3:])
            e = dict(kind=k, sec=sec)
        x, y, w = poly_ok(np.array(b, float), np.array(a, float))
        if x and w and (y or not gd):
            return e


def pass_(rng, n):
    p = rng.choice(["Lowpass", "Highpass", "Bandpass", "Bandstop"])
    if p in ("Lowpass", "Highpass"):
        return p, [rng.randint(1, n - 1)]
    while True:
        a, b = sorted(rng.sample(range(1, n), 2))
        if b - a >= 2:
            return p, [a, b]


NS = [5, 6, 8, 10, 12, 15, 16]
TYPES = ["Lowpass", "Highpass", "BandpassSkirt", "BandpassPeak", "Notch", "Allpass", "LowpassFirstOrder", "HighpassFirstOrder", "AllpassFirstOrder", "Peaking", "Lowshelf", "Highshelf"]
BADS = ["above", "dim", "rate", "norate", "two", "none", "sos", "ba2", "matched", "matchedq", "matchedtype", "pink", "thiran", "thiran0", "gauss", "cutoff", "fircutoff", "firdlen", "linneg"]


def event(rng):
    k = rng.choice(["bq"] * 4 + ["iir"] * 3 + ["fir"] * 3 + ["rep"] * 3 + ["gd"] * 2 + ["matched"] * 2 + ["weight", "pink", "thiran", "gauss", "fird", "fird", "lin", "ar", "bad"])
    if k == "bad":
        return dict(op=k, kind=rng.choice(BADS))
    if k == "bq":
        t = rng.choice(TYPES)
        n = rng.choice(NS)
        g = rng.choice([(1, 1), (2, 3), (3, 2), (1, 2), (2, 1)] if t in TYPES[9:] else [(1, 1), (1, 2), (2, 1), (3, 1), (1, 4), (3, 2)])
        return dict(op=k, t=t, n=n, k0=rng.randint(1, n - 1), g1=g[0], g2=g[1], q=rng.randint(5, 15))
    if k == "iir":
        n = rng.choice(NS[2:])
        m = rng.choice(["Butterworth", "Chebyshev1", "Chebyshev2", "Elliptic"])
        p, ks = pass_(rng, n)
        return dict(op=k, meth=m, **{"pass": p}, ks=ks, n=n, ord=rng.randint(3, 4) if m == "Elliptic" else rng.randint(1, 4), e=rng.choice([50, 120, 250]))
    if k == "fir":
        n = rng.choice(NS)
        p, ks = pass_(rng, n)
        o = rng.randint(2, 18)
        if p in ("Highpass", "Bandstop"):
            o += o % 2
        return dict(op=k, **{"pass": p}, ks=ks, n=n, ord=o, win=rng.choice(["Hamming", "Hann", "Boxcar"]))
    if k in ("rep", "gd"):
        return dict(op=k, **rat(rng, k == "gd"), ks=sorted(rng.sample(range(8), rng.randint(1, 5))))
    if k == "matched":
        g = rng.choice([(2, 1), (1, 2), (3, 2), (3, 1)])
        return dict(op=k, t=rng.choice(["Peaking", "Lowpass", "Highpass", "BandpassPeak", "Lowshelf", "Highshelf"]), n=10, k0=rng.randint(1, 6), g1=g[0], g2=g[1], q=rng.randint(5, 20))
    if k == "weight":
        return dict(op=k, a=rng.random() < 0.5, fs=rng.choice([192000, 384000]))
    if k == "pink":
        return dict(op=k, f=rng.randint(50, 20000), fs=rng.choice([44100, 48000, 96000]))
    if k == "thiran":
        return dict(op=k, ord=rng.randint(1, 4), p=rng.randint(1, 9), q=10)
    if k == "gauss":
        return dict(op=k, m=rng.randint(1, 9), K=rng.randint(1, 6), len=rng.randint(4, 16), bv=rng.choice([1, 5, 20]))
    if k == "fird":
        n = rng.choice([40, 48, 50, 60, 75, 80, 96])
        m = n // 2 + 1
        flat = rng.random() < 0.4
        return dict(op=k, n=n, mag=[1 if flat else rng.randint(0, 4) for _ in range(m)], d=[rng.randint(0, 3)] * m if rng.random() < 0.5 else [rng.randint(0, 3) for _ in range(m)], add=rng.choice([-1, 0, 3, 8]))
    if k == "lin":
        n = rng.choice([80, 96])
        u = 9600 // n
        ph = [0]
        for _ in range(n // 2):
            ph.append(ph[-1] - 4 * rng.randint(0, 2 * u // 4))
        return dict(op=k, n=n, ph=ph, inc=rng.randint(0, 1))
    while True:
        x = [rng.randint(-5, 5) for _ in range(rng.randint(6, 14))]
        o = rng.randint(1, 4)
        r = [np.dot(x[i:], x[:len(x) - i]) for i in range(o + 1)]
        R = np.array([[r[abs(i - j)] for j in range(o + 1)] for i in range(o + 1)], float)
        # (a last coefficient of zero is not stored)
        if r[0] > 0 and np.linalg.cond(R) < 50 and abs(np.linalg.solve(R[:-1, :-1], r[1:])[-1]) > 1e-3:
            return dict(op="ar", x=x, order=o)


def match(out, ob):
    if ob.get("ok") != out["ok"] or not out["ok"]:
        return ob.get("ok") == out["ok"]
    r = ob["res"]
    if "kind" in out:
        c = out["res"]
        normal = lambda a, i: sum(a[k] * c[abs(i - k)] for k in range(len(c)))
        return len(r) == 2 and r[1] == [10000] and len(r[0]) == len(c) and r[0][0] == 10000 and all(abs(normal(r[0], i)) <= sum(map(abs, c)) + 2 for i in range(1, len(c)))
    return len(out["res"]) == len(r) and all(len(e) == len(o) and all(abs(b - a[0]) <= a[1] for a, b in zip(e, o)) for e, o in zip(out["res"], r))


def run(c: Check):
    c.generate("DesignGen", Ad, match, limit=c.n(2000, 20000))
    c.drive("DesignTrace", Ad, [(dict(i=0), [event(c.rng) for _ in range(c.rng.randint(3, 6))]) for _ in range(c.n(600, 4000))])
