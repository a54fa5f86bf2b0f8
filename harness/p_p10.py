"""P10: spectrum container (spec/Spectra.tla)."""

import contextlib
import io

import numpy as np
from common import Adapter, BAD, Check, MachineryError, dsp, fx, q, same

NONE, SC = 99999, 1000
NO = dict(none=True)
BADV = dict(f=[BAD], cx=False, v=[], typ="bad", coh=[])


def cdata(ch, cx):
    """channels of [re, im] -> (bins, channels) array"""
    a = np.array(ch, float)
    return (a[..., 0] + 1j * a[..., 1] if cx else a[..., 0]).T.copy()


def mk(f, ch, cx, coh=()):
    d = dsp()
    fv, dat = np.array(f, float), cdata(ch, cx)
    s = d.Spectrum(fv, dat)
    if coh:
        c = np.array(coh, float).T / 100
        s.set_coherence(c)
        c += 3.0
    fv += 1.0
    dat += 9.0  # the caller's own arrays
    return s


def cxv(a):
    """(bins, channels) -> channels of fixed-point [re, im]"""
    a = np.asarray(a)
    if a.ndim != 2:
        return []
    return [[[fx(np.real(z), SC), fx(np.imag(z), SC)] for z in c] for c in a.T]


def pwv(a):
    a = np.asarray(a)
    return [fx(np.abs(c) ** 2, SC) for c in a.T] if a.ndim == 2 else []


def view(s):
    d = s.spectral_data
    if d.ndim != 2 or s.number_frequency_bins != len(d) or len(s) != len(d) or s.number_of_channels != d.shape[1]:
        return BADV
    if s.length_frequency_bins != len(d) or s.is_complex == s.is_magnitude or s.has_coherence != hasattr(s, "coherence"):
        return BADV
    if (s.spectrum_type == dsp().SpectrumType.Complex) != s.is_complex:
        return BADV
    return dict(f=q(s.frequency_vector_hz), cx=bool(s.is_complex), v=cxv(d), typ=s.frequency_vector_type.name,
                coh=q(s.coherence.T, 100) if s.has_coherence else [])


def spoil(s):
    """the caller goes on to change an object he got"""
    s.spectral_data[...] += 5
    s.frequency_vector_hz[...] += 1
    if s.has_coherence:
        s.coherence[...] += 1


class Ad(Adapter):
    def __init__(self, init):
        with contextlib.redirect_stdout(io.StringIO()):
            self.s = mk(init["f"], init["ch"], init["cx"], init["coh"])

    def apply(self, ev):
        self.watch, self.seen = [], []
        ok, res = True, NO
        try:
            res = self.do(ev)
        except MachineryError:
            raise
        except Exception:
            ok = False
        t = any(a.shape != b.shape or np.any(a != b) for a, b in self.watch) or any(view(o) != v for o, v in self.seen)
        return dict(ok=ok, me=view(self.s), res=(res if res != BAD else dict(bad=True)) if ok else NO, touched=bool(t))

    def arr(self, v):
        a = np.array(v, float)
        self.watch.append((a, a.copy()))
        return a

    def derived(self, o, keep):
        if o is self.s:
            return BAD
        v = view(o)
        if keep:
            old, self.s = self.s, o
            spoil(old)
        else:
            spoil(o)
        return v

    def do(self, ev):
        d, s, op = dsp(), self.s, ev["op"]
        n = len(s)
        if op == "setd":
            a = cdata(ev["ch"], ev["cx"])
            how = ev.get("how", "bins")
            if how == "chans":
                a = a.T.copy()
            if how == "list":
                s.spectral_data = [list(c) for c in a.T]
            elif how == "flat":
                s.spectral_data = a[:, 0]
            else:
                b = a.copy()
                self.watch.append((a, b))
                s.spectral_data = a
                self.watch = []
                if np.any(a != b):
                    return BAD
                a += 4.0
            return NO
        if op == "setf":
            a = np.array(ev["f"], float)
            s.frequency_vector_hz = a
            a += 1.0
            return NO
        if op == "setcoh":
            c = np.array(ev["coh"], float).T / 100
            s.set_coherence(c)
            c += 1.0
            return NO
        if op == "setp":
            s.set_interpolator_parameters(getattr(d.InterpolationDomain, ev["dom"]), getattr(d.InterpolationScheme, ev["sch"]),
                                          getattr(d.InterpolationEdgeHandling, ev["edg"]))
            return NO
        none = lambda v: None if v == NONE else float(v)
        if op == "trim":
            s.trim(none(ev["lo"]), none(ev["hi"]), ev["incl"])
            return NO
        if op == "resample":
            s.resample(self.arr(ev["f"]))
            return NO
        if op == "remove":
            s.remove_channel() if ev["k"] == -1 else s.remove_channel(ev["k"])
            return NO
        if op == "swap":
            s.swap_channels(ev["p"])
            return NO
        if op == "get":
            return self.derived(s.get_channels(ev["p"] if len(ev["p"]) > 1 else ev["p"][0]), ev["keep"])
        if op == "copy":
            return self.derived(s.copy(), ev["keep"])
        if op == "sum":
            return self.derived(s.sum_channels(False), ev["keep"])
        if op == "psum":
            r = s.sum_channels()
            if not r.is_magnitude:
                return BAD
            return dict(f=q(r.frequency_vector_hz), v=pwv(r.spectral_data), d=2)
        if op in ("append", "appendkeep"):
            o = [mk(x["f"], x["ch"], x["cx"]) for x in ev["others"]]
            self.seen = [(x, view(x)) for x in o]
            if op == "appendkeep":
                return self.derived(d.append_spectra([s] + o), True)
            l = [s] + o if ev["first"] else o + [s]
            l0 = list(l)
            r = d.append_spectra(l, ev["cplx"])
            if len(l) != len(l0) or any(a is not b for a, b in zip(l, l0)) or r.is_complex != (ev["cplx"] and l[0].is_complex):
                return BAD
            out = dict(f=q(r.frequency_vector_hz), v=pwv(r.spectral_data), d=2)
            spoil(r)
            return out
        if op == "gain":
            g = 20 * np.log10(np.array(ev["g"], float))
            s.apply_gain(self.arr(g) if len(g) > 1 or ev.get("a") else float(g[0]))
            return NO
        if op == "norm":
            vals = s.spectral_data[list(s.frequency_vector_hz).index(ev["f"])]
            vals = vals if ev["c"] == NONE else vals[[ev["c"]]]
            r = (s if s.is_magnitude and np.any(vals == 0) else s.copy()).normalize(float(ev["f"]), None if ev["c"] == NONE else ev["c"])
            return dict(f=q(r.frequency_vector_hz), v=pwv(r.spectral_data), d=2)
        if op == "energy":
            return dict(e=fx(s.get_energy(none(ev["lo"]), none(ev["hi"])), SC))
        if op == "interp":
            r = s.get_interpolated_spectrum(self.arr(ev["f"]), getattr(d.SpectrumType, ev["out"]))
            if ev["out"] == "Db":
                r = 10 ** (r / 20)
            elif ev["out"] == "Power":
                r = r**0.5
            if ev["see"] == "pow":
                return dict(v=pwv(r), d=2)
            if ev["see"] == "cx":
                return dict(v=cxv(r), d=3)
            return dict(v=[[a + b for a, b in zip(x, y)] for x, y in zip(cxv(r**2), cxv(r))], d=4)
        if op == "rt":
            fs = int(round(2 * s.frequency_vector_hz[-1]))
            y = s.to_signal(fs)
            if y.sampling_rate_hz != fs or len(y) != 2 * (n - 1):
                return BAD
            r = np.fft.rfft(y.time_data / y.amplitude_scale_factor, axis=0)
            return dict(v=cxv(r), d=3)
        if op == "smooth":
            c = s.copy()
            c.apply_octave_smoothing(ev["frac"], getattr(d.Window, ev["win"]))
            if c.number_frequency_bins != len(c.spectral_data):
                return BAD
            return dict(v=pwv(c.spectral_data), d=1)
        raise MachineryError(op)


def inn(iv, x):
    return iv[0] - 1 - abs(iv[0]) // 500000 <= x <= iv[1] + 1 + abs(iv[1]) // 500000


def deep(a, o):
    if a and isinstance(a[0], int):
        return isinstance(o, int) and inn(a, o)
    return isinstance(o, list) and len(a) == len(o) and all(map(deep, a, o))


def vok(a, o):
    return isinstance(o, dict) and same({k: a[k] for k in ("f", "cx", "typ", "coh")}, {k: o[k] for k in ("f", "cx", "typ", "coh")}) \
        and deep(a["v"], o["v"])


def match(out, ob):
    if ob.get("err") or ob["touched"] or ob["ok"] != out["ok"] or not vok(out["me"], ob["me"]):
        return False
    r, o = out["res"], ob["res"]
    if not out["ok"]:
        return True
    if "none" in r or "bad" in o:
        return "none" in o
    if "cx" in r:
        return vok(r, o)
    if "e" in r:
        return deep(r["e"], o["e"])
    return deep(r["v"], o["v"]) if o["d"] != 1 else all(inn(a, x) for a, c in zip(r["v"], o["v"]) for x in c)


PYTH = [(3, 4), (4, -3), (5, 0), (0, 5), (-5, 0), (0, -2), (6, 8), (-8, 6), (-3, -4), (5, 12), (0, 0), (1, 0), (12, -5)]


def script(rng):
    cx = rng.random() < 0.5
    kind = rng.choice(["lin", "lin0", "log", "any", "any"])
    n = rng.randint(1, 7) if kind == "any" else rng.randint(2, 7)
    if kind == "lin0":
        f = [k * rng.choice([4]) for k in range(n)]
    elif kind == "lin":
        f0, df = rng.randint(1, 9) * 10, rng.choice([2, 4, 12])
        f = [f0 + k * df for k in range(n)]
    elif kind == "log":
        f = [3 * 2**k for k in range(n)]
    else:
        f = [rng.randint(0, 30)]
        while len(f) < n:
            f.append(f[-1] + rng.choice([1, 2, 3, 4, 6, 12]))
    nch = rng.randint(1, 4)

    def val(c):
        if c:
            return list(rng.choice(PYTH))
        return [rng.randint(0, 20), 0]

    def data(nc, m, c):
        return [[val(c) for _ in range(m)] for _ in range(nc)]

    def coh(nc, m):
        return [[rng.randint(0, 100) for _ in range(m)] for _ in range(nc)]

    init = dict(f=f, ch=data(nch, n, cx), cx=cx, coh=coh(nch, n) if rng.random() < 0.6 else [])
    dom, sch, edg, den, mag = "Power", "Linear", "ZeroPad", 1, True
    evs = []
    ops = ["setd", "setf", "setcoh", "setp", "setp", "trim", "trim", "resample", "remove", "swap", "get", "get", "copy", "sum", "psum",
           "append", "appendkeep", "gain", "norm", "energy", "interp", "interp", "interp", "interp", "rt", "smooth"]
    top = 20
    for _ in range(rng.randint(3, 9)):
        op = rng.choice(ops)
        n = len(f)
        ev = dict(op=op)
        if op == "setd":
            c2 = rng.random() < 0.5 or dom in ("Complex", "MagnitudePhase")
            nc = nch if rng.random() < 0.6 else rng.randint(1, 4)
            m = n
            how = rng.choice(["bins", "bins", "list", "chans", "flat"])
            bad = rng.random() < 0.25
            if bad and c2 and rng.random() < 0.5:
                bad = False
            if bad and rng.random() < 0.5:
                m, how = n + rng.randint(1, 2), "bins"
                nc = min(nc, m)
            if how in ("list", "chans") and nc >= m:
                how = "bins"
            if how == "flat":
                nc = 1
            ev.update(ch=data(nc, m, c2), cx=c2, how=how)
            bad = bad and not (m == n and c2)
            if bad and m == n:
                ev["ch"][rng.randrange(nc)][rng.randrange(m)][0] = -rng.randint(1, 9)
            elif not bad:
                nch, cx, den, top = nc, c2, 1, 20
        elif op == "setf":
            g = [x + rng.choice([0, 5]) for x in f]
            r = rng.random()
            if r < 0.2:
                g = g + [g[-1] + 4] if rng.random() < 0.5 or n == 1 else g[:-1]
            elif r < 0.35 and n > 1:
                g[-1] = g[-2] - rng.choice([0, 1])
            elif r < 0.45:
                g[0] = -1
            ev["f"] = g
            if len(g) == n and g[0] >= 0 and all(a < b for a, b in zip(g, g[1:])):
                f = g
        elif op == "setcoh":
            c = coh(nch, n)
            if rng.random() < 0.25:
                c = coh(nch + 1, n) if rng.random() < 0.5 else coh(nch, n + 1)
            ev["coh"] = c
        elif op == "setp":
            ev.update(dom=rng.choice(["Power", "Magnitude", "Complex", "MagnitudePhase"]),
                      sch=rng.choice(["Linear", "Linear", "Linear", "Cubic", "Pchip"]) if n > 1 else "Linear",
                      edg=rng.choice(["ZeroPad", "OnePad", "Extend", "Error"]))
            if cx or ev["dom"] in ("Power", "Magnitude"):
                dom, sch, edg = ev["dom"], ev["sch"], ev["edg"]
        elif op in ("trim", "energy"):
            pts = f + [x + 1 for x in f] + [max(0, f[0] - 3), NONE, NONE]
            lo, hi = rng.choice(pts), rng.choice(pts)
            incl = rng.random() < 0.6 or op == "energy"
            if lo != NONE and hi != NONE and lo > hi:
                if lo in f and hi in f and rng.random() < 0.3:
                    pass  # nothing in between: rejected
                else:
                    lo, hi = hi, lo
            ev.update(lo=lo, hi=hi)
            if op == "trim":
                ev["incl"] = incl
                lowi = 0 if lo == NONE else (max([k for k in range(n) if f[k] <= lo], default=0) if incl else sum(x <= lo for x in f))
                higi = n - 1 if hi == NONE else (min([k for k in range(n) if f[k] >= hi], default=n - 1) if incl else n - 1 - sum(x >= hi for x in f))
                if lowi <= higi and not (incl and lo != NONE and lo > f[-1]):
                    if higi == lowi and sch != "Linear":
                        continue
                    f = f[lowi:higi + 1]
        elif op == "resample":
            lin = sch == "Linear" and dom == ("Complex" if cx else "Magnitude") and den < 100
            pts = set(f)
            if lin:
                pts |= {x for a, b in zip(f, f[1:]) for x in range(a, b + 1) if b - a in (1, 2, 3, 4, 6, 12)}
            pts |= {f[-1] + 3, f[-1] + 7, max(0, f[0] - 2)}
            g = sorted(rng.sample(sorted(pts), min(len(pts), rng.randint(1, 7))))
            if len(g) < 2 and sch != "Linear":
                continue
            if rng.random() < 0.1 and len(g) > 1:
                g = g[::-1]
                ev["f"] = g
            else:
                ev["f"] = g
                if edg != "Error" or (f[0] <= g[0] and g[-1] <= f[-1]):
                    if any(x not in f and f[0] <= x <= f[-1] and x - max(y for y in f if y < x) and
                           min(y for y in f if y > x) - max(y for y in f if y < x) > 1 for x in g):
                        den *= 12
                    f = g
        elif op == "remove":
            k = rng.choice([-1, 0, 1, nch - 1, nch])
            ev["k"] = k
            if nch > 1 and k < nch:
                nch -= 1
        elif op == "swap":
            p = list(range(nch))
            rng.shuffle(p)
            if rng.random() < 0.2:
                p = rng.choice([p + [0], [0] * nch, [x + 1 for x in p]])
            ev["p"] = p
        elif op == "get":
            p = [rng.randint(-nch, nch - 1) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.1:
                p = [nch]
            ev.update(p=p, keep=rng.random() < 0.5)
            if ev["keep"] and p != [nch]:
                nch = len(p)
        elif op == "copy":
            ev["keep"] = rng.random() < 0.5
        elif op == "sum":
            ev["keep"] = rng.random() < 0.4 and top < 200
            if ev["keep"]:
                top *= nch
                nch, mag = 1, False
        elif op in ("append", "appendkeep"):
            if den > 1:
                continue
            first = rng.random() < 0.6 or op == "appendkeep"
            oth = []
            for _ in range(rng.randint(1, 2)):
                g = sorted(set(f) | ({f[-1] + 5} if rng.random() < 0.3 else set())) if first else list(f)
                if first and rng.random() < 0.2 and n > 1:
                    g = f[:-1]
                c2 = cx if rng.random() < 0.8 or op == "appendkeep" else not cx
                oth.append(dict(f=g, ch=data(rng.randint(1, 2), len(g), c2), cx=c2))
            ev["others"] = oth
            if op == "append":
                ev.update(first=first, cplx=rng.random() < 0.7)
            else:
                nch += sum(len(o["ch"]) for o in oth)
                dom, sch, edg = "Power", "Linear", "ZeroPad"
                if nch > 6:
                    evs.append(ev)
                    break
        elif op == "gain":
            g = [rng.choice([1, 2])] if rng.random() < 0.5 else [rng.choice([1, 2, 3]) for _ in range(nch)]
            if rng.random() < 0.15:
                g = [1] * (nch + 1)
            if top > 150:
                continue
            if len(g) in (1, nch):
                top *= 3
            ev.update(g=g, a=rng.random() < 0.5)
        elif op == "norm":
            if den > 12 or sch != "Linear":
                continue
            ev.update(f=rng.choice(f), c=rng.choice([NONE, rng.randrange(nch)]))
        elif op == "interp":
            g = [rng.choice(f) for _ in range(rng.randint(0, 3))]
            g += [rng.randint(max(0, f[0] - 2), f[-1] + 2) for _ in range(rng.randint(1, 5))]
            g += [(a + b) // 2 for a, b in zip(f, f[1:]) if (a + b) % 2 == 0]
            if edg == "Error" and rng.random() < 0.7:
                g = [x for x in g if f[0] <= x <= f[-1]] or [f[0]]
            out = rng.choice(["Complex", "Complex", "Power", "Magnitude", "Db"] if cx else ["Power", "Magnitude", "Db", "Complex"])
            obs = "pow"
            if out == "Complex":
                obs = rng.choice(["cx", "pow", "sq", "cx"])
            if sch == "Cubic" and out != "Complex":
                g = [x for x in g if x in f or x < f[0] or x > f[-1]] or [f[0]]
            ev.update(f=g, out=out, see=obs)
        elif op == "rt":
            if n < 3 or f[0] != 0 or len({b - a for a, b in zip(f, f[1:])}) != 1 or 2 * (n - 1) < nch:
                continue
        elif op == "smooth":
            if n < 3 or den > 12:
                continue
            ev.update(frac=rng.choice([1, 3, 12]), win=rng.choice(["Hann", "Boxcar", "Hamming"]))
        evs.append(ev)
    return init, evs


def run(c: Check):
    dsp()
    c.assumptions = ["values and frequencies are small integers; linear interpolation is decided exactly, monotone interpolation by its bounds, "
                     "spline interpolation at the bins"]
    c.generate("SpectraGen", Ad, match, limit=c.n(6000, None))
    c.drive("SpectraTrace", Ad, [script(c.rng) for _ in range(c.n(2500, 40000))])
