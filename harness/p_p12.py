"""P12: sample formats and units (spec/Convert.tla)."""

import math
import numpy as np
from common import Adapter, BAD, Check, dsp, fx

DT = dict(float64="f64", float32="f32", int8="i8", int16="i16", int32="i32", uint8="u8", uint16="u16", uint32="u32")


def val(e):
    """the number with prime exponents e"""
    return 0.0 if len(e) == 0 else float(np.prod([float(p) ** k for p, k in zip((2, 3, 5, 7), e)]))


def whole(v):
    r = [int(round(float(z))) if math.isfinite(z) and abs(float(z) - round(float(z))) == 0 else BAD for z in np.ravel(v)]
    return [z if abs(z) < 2**31 - 1 or z in (2**31 - 1, 1 - 2**31) else BAD for z in r]


class Ad(Adapter):
    def __init__(self, init):
        super().__init__(init)
        d, den, f = np.array(init["d"], dtype=np.int64), init["den"], init["f"]
        self.f = f
        if f[0] == "f":
            self.v = (d / den).astype(np.float32 if f == "f32" else np.float64)
        else:
            n = int(f[1:])
            c = d + (2 ** (n - 1) - 1 if f[0] == "u" else 0)
            self.v = c.astype(dict(i="int", u="uint")[f[0]] + str(32 if n == 24 else n))
        if init["by"]:
            self.v = b"".join(int(z).to_bytes(3, "little", signed=f[0] == "i") for z in self.v) if f[1:] == "24" else self.v.tobytes()

    def apply(self, ev):
        d = dsp()
        if ev["op"] != "conv":
            arrs = []
            try:
                res = getattr(self, ev["op"])(ev, d.tools, arrs)
            except AssertionError:
                return dict(ok=False, kind="", res=[], touched=False)
            except ValueError:
                if ev["op"] not in ("erb", "octaves"):
                    raise
                return dict(ok=False, kind="", res=[], touched=False)
            return dict(ok=True, kind="", res=res, touched=any(not np.array_equal(a, b) for a, b in arrs))
        v = self.v
        two = ev["two"] and not isinstance(v, bytes) and len(v) % 2 == 0
        if two:
            v = v.reshape(-1, 2)
        before = v if isinstance(v, bytes) else v.copy()
        up = str.upper if ev["upper"] else str
        try:
            o, eq, span = d.tools.convert_sample_representation(v, up(self.f), up(ev["out"]), ev["cast"], ev["bytes"])
        except AssertionError:
            return dict(ok=False, kind="", res=[], touched=False)
        touched = not isinstance(v, bytes) and not np.array_equal(v, before)
        out, flt = ev["out"], ev["out"][0] == "f"
        head = whole([eq, span * 10**7 if flt else span])
        if isinstance(o, bytes):
            kind = "bytes"
            if flt:
                seen = [fx(z, 10**7) for z in np.frombuffer(o, dtype=np.float32 if out == "f32" else np.float64)]
            elif ev["cast"]:
                seen = list(o)
            else:
                seen = whole(np.frombuffer(o, dtype=np.float64) - eq)
            if flt or ev["cast"]:
                self.v, self.f = o, out
        else:
            kind = DT.get(o.dtype.name, o.dtype.name)
            if o.shape != v.shape if not isinstance(v, bytes) else o.ndim != 1:
                kind = "shape"
            seen = [fx(z, 10**7) for z in o.ravel()] if flt else whole(o.astype(np.float64) - eq)
            self.v, self.f = o.ravel(), out
        return dict(ok=True, kind=kind, res=head + seen, touched=bool(touched))

    # ---- units
    def _arr(self, ev, x, arrs):
        x = np.array(x, float)
        if ev.get("cx"):
            x = x * (0.6 - 0.8j)
        if ev.get("two") and x.size % 2 == 0:
            x = x.reshape(2, -1)
        arrs.append((x, x.copy()))
        return x

    def todb(self, ev, t, arrs):
        x = self._arr(ev, [val(e) * s for e, s in zip(ev["x"], ev["sg"])], arrs)
        kw = {}
        if ev["lim"] == "dr":
            kw["dynamic_range_db"] = ev["dr"] * (-1 if ev["two"] else 1)
        elif ev["lim"] == "min":
            kw["min_value"] = val(ev["min"])
        elif ev["lim"] == "none":
            kw["min_value"] = None
        y = t.to_db(x, ev["amp"], **kw)
        return [fx(z, 1e5) for z in y.ravel()] if y.shape == x.shape else [BAD]

    def fromdb(self, ev, t, arrs):
        x = self._arr(ev, np.array(ev["x"]) / 100, arrs)
        y = t.from_db(x, ev["amp"])
        return [fx(20 * math.log10(z), 1e5) for z in y.ravel()] if y.shape == x.shape else [BAD]

    def dbdb(self, ev, t, arrs):
        """there and back"""
        x = self._arr(ev, [val(e) for e in ev["x"]], arrs)
        y = t.from_db(t.to_db(x, ev["amp"]), ev["amp"])
        return [fx((20 if ev["amp"] else 10) * math.log10(z), 1e5) for z in y.ravel()]

    def pow2(self, ev, t, arrs):
        n = ev["p"] if ev["q"] == 1 else ev["p"] / ev["q"]
        r = t.next_power_2(n) if ev["mode"] == "default" else t.next_power_2(n, ev["mode"])
        return whole([r])

    def wrap(self, ev, t, arrs):
        x = self._arr(ev, np.array(ev["x"]) * np.pi / ev["k"], arrs)
        y = t.wrap_phase(x)
        if y.shape != x.shape or np.any(y > np.pi):
            return [BAD]
        y = np.where(y > np.pi - 1e-7, y - 2 * np.pi, y)
        return [fx(z, 100 * ev["k"] / np.pi) for z in y.ravel()]

    def exact(self, ev, t, arrs):
        f, y = np.array(ev["xs"], float), np.array(ev["ys"], float)
        arrs += [(f, f.copy()), (y, y.copy())]
        return [fx(t.get_exact_value_at_frequency(f, y, ev["p"] / ev["q"]), 1e3)]

    def logvec(self, ev, t, arrs):
        f = t.log_frequency_vector([ev["a"], ev["a"] * ev["p"] / ev["q"]], ev["n"])
        return [fx(ev["n"] * math.log2(z / ev["a"]), 1e3) for z in f]

    def warp(self, ev, t, arrs):
        fs = 48000
        f = np.array([fs / np.pi * math.atan2(a, b) for a, b in ev["x"]])
        arrs.append((f, f.copy()))
        y = t.warp_frequency(f, fs, ev["p"] / ev["q"])
        return [999999999 if abs(z - fs / 2) < 1e-6 else fx(math.tan(np.pi * z / fs), 1e4) for z in y]

    def octaves(self, ev, t, arrs):
        r = t.fractional_octave_frequencies(ev["n"], (ev["lo"], ev["hi"]), ev["cut"])
        idx = lambda v: [fx(20 * ev["n"] / 3 * math.log10(z / 1000), 1) if abs(s := 20 * ev["n"] / 3 * math.log10(z / 1000)) < 1e6 and abs(s - round(s)) < 1e-6 else BAD for z in v]
        res = whole(np.asarray(r[0]) * 10) + idx(r[1])
        if ev["cut"]:
            res += idx(r[2][0]) + idx(r[2][1])
        return res

    def erb(self, ev, t, arrs):
        E = lambda f: 9.2645 * math.log(1 + 0.00437 * f)
        hz = [(math.exp((E(1000) + z / 100) / 9.2645) - 1) / 0.00437 for z in (ev["lo"], ev["hi"])]
        h0 = list(hz)
        f = t.erb_frequencies(hz, ev["res"] / 100, 1000)
        if hz != h0:
            return [BAD]
        return [fx((E(z) - E(1000)) * 100 / ev["res"], 100) for z in f]

    def logmean(self, ev, t, arrs):
        x = np.array(ev["x"], float)
        x = x.copy() if ev["axis"] == 1 else x.T.copy()
        arrs.append((x, x.copy()))
        y = t.log_mean(x, ev["axis"])
        return [fx(z, 1e3) for z in np.ravel(y)]

    def ema(self, ev, t, arrs):
        return [fx(t.get_smoothing_factor_ema(ev["k"] / 10, 10, 1 - (ev["p"] / ev["q"]) ** ev["k"]), 1e5)]

    def tsm(self, ev, t, arrs):
        x = np.array(ev["x"], float).T.copy()
        one = x.shape[1] == 1 and ev["one"]
        x = x[:, 0].copy() if one else x.T.copy() if ev["flip"] else x
        arrs.append((x, x.copy()))
        tt = lambda f: 0.0 if f == 4 else math.log(0.05) / math.log(1 - f / 4) / 100
        y = t.time_smoothing(x, 100, tt(ev["f"]), None if ev["g"] == 0 else tt(ev["g"]))
        if y.shape != x.shape:
            return [BAD]
        y = y if not one and ev["flip"] else y.T
        return [fx(z, 1e4) for z in y.ravel()]

    def interp(self, ev, t, arrs):
        y = np.array(ev["ys"], float)
        m = ev["mode"]
        fwd, back = dict(
            none=(lambda v: v, lambda v: v),
            power2amplitude=(lambda v: v**2, lambda v: v**0.5),
            amplitude2power=(lambda v: v**0.5, lambda v: v**2),
            db2amplitude=(lambda v: 20 * np.log10(v), lambda v: 10 ** (v / 20)),
            db2power=(lambda v: 10 * np.log10(v), lambda v: 10 ** (v / 10)),
            amplitude2db=(lambda v: 10 ** (v / 20), lambda v: 20 * np.log10(v)),
            power2db=(lambda v: 10 ** (v / 10), lambda v: 10 * np.log10(v)),
        )[m]
        f, at = np.array(ev["xs"], float), np.array(ev["at"]) / 2
        y = fwd(y[0] if ev["one"] else y.T.copy())
        arrs += [(f, f.copy()), (y, y.copy()), (at, at.copy())]
        r = t.interpolate_fr(f, y, at, None if m == "none" else m)
        if r.shape != at.shape + y.shape[1:]:
            return [BAD]
        return [fx(z, 1e4) for z in back(r).T.ravel()]

    def smooth(self, ev, t, arrs):
        x = np.array(ev["x"], float).T.copy()
        x = x[:, 0].copy() if x.shape[1] == 1 else x
        arrs.append((x, x.copy()))
        kw = {}
        if ev["win"]:
            w = np.hanning(7)
            arrs.append((w, w.copy()))
            kw = dict(window_type=None, window_vec=w)
            # the window must have the length the smoothing asks for
            y = t.fractional_octave_smoothing(x, 1 / (7 * ev["frac"]), ev["frac"], clip_values=ev["clip"], **kw)
        else:
            y = t.fractional_octave_smoothing(x, None if ev["bin"] == 0 else 1 / ev["bin"], ev["frac"], clip_values=ev["clip"])
        if y.shape != x.shape:
            return [BAD] * len(ev["x"])
        e = 1e-9
        x, y = np.atleast_2d(x.T), np.atleast_2d(y.T)
        return [int(np.all(b >= a.min() - e) and np.all(b <= a.max() + e)) for a, b in zip(x, y)]

    def xover(self, ev, t, arrs):
        lo, hi = float(ev["lo"]), float(ev["hi"])
        fn = t.frequency_crossover([lo, hi], ev["log"])
        f = np.linspace(lo / 4, hi * 2, 999)
        y = fn(f)
        return [int(np.all(y[f < lo] == 0)), int(np.all(y[f > hi] == 1)), int(np.all(np.diff(y) > -1e-6))]


def match(out, ob):
    if not isinstance(ob, dict) or "ok" not in ob or ob["ok"] != out["ok"] or ob["touched"]:
        return False
    if not out["ok"]:
        return True
    e, o = out["res"], ob["res"]
    if ob["kind"] != out["kind"]:
        return False
    if out["kind"] == "bytes" and len(e) == 2:
        return len(o) >= 2
    return len(e) == len(o) and all(abs(z - w[0]) <= w[1] if isinstance(w, list) else z == w for w, z in zip(e, o))


FM = ["i8", "u8", "i16", "u16", "i24", "u24", "i32", "u32", "f32", "f64"]


def conv(r):
    return dict(op="conv", out=r.choice(FM + ["x8"]), cast=r.random() < 0.8, bytes=r.random() < 0.4, two=r.random() < 0.5, upper=r.random() < 0.2)


def unit(r):
    e = lambda: [r.randint(-3, 3) for _ in range(4)]
    ch = lambda k, a, b: [r.randint(a, b) for _ in range(k)]
    op = r.choice(["todb", "todb", "fromdb", "dbdb", "pow2", "pow2", "wrap", "exact", "logvec", "warp", "octaves", "erb", "logmean", "ema", "tsm", "tsm", "interp", "interp", "smooth", "xover"])
    ev = dict(op=op)
    n = r.randint(1, 6)
    if op == "todb":
        lim = r.choice(["", "", "dr", "min", "none"])
        x = [e() if r.random() < 0.8 or lim == "none" else [] for _ in range(n)]
        if lim == "dr" and not any(x):
            x[0] = e()
        ev.update(x=x, sg=[r.choice([1, -1]) for _ in x], amp=r.random() < 0.5, lim=lim, dr=r.randint(1, 90), min=e(), cx=r.random() < 0.3, two=r.random() < 0.3)
    elif op == "fromdb":
        ev.update(x=ch(n, -9000, 9000), amp=r.random() < 0.5, two=r.random() < 0.3)
    elif op == "dbdb":
        ev.update(x=[e() for _ in range(n)], amp=r.random() < 0.5, two=r.random() < 0.3, cx=r.random() < 0.3)
    elif op == "pow2":
        q = r.choice([1, 1, 1, 3, 7])
        p = r.choice([r.randint(q, 5000), q * 2 ** r.randint(0, 10), q * 2 ** r.randint(1, 10) + 1, q * 2 ** r.randint(1, 10) - 1, 0, -3])
        ev.update(p=p, q=q, mode=r.choice(["default", "closest", "floor", "ceil"]))
    elif op == "wrap":
        ev.update(x=ch(n, -60, 60), k=r.choice([1, 2, 3, 7]), two=r.random() < 0.3)
    elif op == "exact":
        xs = sorted(r.sample(range(0, 40), r.randint(1, 5)))
        q = r.choice([1, 2, 3])
        p = r.choice([r.choice(xs) * q, r.randint(xs[0] * q, xs[-1] * q), r.randint(0, 40 * q)])
        ev.update(xs=xs, ys=ch(len(xs), -50, 50), p=p, q=q)
        if len(xs) == 1:
            ev["xs"], ev["ys"] = xs + [xs[0] + 5], ev["ys"] + [3]
    elif op == "logvec":
        q = r.randint(1, 3)
        ev.update(a=r.choice([1, 20, 100, 3]), q=q, p=q * r.choice([1, 2, 4, 8]) if r.random() < 0.5 else r.randint(q, 8), n=r.randint(1, 4))
    elif op == "warp":
        q = r.randint(2, 9)
        ev.update(x=[[r.randint(0, 6), r.randint(0, 6)] for _ in range(n)], p=r.randint(-q, q), q=q)
        ev["x"] = [[a, b] if a or b else [0, 1] for a, b in ev["x"]]
        if r.random() < 0.3:
            ev["x"][0] = [1, 0]
    elif op == "octaves":
        a, b = r.choice([0, 20, 25, 100, 1000, 3000]), r.choice([50, 63, 500, 1000, 16000, 20000])
        ev.update(n=r.choice([1, 3]), lo=a, hi=b, cut=r.random() < 0.6)
    elif op == "erb":
        res = r.choice([100, 50, 33, 200, 150, 0, -100])
        k = lambda z: z + 7 if abs(res) and z % abs(res) in (0, 1, abs(res) - 1) else z
        ev.update(lo=k(r.randint(-1400, 1500)), hi=k(r.randint(-1400, 1500)), res=res)
    elif op == "logmean":
        m = r.randint(2, 5)
        ev.update(x=[ch(m, -90, 90) for _ in range(r.randint(1, 3))], axis=r.choice([0, 1]))
    elif op == "ema":
        q = r.randint(2, 9)
        ev.update(k=r.randint(1, 5), q=q, p=r.randint(1, q - 1))
    elif op == "tsm":
        nch = r.randint(1, 3)
        ln = r.randint(nch + 1, 9)
        f, g = r.randint(1, 4), r.randint(0, 4)
        if f == 4 and g in (0, 4):
            f = 3
        ev.update(x=[ch(ln, -9, 9) for _ in range(nch)], f=f, g=g, one=r.random() < 0.5, flip=r.random() < 0.3)
    elif op == "interp":
        xs = sorted(r.sample(range(0, 20), r.randint(2, 5)))
        mode = r.choice(["none", "power2amplitude", "amplitude2power", "db2amplitude", "db2power", "amplitude2db", "power2db"])
        nch = r.choice([1, 1, 2, 3])
        ev.update(xs=xs, ys=[ch(len(xs), 1, 40) for _ in range(nch)], at=ch(n, -2, 42), mode=mode, edge=mode[-3:] == "2db", one=nch == 1 and r.random() < 0.6)
        if mode in ("none", "amplitude2db", "power2db"):
            ev["ys"] = [ch(len(xs), -40, 40) for _ in range(nch)]
    elif op == "smooth":
        nch, ln = r.randint(1, 3), r.randint(8, 40)
        ev.update(x=[[r.randint(0, 50)] * ln if r.random() < 0.3 else ch(ln, 0, 50) for _ in range(nch)], frac=r.choice([1, 2, 3, 6, 12]), bin=r.choice([0, 0, 3, 12, 24]), win=r.random() < 0.3, clip=r.random() < 0.5)
    elif op == "xover":
        lo = r.randint(20, 300)
        ev.update(lo=lo, hi=lo + r.randint(10, 900), log=r.random() < 0.5)
    return ev


def script(r):
    f = r.choice(FM)
    n = r.randint(1, 6)
    if f[0] == "f":
        den = 2 ** r.randint(0, 9)
        d = [r.randint(-den - 2, den + 2) for _ in range(n)]
    else:
        b = int(f[1:])
        den = 2 ** (b - 1) - 1
        d = [r.choice([r.randint(-den, den), r.randint(-9, 9), den, -den, den - 1]) for _ in range(n)]
    init = dict(f=f, d=d, den=den, by=r.random() < 0.3, err=0)
    evs = [conv(r) if r.random() < 0.6 else unit(r) for _ in range(r.randint(3, 8))]
    return init, evs


def codes(r, f):
    """every code of an 8-bit format, or a run of consecutive codes of a longer one, there and back"""
    b = int(f[1:])
    m = 2 ** (b - 1) - 1
    if b == 8:
        d = list(range(-m - (f[0] == "i"), m + 1 + (f[0] == "u")))
    else:
        a = r.choice([-m, m - 60, -30, r.randint(-m, m - 60)])
        d = list(range(a, a + 60))
    o = r.choice([z for z in FM if z != f])
    c = lambda out, by: dict(op="conv", out=out, cast=not (out[1:] == "24" and not by), bytes=by, two=False, upper=False)
    return dict(f=f, d=d, den=m, by=r.random() < 0.3, err=0), [c("f64", r.random() < 0.3), c(f, r.random() < 0.5)] + ([c(o, r.random() < 0.5)] if o else [])


def run(c: Check):
    dsp()
    c.assumptions = ["all codes of 8-bit formats, boundary codes and random codes of the longer ones"]
    c.generate("ConvertGen", Ad, match, limit=c.n(8000, None))
    if c.thorough:
        c.generate("ConvertGen", Ad, match, cfg="ConvertDeep", limit=100000)
    r = c.rng
    scripts = [script(r) for _ in range(c.n(1200, 12000))] + [codes(r, f) for f in FM[:8] for _ in range(c.n(4, 40))]
    c.drive("ConvertTrace", Ad, scripts)
