"""P25: microphone arrays and beamformers (spec/Beams.tla)."""

import contextlib
import io
import warnings
import numpy as np
from common import Adapter, BAD, Check, MachineryError, arr, dsp, fx

FORMS = ["Classic", "Inverse", "TruePower", "TrueLocation"]
U = 11.0


def pos(ps, u=U):
    p = np.array(ps, float) / u
    return dict(x=p[:, 0], y=p[:, 1], z=p[:, 2])


class Ad(Adapter):
    def apply(self, ev):
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                return dict(ok=True, res=getattr(self, "do_" + ev["op"])(ev))
        except MachineryError:
            raise
        except (AssertionError, ValueError, TypeError, KeyError, IndexError):
            return dict(ok=False)

    def do_geo(self, ev):
        b = dsp().beamforming
        m = b.MicArray(pos(ev["p"]))
        p, q = np.array(ev["p"], float), np.array(ev["q"], float)
        d = m.get_distances_to_point(q / U).reshape(len(p), len(q))
        near = []
        for x in q:
            i, c = m.find_nearest_point(x / U)
            if not np.allclose(c, p[i] / U):
                return [[BAD]]
            near.append(np.sum((p[i] - x) ** 2))
        i = m.array_center_channel_number
        if not np.allclose(m.array_center_coordinates, p[i] / U):
            return [[BAD]]
        off = np.sum((len(p) * p[i] - p.sum(axis=0)) ** 2)
        r = m.get_maximum_frequency_range(ev["he"], ev["c"])
        e = m.extent
        return [[int(m.number_of_points), int(m.ndim)], [int(a in m.dim) for a in "xyz"], fx(np.array([v * U for a in "xyz" for v in e[a]]), 100),
                fx((d * U).ravel() ** 2, 100), fx(np.array(near), 100), fx(np.array([(m.min_distance * U) ** 2, (m.aperture * U) ** 2]), 100) + [int(off)],
                fx(np.array([m.he_to_hz(ev["he"], ev["c"])]), 100) + fx(np.array([m.hz_to_he(ev["f"], ev["c"])]), 10000) + fx(np.array(r), 100)]

    def grid(self, ev):
        b = dsp().beamforming
        l = [np.array(x, float) / U for x in ev["l"]]
        n = ["xyz"[i - 1] for i in ev["dim"]]
        if ev["kind"] == "3d":
            return b.Regular3DGrid(*l)
        if ev["kind"] == "2d":
            return b.Regular2DGrid(l[0], l[1], n, ev["v"][0] / U)
        return b.LineGrid(l[0], n[0], ev["v"][0] / U, ev["v"][1] / U)

    def do_grid(self, ev):
        g = self.grid(ev)
        m = g.reconstruct_map_shape(np.arange(g.number_of_points))
        return [fx(r * U, 100) for r in g.coordinates] + [list(m.shape), [int(v) for v in m.ravel()]]

    def do_steer(self, ev):
        d = dsp()
        b = d.beamforming
        st = b.SteeringVector(getattr(d.beamforming.SteeringVectorType, ev["form"]))
        # (several wave numbers at once)
        w = np.array([1, ev["k"]]) * 100 * 2 * np.pi / ev["c"]
        h = st.get_vector(w, b.Grid(pos(ev["g"])), b.MicArray(pos(ev["m"])))
        if h.shape != (2, len(ev["m"]), len(ev["g"])):
            return [[BAD]]
        return [fx(np.array([x for v in h[1, :, j] for x in (v.real, v.imag)]), 10000) for j in range(len(ev["g"]))]

    def do_map(self, ev):
        d = dsp()
        b = d.beamforming
        k, n, m = ev["kind"], ev["n"], len(ev["m"])
        fs = 100 * n
        inco = k in ("inco", "mvdr")
        x = np.zeros((n * m if inco else n, m))
        for i in range(m):
            x[ev["d"][i] + (n * i if inco else 0), i] = ev["a"][i]
        s = d.Signal(None, x, fs, constrain_amplitude=False)
        if inco:
            s.set_spectrum_parameters(d.SpectrumMethod.WelchPeriodogram, window_length_samples=n, window_type=d.Window.Boxcar, overlap_percent=0, detrend=False, scaling=d.SpectrumScaling.PowerSpectrum)
            c = s.get_csm()[1][1]
            scale = c[0, 0].real / ev["a"][0] ** 2
        else:
            s.set_spectrum_parameters(d.SpectrumMethod.FFT, scaling=d.SpectrumScaling.FFTBackward)
            scale = 1.0
        C = dict(das=b.BeamformerDASFrequency, inco=b.BeamformerDASFrequency, orth=b.BeamformerOrthogonal, func=b.BeamformerFunctional, mvdr=b.BeamformerMVDR, clean=b.BeamformerCleanSC)[k]
        st = b.SteeringVector(getattr(b.SteeringVectorType, ev["form"]))
        bf = C(s, b.MicArray(pos(ev["m"])), b.Grid(pos(ev["g"])), st, ev["c"])
        kw = dict(das=lambda: dict(remove_csm_diagonal=ev["rem"]), inco=lambda: dict(remove_csm_diagonal=ev["rem"]), orth=lambda: dict(number_eigenvalues=ev["gam"] if ev["gam"] <= m and ev["gam"] < 3 else None), func=lambda: dict(gamma=ev["gam"]), mvdr=dict, clean=dict)[k]()
        r = bf.get_beamformer_map(float(ev["fc"]), 1 if ev["oct"] else 0, **kw) / scale
        f = bf.f_range_hz
        if not np.array_equal(s.time_data, x):
            return [[BAD]]
        return [fx(r / (100 if f[1] > f[0] else 1), 1000), fx(f, 1)]

    def do_src(self, ev):
        d = dsp()
        b = d.beamforming
        S = [b.MonopoleSource(d.Signal(None, arr([x]), 1000, constrain_amplitude=False), np.array(p, float)) for x, p in zip(ev["x"], ev["s"])]
        m = b.MicArray(pos(ev["m"], 1.0))
        r = b.mix_sources_on_array(S if len(S) > 1 or ev.get("list") else S[0], m, 1000)
        return [fx(c, 10000) for c in r.time_data.T]

    def do_focus(self, ev):
        d = dsp()
        b = d.beamforming
        s = d.Signal(None, arr(ev["x"]), 1000, constrain_amplitude=False)
        o = b.BeamformerDASTime(s, b.MicArray(pos(ev["m"], 1.0)), b.Grid(pos(ev["g"], 1.0)), 1000).get_beamformer_output()
        return [fx(c, 10000) for c in o.time_data.T]

    def do_bad(self, ev):
        d = dsp()
        b = d.beamforming
        k = ev["kind"]
        m = b.MicArray(pos([[0, 0, 0], [1, 0, 0], [0, 1, 0]]))
        g = b.Grid(pos([[0, 0, 5], [1, 0, 5]]))
        st = b.SteeringVector()
        x = np.random.default_rng(0).normal(size=(2048, 3))
        s = d.Signal(None, x, 8000)
        if k == "missing":
            b.MicArray(dict(x=[1, 2], y=[3, 4]))
        elif k == "shapes":
            b.Grid(dict(x=[1, 2], y=[3, 4], z=[1, 2, 3]))
        elif k == "point":
            m.find_nearest_point([1, 2])
        elif k == "channels":
            b.BeamformerDASFrequency(d.Signal(None, x[:, :2], 8000), m, g, st)
        elif k == "speed":
            b.BeamformerDASTime(s, m, g, 0)
        elif k == "form":
            b.SteeringVector("classic")
        elif k == "steer":
            b.BeamformerMVDR(s, m, g, b.classic_steering if hasattr(b, "classic_steering") else 3)
        elif k == "grid":
            b.BeamformerMVDR(s, m, m, st)
        elif k == "eig":
            b.BeamformerOrthogonal(s, m, g, st).get_beamformer_map(1000, 3, 4)
        elif k == "eig0":
            b.BeamformerOrthogonal(s, m, g, st).get_beamformer_map(1000, 3, 0)
        elif k == "iter":
            b.BeamformerCleanSC(s, m, g, st).get_beamformer_map(1000, 3, 0)
        elif k == "safe":
            b.BeamformerCleanSC(s, m, g, st).get_beamformer_map(1000, 3, None, 1.5)
        elif k == "src2":
            b.MonopoleSource(s, [0, 0, 1])
        elif k == "srcpos":
            b.MonopoleSource(s.get_channels(0), [0, 1])
        elif k == "nosrc":
            b.mix_sources_on_array([], m)
        elif k == "dims":
            b.Regular2DGrid([0, 1], [0, 1], ["x", "x"], 1)
        elif k == "map":
            b.Regular2DGrid([0, 1], [0, 1], ["x", "y"], 1).reconstruct_map_shape(np.zeros(5))
        elif k == "he":
            b.BeamformerDASTime(s, m, g).get_frequency_range_from_he([1, 2, 3])
        return []


BADS = ["missing", "shapes", "point", "channels", "speed", "form", "steer", "grid", "eig", "eig0", "iter", "safe", "src2", "srcpos", "nosrc", "dims", "map", "he"]


def pts(rng, n, lo, hi, flat=None):
    while True:
        p = [[rng.randint(lo, hi) for _ in range(3)] for _ in range(n)]
        if flat is not None:
            for r in p:
                r[2] = flat
        if len({tuple(r) for r in p}) == n:
            return p


def d2(p, q):
    return sum((a - b) ** 2 for a, b in zip(p, q))


def middle(m):
    o = [sum((len(m) * p[i] - sum(q[i] for q in m)) ** 2 for i in range(3)) for p in m]
    return o.index(min(o)), o.count(min(o)) == 1


def setting(rng):
    while True:
        n = rng.randint(2, 6)
        m = pts(rng, n, -3, 3, rng.choice([None, 0]))
        g = pts(rng, rng.randint(2, 5), -4, 4, rng.choice([None, 5, 7]))
        if min(d2(a, b) for a in m for b in g) >= 4 and middle(m)[1]:
            return m, g


def amp(form, m, g):
    r = np.sqrt([d2(p, g) for p in m])
    r0 = r[middle(m)[0]]
    s = np.sum(1 / r ** 2)
    n = len(m)
    return dict(Classic=np.ones(n) / n, Inverse=r / n / r0, TruePower=1 / (r0 * r * s), TrueLocation=1 / (r * np.sqrt(n * s)))[form]


def clear(ev):
    k = ev["fc"] / 100
    b = []
    for g in ev["g"]:
        r = np.sqrt([d2(p, g) for p in ev["m"]])
        t = 2 * np.pi * (100 * k / ev["c"] * (r - r[middle(ev["m"])[0]]) / U - k * np.array(ev["d"]) / ev["n"])
        w = amp(ev["form"], ev["m"], g) * np.array(ev["a"])
        b.append((abs(np.sum(w * np.exp(1j * t))) ** 2, np.sum(np.abs(w)) ** 2))
    v = sorted((x for x, _ in b), reverse=True)
    return v[0] - v[1] > 0.15 * v[0] + 0.05 * max(y for _, y in b) + 0.05


def event(rng):
    k = rng.choice(["geo"] * 2 + ["grid", "bad"] + ["steer"] * 3 + ["map"] * 6 + ["src", "focus"])
    if k == "bad":
        return dict(op=k, kind=rng.choice(BADS))
    if k == "geo":
        p = pts(rng, rng.randint(2, 6), -6, 6)
        for a in range(3):
            if rng.random() < 0.25 and len({tuple(v if i != a else 0 for i, v in enumerate(r)) for r in p}) == len(p):
                for r in p:
                    r[a] = 3
        return dict(op=k, p=p, q=pts(rng, rng.randint(1, 3), -6, 6) + rng.choice([[], [p[-1]]]), he=rng.randint(1, 10), f=rng.randint(50, 2000), c=rng.choice([343, 340, 400]))
    if k == "grid":
        t = rng.choice(["2d", "3d", "line"])
        n = dict(line=1)
        l = [sorted(rng.sample(range(-9, 9), rng.randint(2, 4))) for _ in range({"2d": 2, "3d": 3, "line": 1}[t])]
        return dict(op=k, kind=t, l=l, dim={"2d": rng.sample([1, 2, 3], 2), "3d": [], "line": [rng.randint(1, 3)]}[t], v=[rng.randint(-9, 9) for _ in range({"2d": 1, "3d": 0, "line": 2}[t])])
    if k == "steer":
        m, g = setting(rng)
        return dict(op=k, form=rng.choice(FORMS), m=m, g=g, k=rng.randint(1, 7), c=rng.choice([100, 150, 343, 600]))
    if k == "map":
        while True:
            m, g = setting(rng)
            t = rng.choice(["das", "das", "orth", "func", "inco", "mvdr", "clean"])
            n = rng.choice([16, 32] if t in ("inco", "mvdr") else [12, 16, 20, 32])
            oct_ = t == "das" and rng.random() < 0.5
            fc = rng.randint(120, 33 * n) if oct_ else 100 * rng.randint(1, n // 2 - 1)
            fc = min(fc, 700)
            e = dict(op=k, kind=t, form=rng.choice(FORMS), m=m, g=g, a=[rng.randint(1, 4) for _ in m], d=[rng.randint(0, 7) for _ in m], n=n, fc=fc, oct=oct_, rem=t in ("das", "inco") and rng.random() < 0.5, gam=rng.randint(1, 3), c=rng.choice([100, 150, 343, 600]))
            if max(np.sum(amp(e["form"], m, p) * e["a"]) for p in g) > 25:
                continue
            if oct_ and min(abs(fc * f % 100 - 50) for f in (0.5 ** 0.5, 2 ** 0.5)) < 0.5:
                continue
            if t not in ("orth", "clean") or clear(e):
                return e
    ax = rng.sample(range(3), 2)
    if k == "src":
        # all distances whole: on one axis, or corners of 3-4-5 triangles
        m, s = whole(rng, ax, rng.randint(2, 4), rng.randint(1, 3))
        return dict(op=k, m=m, s=s, x=[[rng.randint(-5, 5) for _ in range(rng.randint(14, 24))] for _ in s], list=rng.random() < 0.5)
    m, g = whole(rng, ax, rng.randint(2, 4), rng.randint(2, 3))
    n = rng.randint(14, 24)
    return dict(op=k, m=m, g=g, x=[[rng.randint(-5, 5) for _ in range(n)] for _ in m])


def whole(rng, ax, n, k):
    while True:
        P = []
        for c in (n, k):
            q = []
            for _ in range(c):
                p = [1, 1, 1]
                if rng.random() < 0.4:
                    p[ax[0]] += rng.choice([0, 4, -4, 3])
                    p[ax[1]] += rng.choice([0, 3, -3, 4])
                else:
                    p[ax[0]] += rng.randint(-5, 5)
                q.append(p)
            P.append(q)
        m, s = P
        if len({tuple(p) for p in m}) < n or len({tuple(p) for p in s}) < k:
            continue
        d = [d2(a, b) for a in m for b in s]
        if all(int(x ** 0.5 + 0.5) ** 2 == x for x in d):
            return m, s


def match(out, ob):
    if ob.get("ok") != out["ok"] or not out["ok"]:
        return ob.get("ok") == out["ok"]
    r = ob["res"]
    return len(out["res"]) == len(r) and all(len(e) == len(o) and all(abs(b - a[0]) <= a[1] for a, b in zip(e, o)) for e, o in zip(out["res"], r))


def run(c: Check):
    c.generate("BeamsGen", Ad, match, limit=c.n(2000, 20000))
    c.drive("BeamsTrace", Ad, [(dict(i=0), [event(c.rng) for _ in range(c.rng.randint(3, 6))]) for _ in range(c.n(400, 4000))])
