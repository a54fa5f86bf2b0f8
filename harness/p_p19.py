"""P19: room acoustics (spec/Rooms.tla)."""

import math

import numpy as np
from common import Adapter, BAD, Check, MachineryError, arr, dsp, fx, q

WALLS = ["north", "south", "east", "west", "floor", "ceiling"]


class Ad(Adapter):
    def __init__(self, init):
        self.room = dsp().room_acoustics.ShoeboxRoom([3, 4, 5], absorption_coefficient=0.75)

    def apply(self, ev):
        try:
            return dict(ok=True, res=getattr(self, "do_" + ev["op"])(ev))
        except MachineryError:
            raise
        except (AssertionError, ValueError, TypeError, KeyError):
            return dict(ok=False)

    def info(self):
        r = self.room
        return [[q(r.volume), q(r.area), fx(r.absorption_coefficient, 1e5), fx(r.t60_s, 1e5), fx(r.schroeders_frequency, 10), fx(r.critical_distance_m, 1000)]]

    def do_bad(self, ev):
        k, p = ev["kind"], ev["p"]
        R = dsp().room_acoustics
        x = [[1.0, 2.0]] * 3
        if k == "alpha":
            R.ShoeboxRoom([3, 4, 5], absorption_coefficient=p)
        elif k == "dims":
            R.ShoeboxRoom([3, 4][:2] + [p] if p <= 0 else [3, 4], absorption_coefficient=0.5)
        elif k == "neither":
            R.ShoeboxRoom([3, 4, 5])
        elif k == "detail":
            self.room.add_detailed_absorption({**{w: 0.5 for w in WALLS}, WALLS[abs(p) % 6]: [0.2, 1.0 if p > 0 else 0.0]})
        elif k == "wall":
            self.room.add_detailed_absorption({w: 0.5 for w in WALLS if w != WALLS[abs(p) % 6]})
        elif k == "name":
            self.room.add_detailed_absorption({(w if w != WALLS[abs(p) % 6] else "roof"): 0.5 for w in WALLS})
        elif k == "mix":
            self.room.get_mixing_time("other")
        elif k in ("tf", "rir"):
            a, b = self.room.dimensions_m * 0.4, self.room.dimensions_m * 0.6
            o = np.zeros(3)
            o[abs(p) % 3] = -0.5 if p <= 0 else self.room.dimensions_m.max() + 0.5
            a, b = ((a, o) if p % 2 else (o, a))
            if k == "tf":
                self.room.get_analytical_transfer_function(a, b, [10.0, 20.0], 1, False)
            else:
                R.generate_synthetic_rir(self.room, a, b, 686, 0.02)
        elif k == "start":
            R.find_ir_start(dsp().ImpulseResponse(None, arr(x[:2]), 100), 3)
        elif k == "conv":
            s = dsp().Signal(None, np.arange(6.0), 100)
            if p > 0:
                R.convolve_rir_on_signal(s, dsp().ImpulseResponse(None, arr(x[:2]), 100))
            else:
                R.convolve_rir_on_signal(s, dsp().ImpulseResponse(None, np.array([1.0, 2.0]), 200))
        elif k == "revstart":
            h = dsp().ImpulseResponse(None, arr([[0.5**n for n in range(100)]] * 2), 100)
            R.reverb_time(h, ir_start=np.array([0, 0, 0]), automatic_trimming=False)
        elif k == "type":
            R.reverb_time(dsp().Signal(None, np.arange(6.0), 100))
        elif k == "dtype":
            R.descriptors(dsp().Signal(None, np.arange(6.0), 100), R.RoomAcousticsDescriptor.D50)
        elif k == "bandbass":
            h = dsp().ImpulseResponse(None, np.arange(60.0), 8000)
            R.descriptors(dsp().MultiBandSignal([h, h.copy()]), R.RoomAcousticsDescriptor.BassRatio)
        return []

    def do_room(self, ev):
        kw = dict(absorption_coefficient=ev["alpha"] / 100) if ev["t60"] == 0 else dict(t60_s=ev["t60"] / 1000)
        self.room = dsp().room_acoustics.ShoeboxRoom(ev["d"] if sum(ev["d"]) % 2 else np.array(ev["d"], float), **kw)
        return self.info()

    def do_info(self, ev):
        return self.info()

    def do_detail(self, ev):
        w = {n: (v[0] / 100 if len(v) == 1 and i % 2 else [x / 100 for x in v]) for i, (n, v) in enumerate(zip(WALLS, ev["w"]))}
        if sum(ev["w"][0]) % 2:
            w = dict(reversed(list(w.items())))
        self.room.add_detailed_absorption(w)
        a = self.room.detailed_absorption
        m = a["absorption_matrix"]
        if list(w) and not np.allclose(a["mean_absorption_coefficients_per_frequency"] * self.room.area, a["absorption_area"]):
            return [[BAD]]
        return self.info() + [fx(a["absorption_area"], 100), fx(a["t60_s_per_frequency"], 1e5), q(a["center_frequencies"])] + \
            [q(m[a["index_wall_dictionary"][n]], 100) for n in WALLS]

    def do_inside(self, ev):
        return [[int(self.room.check_if_in_room([v / 10 for v in ev["p"]]))]]

    def do_density(self, ev):
        r = self.room
        f = np.array(ev["f"], float)
        v = r.modal_density(f, 100.0)
        if len(f) and abs(r.modal_density(float(f[0]), 100.0) - v[0]) > 1e-9 or abs(r.modal_density(float(f[0])) - r.modal_density(float(f[0]), 343)) > 1e-9:
            return [[BAD]]
        return [fx(v, 1000)]

    def do_mixing(self, ev):
        r = self.room
        v = r.get_mixing_time("Perceptual") if ev["mode"] == "perceptual" else r.get_mixing_time("physical", ev["n"], 100.0)
        return [[fx(v, 1e6) if v == r.mixing_time_s else BAD]]

    def do_modes(self, ev):
        v = self.room.get_room_modes(ev["m"], 100.0)
        return [[fx(r[0], 100), q(r[1]), q(r[2]), q(r[3])] for r in v]

    def do_tf(self, ev):
        d = self.room.dimensions_m
        p, m, _ = self.room.get_analytical_transfer_function(np.array(ev["s"]) / 12 * d, np.array(ev["r"]) / 12 * d, np.array([ev["f"], 1.0]), ev["m"], False, float(ev["c"]))
        v = p[0] * self.room.volume * math.pi**2 / 2
        if not np.allclose(m, self.room.get_room_modes(ev["m"], float(ev["c"]))[:, :], atol=1e-9) and len({round(x, 6) for x in m[:, 0]}) == len(m):
            return [[BAD]]
        return [[fx(v.real, 1e4), fx(v.imag, 1e4)]]

    def do_rir(self, ev):
        R = dsp().room_acoustics
        h = R.generate_synthetic_rir(self.room, np.array(ev["s"]) / 2, [v / 2 for v in ev["r"]], 686, ev["L"] / 686, use_detailed_absorption=ev["detailed"],
                                     max_order=None if ev["mo"] < 0 else ev["mo"])
        x = h.time_data
        if type(h) is not dsp().ImpulseResponse or x.shape[1] != 1 or h.sampling_rate_hz != 686:
            return [[BAD]]
        return [fx(x[:, 0] * 4 * math.pi, 1e4)]

    def do_start(self, ev):
        h = dsp().ImpulseResponse(None, arr(ev["x"]), 100)
        return [q(dsp().room_acoustics.find_ir_start(h, {10: -20, 100: -40}[ev["fac"]]))]

    def do_desc(self, ev):
        d = dsp()
        h = d.ImpulseResponse(None, arr(ev["x"]), ev["fs"])
        before = h.time_data.copy()
        K = d.room_acoustics.RoomAcousticsDescriptor
        k = {"D50": K.D50, "C80": K.C80, "TS": K.CenterTime}[ev["kind"]]
        v = d.room_acoustics.descriptors(h, k, False)
        if ev["multi"]:
            g = h.copy_with_new_time_data(h.time_data * 2)
            w = d.room_acoustics.descriptors(d.MultiBandSignal([g, h]), k, False)
            if w.shape != (2, len(v)) or not np.allclose(w[0], w[1]):
                return [[BAD]]
            v = w[1]
        if not np.array_equal(h.time_data, before):
            return [[BAD]]
        return [[(fx(10 ** (u / 10), 1000) if np.isfinite(u) else 0) if ev["kind"] == "C80" else fx(u, 10000) for u in v]]

    def do_conv(self, ev):
        d = dsp()
        s = d.Signal(None, arr(ev["x"]), 100, constrain_amplitude=False)
        h = d.ImpulseResponse(None, arr([ev["h"]]), 100, constrain_amplitude=False)
        y = d.room_acoustics.convolve_rir_on_signal(s, h, ev["peak"], ev["len"])
        if type(y) is not d.Signal or not np.array_equal(s.time_data, arr(ev["x"])) or not np.array_equal(h.time_data[:, 0], np.array(ev["h"], float)):
            return [[BAD]]
        return [fx(c, 1000) for c in y.time_data.T]

    def decay(self, rt, pre, n, plateau, gain, fs, seed):
        t = np.arange(n) / fs
        y = 10 ** (-3 * t / (rt / 1000)) * gain
        y = y * np.where(np.random.default_rng(seed).random(n) < 0.5, -1, 1)
        return np.concatenate([np.zeros(pre), np.full(plateau, gain), y])

    def do_reverb(self, ev):
        d = dsp()
        R = d.room_acoustics
        fs = 2000
        mx = max(max(b) for b in ev["rt"])
        n = int(mx / 1000 * fs * 1.25) + 100
        start = None
        if ev["plateau"]:
            start = ev["pre"] + ev["plateau"]
            if ev["arr"]:
                start = start + np.array([[25 * i + 10 * j for i in range(len(r))] for j, r in enumerate(ev["rt"])])
                if len(ev["rt"]) == 1:
                    start = start[0]
        elif ev["arr"]:
            start = ev["pre"]
        b = [d.ImpulseResponse(None, np.stack([self.decay(t, ev["pre"], n, ev["plateau"] + (25 * i + 10 * j if ev["arr"] and ev["plateau"] else 0), 0.9 / (1 + (i + j) % 3), fs, 7 * i + j)[:ev["pre"] + ev["plateau"] + n] for i, t in enumerate(r)], 1), fs)
             for j, r in enumerate(ev["rt"])]
        arg = b[0] if len(b) == 1 else d.MultiBandSignal(b)
        v, c = R.reverb_time(arg, getattr(R.ReverbTime, ev["mode"]), start, False)
        v = np.atleast_2d(v)
        if v.shape != np.atleast_2d(c).shape or (np.asarray(c) > -0.99).any():
            return [[BAD]]
        return [[fx(x, 10000) for x in r] for r in v]

    def do_bass(self, ev):
        d = dsp()
        fs = 8000
        x = []
        for rt in ev["rt"]:
            n = int(1.3 * fs * max(rt) / 1000)
            t = np.arange(n) / fs
            x.append(sum(np.sin(2 * np.pi * f * t + i) * 10 ** (-3 * t * 1000 / r) for i, (f, r) in enumerate(zip((125, 250, 500, 1000), rt))))
        n = max(len(v) for v in x)
        h = d.ImpulseResponse(None, np.stack([np.pad(v, (0, n - len(v))) for v in x], 1) / 5, fs)
        return [[fx(v, 1000)] for v in d.room_acoustics.descriptors(h, d.room_acoustics.RoomAcousticsDescriptor.BassRatio)]

    def do_findmodes(self, ev):
        d = dsp()
        fs = 400
        t = np.arange(fs) / fs
        x = sum((1 + 0.3 * i) * np.sin(2 * np.pi * f * t + i) * np.exp(-6.9 * t) for i, f in enumerate(ev["f"]))
        if ev["ch"] > 1:
            x = np.stack([x * (1 + c) for c in range(ev["ch"])], 1)
        h = d.ImpulseResponse(None, x * 0.1, fs)
        v = d.room_acoustics.find_modes(h, list(ev["range"]), 5.0)
        w = np.asarray(v)
        # peaks of the response; other local maxima between them are allowed to be missing
        return [[int(round(u)) for u in w]]


def rooms(rng):
    d = [rng.randint(2, 6) for _ in range(3)]
    z = rng.random()
    if z < 0.5:
        return dict(op="room", d=d, alpha=rng.choice([20, 36, 51, 64, 75, 84, 91, 96, 100, 5]), t60=0)
    return dict(op="room", d=d, alpha=0, t60=rng.choice([20, 50, 90, 150, 400, 1000, 2000]))


def wall(rng, bands):
    n = rng.choice([1, bands, rng.randint(1, bands)])
    return [rng.randint(2, 98) for _ in range(n)]


def decaying(rng, n, small=False):
    """an impulse response whose rise is monotonic"""
    p = rng.randint(0, 4)
    rise = sorted({rng.choice([0, 0, 1, 2, 3, 5, 7, 12] if small else [0, 0, 1, 2, 3, 5, 15, 27, 55, 123]) for _ in range(p)})
    pk = rng.choice([19, 23, 29] if small else [137, 211, 333])
    return [rng.choice([-1, 1]) * v for v in rise + [pk] + [rng.randint(-pk + 1, pk - 1) if rng.random() < 0.7 else 0 for _ in range(n)]]


def safe(x, fac):
    p = max(range(len(x)), key=lambda i: abs(x[i]))
    return all(abs(v) * fac != abs(x[p]) for v in x)


def pad(x):
    n = max(len(v) for v in x)
    return [v + [0] * (n - len(v)) for v in x]


def track(out):
    """dimensions, reverberation times per band and mean one after a history"""
    d, det, t = [3, 4, 5], None, 0.161 * 60 / 94 / 0.75
    for e in out:
        if e["op"] == "room":
            D = e["d"]
            r = 0.161 * D[0] * D[1] * D[2] / (2 * (D[0] * D[1] + D[0] * D[2] + D[1] * D[2]))
            a = e["alpha"] / 100 if e["t60"] == 0 else r / (e["t60"] / 1000)
            if a <= 1:
                d, det, t = list(D), None, r / a
        elif e["op"] == "detail":
            V, S, w = d[0] * d[1] * d[2], 2 * (d[0] * d[1] + d[0] * d[2] + d[1] * d[2]), e["w"]
            n = max(len(v) for v in w)
            m = [[(v + [v[-1]] * 8)[b] for b in range(n)] for v in w]
            A = [d[0] * d[2]] * 2 + [d[1] * d[2]] * 2 + [d[0] * d[1]] * 2
            s = [sum(A[i] * m[i][b] for i in range(6)) for b in range(n)]
            det = [0.161 * V * 100 / v for v in s]
            t = 0.161 * V / (sum(v * 2**b for b, v in enumerate(s)) / (2**n - 1) / 100)
    return d, det, t


def tfok(d, det, t, e):
    c = e["c"]
    ok = min(det or [t]) > 0.02
    for n in np.ndindex(e["m"] + 1, e["m"] + 1, e["m"] + 1):
        if any(n):
            k = math.sqrt(sum((a / b) ** 2 for a, b in zip(n, d)))
            fm = k * c / 2
            if det:
                o = sorted(abs(fm - 125 * 2**i) for i in range(len(det)))
                ok = ok and (len(o) < 2 or o[1] - o[0] > 1)
            T = det[int(np.argmin([abs(fm - 125 * 2**i) for i in range(len(det))]))] if det else t
            q2 = (k * k * 1e4 - 4e4 * e["f"] ** 2 / c**2) ** 2 + (4.3976e6 * k / c / T) ** 2
            ok = ok and 4e4 < q2 < 1.5e9
    return ok


def resonant(rng):
    """near a mode, where its damping counts, with bands of very different absorption"""
    while True:
        d = [rng.randint(2, 4) for _ in range(3)]
        b = rng.randint(2, 3)
        v = [rng.choice([5, 10, 30, 60, 90]) for _ in range(b)]
        out = [dict(op="room", d=d, alpha=50, t60=0), dict(op="detail", w=[[x + rng.randint(0, 5) for x in v] for _ in range(6)])]
        d, det, t = track(out)
        m = rng.randint(1, 2)
        for _ in range(40):
            n = [rng.randint(0, m) for _ in range(3)]
            f = round(200 * math.sqrt(sum((a / b) ** 2 for a, b in zip(n, d)))) + rng.randint(-2, 2)
            e = dict(op="tf", c=400, f=f, m=m, s=[rng.choice([0, 12, 1, 11]) for _ in d], r=[rng.choice([0, 12, 1, 11]) for _ in d])
            if 120 < f < 420 and tfok(d, det, t, e):
                return out + [e]


def events(rng):
    """a history: the room's dimensions are tracked to place positions in it"""
    out = []
    for _ in range(rng.randint(3, 8)):
        z = rng.random()
        d, det, t = track(out)
        if z < 0.2:
            e = rooms(rng)
            D = e["d"]
            if e["t60"] and abs(0.161e3 * D[0] * D[1] * D[2] / (2 * (D[0] * D[1] + D[0] * D[2] + D[1] * D[2])) / e["t60"] - 1) < 0.02:
                continue
        elif z < 0.34:
            bands = rng.randint(1, 8)
            e = dict(op="detail", w=[wall(rng, bands) for _ in range(6)])
        elif z < 0.38:
            e = dict(op="info")
        elif z < 0.46:
            e = dict(op="inside", p=[rng.choice([rng.randint(-3, 10 * v + 3), rng.randint(1, 10 * v - 1), rng.randint(1, 10 * v - 1), 0, 10 * v]) for v in d])
        elif z < 0.5:
            e = dict(op="density", f=[rng.randint(0, 50) for _ in range(rng.randint(1, 5))])
        elif z < 0.54:
            e = dict(op="mixing", mode=rng.choice(["perceptual", "physical"]), n=rng.randint(1, 1000))
        elif z < 0.58:
            e = dict(op="modes", m=rng.randint(1, 3))
        elif z < 0.72:
            c = rng.choice([100, 400])
            e = dict(op="tf", c=c, f=rng.randint(0, 60) * (1 if c == 100 else 4), m=rng.randint(1, 2), s=[rng.randint(0, 12) for _ in range(3)], r=[rng.randint(0, 12) for _ in range(3)])
            if not tfok(d, det, t, e):
                continue
        elif z < 0.84:
            e = rir(rng, d, out)
            if e is None:
                continue
        elif z < 0.9:
            k = rng.choice(["alpha", "dims", "neither", "detail", "wall", "name", "mix", "tf", "rir", "start", "conv", "revstart", "type", "dtype", "bandbass"])
            p = rng.choice([-2, -1, 0, 1, 2, 3])
            if k == "alpha":
                p = rng.choice([-1, 0, 2, 3])
            if k == "dims":
                p = rng.choice([-1, 0, 1])
            e = dict(op="bad", kind=k, p=p)
        else:
            continue
        out.append(e)
    return out or [dict(op="info")]


BETA = {36: 8, 51: 7, 64: 6, 75: 5, 84: 4, 91: 3, 96: 2, 19: 9, 99: 1}


def rir(rng, d, out):
    """the last room has to have reflection factors known to one decimal"""
    last = next((e for e in reversed(out) if e["op"] in ("room", "detail")), None)
    if last is None or rng.random() < 0.6 or max(d) > 4:
        d2 = [rng.randint(2, 4) for _ in range(3)]
        a = rng.choice(list(BETA))
        out.append(dict(op="room", d=d2, alpha=a, t60=0))
        d = d2
        if rng.random() < 0.5:
            out.append(dict(op="detail", w=[[rng.choice(list(BETA))] for _ in range(6)]))
        last = out[-1]
    b = None
    if last["op"] == "room" and last["alpha"] in BETA:
        b = [BETA[last["alpha"]]] * 6
    elif last["op"] == "detail" and all(len(v) == 1 and v[0] in BETA for v in last["w"]):
        b = [BETA[v[0]] for v in last["w"]]
    if b is None:
        return None
    s, r = ([rng.randint(0, 2 * v) for v in d] for _ in range(2))
    if s == r:
        return None
    return dict(op="rir", s=s, r=r, L=rng.randint(4, 24), mo=rng.choice([-1, -1, 0, 1, 2]), b=b, detailed=last["op"] == "detail")


def analysis(rng):
    z = rng.random()
    ch = rng.randint(1, 3)
    if z < 0.25:
        fac = rng.choice([10, 100])
        while True:
            x = pad([decaying(rng, rng.randint(3, 12)) for _ in range(ch)])
            if all(safe(v, fac) for v in x):
                return dict(op="start", x=x, fac=fac)
    if z < 0.6:
        fs = rng.choice([100, 200])
        while True:
            x = pad([decaying(rng, rng.randint(20, 55), True) for _ in range(ch)])
            if all(safe(v, 10) for v in x):
                return dict(op="desc", x=x, fs=fs, kind=rng.choice(["D50", "C80", "TS"]), multi=rng.random() < 0.3)
    if z < 0.9:
        n, m = rng.choice([(rng.randint(4, 12), rng.randint(1, 12)), (rng.randint(60, 90), rng.randint(1, 4)), (rng.randint(16, 64), rng.randint(1, 4))])
        x = [[rng.randint(-9, 9) for _ in range(n)] for _ in range(ch)]
        if rng.random() < 0.2:
            x[rng.randrange(ch)] = [0] * n
        return dict(op="conv", x=x, h=[rng.randint(-5, 5) for _ in range(m)], len=rng.random() < 0.5, peak=rng.random() < 0.5)
    fs = [f for f in range(60, 190)]
    f = []
    for _ in range(rng.randint(1, 3)):
        c = [v for v in fs if all(abs(v - w) >= 15 for w in f)]
        f.append(rng.choice(c))
    return dict(op="findmodes", f=sorted(f), ch=rng.randint(1, 2), range=rng.choice([[50, 200], [40, 199]]))


def slow(rng):
    if rng.random() < 0.75:
        nb, ch = rng.choice([1, 1, 2, 3]), rng.randint(1, 3)
        plateau = rng.choice([0, 0, 0, 60])
        mode = rng.choice(["T20", "T30", "T60", "EDT", "Adaptive"])
        return dict(op="reverb", rt=[[rng.choice([200, 300, 420, 600, 900]) for _ in range(ch)] for _ in range(nb)], mode=mode, pre=rng.choice([0, 0, 50, 200]), plateau=plateau, arr=rng.random() < 0.5)
    return dict(op="bass", rt=[[rng.choice([300, 450, 600, 800]) for _ in range(4)] for _ in range(rng.randint(1, 2))])


def match(out, ob):
    if ob["ok"] != out["ok"] or not out["ok"]:
        return ob["ok"] == out["ok"]
    if out["kind"] == "modes":
        (m, *d), = out["res"]
        want = {(i, j, k) for i in range(m + 1) for j in range(m + 1) for k in range(m + 1)} - {(0, 0, 0)}
        f = lambda n: 5000 * math.sqrt(sum((a / b) ** 2 for a, b in zip(n, d)))
        return len(ob["res"]) == len(want) == len({tuple(r[1:]) for r in ob["res"]} & want) and \
            all(abs(r[0] - f(r[1:])) <= 2 for r in ob["res"]) and ob["res"] == sorted(ob["res"], key=lambda r: r[0])
    return len(out["res"]) == len(ob["res"]) and all(len(e) == len(o) and all(abs(b - a[0]) <= a[1] for a, b in zip(e, o)) for e, o in zip(out["res"], ob["res"]))


def run(c: Check):
    c.generate("RoomsGen", Ad, match, limit=c.n(1200, 4000))
    c.drive("RoomsTrace", Ad, [(dict(i=0), resonant(c.rng)) for _ in range(c.n(100, 1000))])
    c.drive("RoomsTrace", Ad, [(dict(i=0), events(c.rng)) for _ in range(c.n(400, 2500))])
    c.drive("RoomsTrace", Ad, [(dict(i=0), [analysis(c.rng) for _ in range(c.rng.randint(2, 6))]) for _ in range(c.n(400, 3000))])
    c.drive("RoomsTrace", Ad, [(dict(i=0), [slow(c.rng) for _ in range(2)]) for _ in range(c.n(48, 150))])
