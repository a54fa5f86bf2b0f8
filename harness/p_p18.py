"""P18: audio effects (spec/Effects.tla)."""

import contextlib
import io

import numpy as np
from common import Adapter, BAD, Check, MachineryError, dsp, fx

FS = 1000
INIT = dict(seed=0)
COMP = dict(knee=0, pre=0, post=0, mix=100, makeup=True, down=True)
DIST = dict(types=["Arctan", "NoDistortion"], lev=[4, 0], mix=[100, 0], off=[-1, -1], post=0)


class Ad(Adapter):
    def __init__(self, init):
        super().__init__(init)
        e = dsp().effects
        self.lfo = e.LFO(1)
        self.fx = dict(trem=e.Tremolo(0.5, self.lfo), chor=e.Chorus(5, 15, self.lfo), del_=e.DigitalDelay(), dist=e.Distortion(),
                       comp=e.Compressor(attack_time_ms=0, release_time_ms=4.2), sub=e.SpectralSubtractor(True, -23, 0.004))
        self.comp = dict(COMP)
        self.sub = dict(fac=20, exp=2, forget=9)
        self.set_sub({})

    def apply(self, ev):
        self.watch = []
        ok, o = True, {}
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                o = getattr(self, "do_" + ev["op"])(ev) or {}
        except MachineryError:
            raise
        except (AssertionError, ValueError, TypeError, IndexError, AttributeError):
            ok = False
        touched = any(not np.array_equal(a() if callable(a) else a, b) for a, b in self.watch)
        return dict(ok=ok, res=o.get("res", []), rms=o.get("rms", []), touched=bool(touched))

    def keep(self, a, b=None):
        self.watch.append((a, (a() if callable(a) else a).copy()))
        return a

    # --- settings
    def do_set(self, ev):
        getattr(self, "set_" + ev["e"])(ev["s"])

    def set_lfo(self, s):
        f = s.get("f")
        if f is not None:
            f = f[0] / f[1] if f[1] != 1 else f[0]
            if "rhythm" in s:
                f = (self.note(s["rhythm"]), s["rhythm"]["bpm"])
        self.lfo.set_parameters(frequency_hz=f, waveform=s.get("w"))

    def set_trem(self, s):
        k = {}
        if "lfo" in s:
            k["modulator"] = self.lfo if s["lfo"] else self.keep(np.array(s["arr"]) / 10)
        if "depth" in s:
            k["depth"] = s["depth"] / 100
        self.fx["trem"].set_parameters(**k)

    def set_chor(self, s):
        k = {}
        if "base" in s:
            k["base_delays_ms"] = s["base"][0] if len(s["base"]) == 1 else self.keep(np.array(s["base"], float))
        if "depth" in s:
            k["depths_ms"] = self.keep(np.array(s["depth"], float)) if len(s["depth"]) > 1 else s["depth"][0]
        if "lfo" in s:
            n = max(len(s.get("base", [0])), len(s.get("depth", [0])))
            k["modulators"] = (self.lfo if n == 1 or s["base"][0] % 2 else [self.lfo] * n) if s["lfo"] else self.keep(np.array(s["arr"]).T / 10)
        if "mix" in s:
            k["mix_percent"] = s["mix"]
        self.fx["chor"].set_parameters(**k)

    def set_del(self, s):
        self.fx["del_"].set_parameters(**{n: v for n, v in (("delay_time_ms", s.get("ms")), ("feedback", s["fb"] / 10 if "fb" in s else None)) if v is not None})
        if "sat" in s:
            self.fx["del_"].set_advanced_parameters(dict(none=None, arctan="arctan", clip=lambda v: float(max(-0.3, min(0.3, v))))[s["sat"]])

    def set_dist(self, s):
        T = dsp().effects.DistortionType
        typ = [T[t] for t in s["types"]]
        off = [-np.inf if o < 0 else -5.0 * o for o in s["off"]]
        lev = [5.0 * v for v in s["lev"]]
        if len(typ) == 2 and s["types"][1] == "NoDistortion" and s["lev"][1] == 0:
            self.fx["dist"].set_advanced_parameters(typ[0], lev[0], s["mix"][0], off[0], 5.0 * s["post"])
        else:
            self.fx["dist"].set_advanced_parameters(typ, self.keep(np.array(lev)), self.keep(np.array(s["mix"], float)), self.keep(np.array(off)), 5.0 * s["post"])

    def set_comp(self, s):
        names = dict(thr="threshold_dbfs", att="attack_time_ms", rel="release_time_ms", rel_peak="relative_to_peak_level")
        k = {names[n]: (s[n] + 0.2 if n in ("att", "rel") and s[n] else s[n]) for n in names if n in s}
        if "ratio" in s:
            k["ratio"] = s["ratio"][0] / s["ratio"][1] if s["ratio"][0] else np.inf
        self.fx["comp"].set_parameters(**k)
        a = {n: s[n] for n in COMP if n in s}
        if a:
            self.comp.update(a)
            c = self.comp
            self.fx["comp"].set_advanced_parameters(c["knee"], c["pre"], c["post"], c["mix"], c["makeup"], c["down"])

    def set_sub(self, s):
        d = dsp()
        spec = None if "spec" not in s else self.keep(np.array(s["spec"], float) / 1e4) if s["spec"] else False
        self.fx["sub"].set_parameters(s.get("adaptive"), -10 * s["thr"] - 3 if "thr" in s else None, None, spec)
        self.sub.update({n: s[n] for n in ("fac", "exp", "forget") if n in s})
        self.fx["sub"].set_advanced_parameters(0, d.Window.Boxcar, self.sub["forget"] / 10, self.sub["fac"] / 10, self.sub["exp"], 0, 0)

    def do_bad(self, ev):
        f = {"del": "del_"}.get(ev["e"], ev["e"])
        self.fx[f].set_parameters(**{ev["name"]: ev["v"]})

    # --- application
    def sig(self, x):
        d = dsp()
        x = np.asarray(x, float).T
        s = (d.ImpulseResponse if len(x) % 3 == 0 else d.Signal)(None, x, FS, constrain_amplitude=False)
        self.keep(lambda: s.time_data)
        return s

    def out(self, e, x, ev):
        d = dsp()
        s = self.sig(x)
        f = self.fx[{"del": "del_"}.get(e, e)]
        if ev.get("mbs"):
            s2 = self.sig(np.asarray(x)[:, ::-1])
            m = d.MultiBandSignal([s2, s], same_sampling_rate=True)
            o = f.apply(m)
            if type(o) is not d.MultiBandSignal or len(o.bands) != 2 or o is m:
                return None, None
            o = o.bands[1]
        else:
            o = f.apply(s)
        if type(o) is not type(s) or o is s or o.sampling_rate_hz != FS or np.shares_memory(o.time_data, s.time_data):
            return s, None
        return s, o.time_data.T

    def do_apply(self, ev):
        if ev["e"] == "comp":
            x = [[0 if v == 0 else np.sign(v) * 10.0 ** (-(abs(v) - 1) / 4) for v in c] for c in ev["x"]]
        else:
            x = np.array(ev["x"]) / 100
        s, y = self.out(ev["e"], x, ev)
        if y is None:
            return dict(res=[[BAD]])
        rms = []
        if ev["e"] == "comp" and self.comp["makeup"]:
            r = lambda v: np.sqrt(np.mean(v**2))
            x = s.time_data.T
            rms = [fx(r(a) / r(b) if r(b) else r(a), 1000) for a, b in zip(y, x)]
            y = [c / (np.max(np.abs(c)) or 1) for c in y]
        return dict(res=[[fx(v, 10000) for v in c] for c in y], rms=rms)

    def do_static(self, ev):
        y = []
        for k in (1, 2):
            sub = dsp().effects.SpectralSubtractor(False, float(-40 + 20 * np.log10(k)), 8 / FS)
            x = np.array(ev["quiet"] * ev["nq"] + ev["loud"] * ev["nl"]) / 1000 * k
            y.append(sub.apply(dsp().Signal(None, x, FS)).time_data[:, 0])
        return dict(res=[[fx(v, 10000) for v in y[1] - 2 * y[0]], [int(np.max(np.abs(y[1] - x)[: 8 * ev["nq"]]) > 1e-4)]])

    def note(self, r):
        return ("dotted " if r["dot"] else "") + r["note"] + (" 3" if r["tri"] else "")

    def do_rhythm(self, ev):
        e = dsp().effects
        r = ev["r"]
        return dict(res=[[fx(e.get_frequency_from_musical_rhythm(self.note(r), r["bpm"]), 1000), fx(e.get_time_period_from_musical_rhythm(self.note(r), r["bpm"]), 1000)]])

    def do_wave(self, ev):
        return dict(res=[[fx(v, 10000) for v in self.lfo.get_waveform(FS, ev["n"])]])


def note(rng):
    return dict(note=rng.choice(["quarter", "half", "whole", "eighth", "sixteenth", "32th", "quintuplet"]), tri=rng.random() < 0.3, dot=rng.random() < 0.3,
                bpm=rng.choice([60, 90, 120, 125, 75]))


def rfreq(r):
    b = dict(quarter=(1, 1), half=(2, 1), whole=(4, 1), eighth=(1, 2), sixteenth=(1, 4), quintuplet=(1, 5))
    b["32th"] = (1, 8)
    p, q = b[r["note"]]
    if r["tri"]:
        p, q = p * 2, q * 3
    if r["dot"]:
        p, q = p * 3, q * 2
    return [r["bpm"] * q, 60 * p]


def chans(rng, m=100, lo=4, hi=40):
    n = rng.randint(lo, hi)
    c = [[rng.randint(-m, m) for _ in range(n)] for _ in range(rng.randint(1, 3))]
    c[0][rng.randrange(n)] = m
    if rng.random() < 0.15:
        c[-1] = [0] * n
    return c


class Gen:
    """A script; tracks the settings to stay where the model applies."""

    def __init__(self, rng):
        self.rng = rng
        self.lfo = dict(f=[1, 1], w="harmonic")
        self.trem_lfo = True
        self.chor = dict(lfo=True, voices=1, dep=[5])
        self.comp = dict(down=True, pre=0, ratio=[3, 1])
        self.sub = dict(adaptive=True)

    def dyadic(self):
        return self.lfo["f"] in ([125, 1], [250, 1])

    def chor_ok(self):
        if not self.chor["lfo"]:
            return True
        f, w = self.lfo["f"], self.lfo["w"]
        if f == [250, 1]:
            return w in ("harmonic", "triangle") or w == "sawtooth" and all(d % 2 == 0 for d in self.chor["dep"])
        if f == [125, 1]:
            return w == "harmonic" or w == "triangle" and all(d % 2 == 0 for d in self.chor["dep"]) or w == "sawtooth" and all(d % 4 == 0 for d in self.chor["dep"])
        return False

    def event(self):
        rng = self.rng
        z = rng.random()
        mbs = rng.random() < 0.15
        if z < 0.1:
            s = {}
            if rng.random() < 0.8:
                if rng.random() < 0.25:
                    r = note(rng)
                    s.update(f=rfreq(r), rhythm=r)
                else:
                    s["f"] = rng.choice([[125, 1], [250, 1], [125, 1], [250, 1], [37, 1], [5, 2], [100, 1], [333, 1]])
            if rng.random() < 0.7:
                s["w"] = rng.choice(["harmonic", "sawtooth", "square", "triangle"])
            n = dict(self.lfo, **{k: v for k, v in s.items() if k in ("f", "w")})
            if n["w"] == "sawtooth" and n["f"] not in ([125, 1], [250, 1]):
                s.update(f=[125, 1])
                s.pop("rhythm", None)
            self.lfo.update({k: v for k, v in s.items() if k in ("f", "w")})
            return dict(op="set", e="lfo", s=s)
        if z < 0.14:
            return dict(op="wave", n=rng.randint(5, 40)) if self.lfo["w"] != "square" else dict(op="rhythm", r=note(rng))
        if z < 0.17:
            return dict(op="rhythm", r=note(rng))
        if z < 0.21:
            return rng.choice([dict(op="bad", e="del", name="delay_time_ms", v=-1), dict(op="bad", e="del", name="feedback", v=0), dict(op="bad", e="comp", name="ratio", v=0.5),
                               dict(op="bad", e="comp", name="attack_time_ms", v=-1), dict(op="bad", e="chor", name="mix_percent", v=120),
                               dict(op="bad", e="comp", name="release_time_ms", v=-0.5), dict(op="bad", e="trem", name="modulator", v="sine")])
        e = rng.choice(["trem", "chor", "chor", "del", "dist", "dist", "comp", "comp", "comp", "sub", "sub"])
        if rng.random() < 0.5:
            return dict(op="set", e=e, s=getattr(self, "set_" + e)())
        if e == "comp":
            n = rng.randint(4, 30)
            low = 8 if not self.comp["down"] else 12
            x = [[rng.choice([-1, 1]) * rng.randint(1, low + 1) for _ in range(n)] for _ in range(rng.randint(1, 3))]
            if self.comp["down"]:
                x = [[v if rng.random() < 0.9 else 0 for v in c] for c in x]
                if rng.random() < 0.2:
                    x[-1] = [0] * n
            if rng.random() < 0.4:      # bursts
                x = [sorted(c, key=lambda v: (abs(v) > 4)) for c in x]
            return dict(op="apply", e=e, x=x, mbs=mbs)
        if e == "sub":
            if rng.random() < 0.25:
                big = lambda: [rng.choice([-1, 1]) * rng.randint(600, 900) for _ in range(8)]
                return dict(op="static", quiet=[rng.choice([-1, 1]) * rng.randint(1, 4) for _ in range(8)], loud=big(), nq=rng.randint(8, 12), nl=rng.randint(3, 5))
            n = rng.randint(3, 9) * 4 - rng.choice([0, 0, 1, 2, 3])
            x = []
            for _ in range(rng.randint(1, 3)):
                c = []
                while len(c) < n:
                    m = rng.choice([4, 4, 100])
                    c += [rng.randint(-m, m) for _ in range(4)]
                c[0] = 100
                x.append(c[:n])
            return dict(op="apply", e=e, x=x, mbs=mbs)
        if e == "chor" and not self.chor_ok():
            self.lfo.update(f=[250, 1], w="harmonic")
            return dict(op="set", e="lfo", s=dict(f=[250, 1], w="harmonic"))
        return dict(op="apply", e=e, x=chans(rng), mbs=mbs)

    def set_trem(self):
        rng = self.rng
        s = {}
        if rng.random() < 0.6:
            s["depth"] = rng.randint(1, 20) * 5
        if rng.random() < 0.5:
            s["lfo"] = rng.random() < 0.5
            if not s["lfo"]:
                s["arr"] = [rng.randint(-20, 20) for _ in range(rng.randint(3, 50))]
        return s

    def set_chor(self):
        rng = self.rng
        s = {}
        v = self.chor["voices"]
        n = rng.randint(1, 4) if v == 1 else v
        for k in ("base", "depth"):
            if rng.random() < 0.6:
                s[k] = [rng.randint(1, 9) if k == "base" else rng.randint(0, 6) for _ in range(rng.choice([1, n]))]
        if rng.random() < 0.4:
            s["lfo"] = rng.random() < 0.5
            if not s["lfo"]:
                L = rng.randint(3, 50)
                s["arr"] = [[rng.randint(-3, 9) * 10 + rng.choice([0, 0, 4, -4]) for _ in range(L)] for _ in range(n)]
        elif not self.chor["lfo"] and n != v:
            s.update(lfo=True)
        if rng.random() < 0.5:
            s["mix"] = rng.choice([100, 50, 25, 10, 80])
        vv = max(v, len(s.get("base", [0])), len(s.get("depth", [0])), len(s.get("arr", [0])) if s.get("lfo") is False else 0)
        if s.get("lfo") is True and len(s.get("base", [0])) == 1 and len(s.get("depth", [0])) == 1:
            s.setdefault("base", [3])
        if "lfo" in s and s["lfo"] and "base" not in s:
            s["base"] = [rng.choice([1, 3])]
        if "lfo" in s:
            self.chor["lfo"] = s["lfo"]
        if "depth" in s:
            self.chor["dep"] = s["depth"]
        self.chor["voices"] = vv
        return s

    def set_del(self):
        rng = self.rng
        s = {}
        if rng.random() < 0.7:
            s["ms"] = rng.randint(1, 12)
        if rng.random() < 0.7:
            s["fb"] = rng.choice([1, 2, 4, 5, 6, 8])
        if rng.random() < 0.4:
            s["sat"] = rng.choice(["none", "arctan", "clip"])
        return s

    def set_dist(self):
        rng = self.rng
        n = rng.choice([1, 1, 2, 3])
        T = ["Arctan", "HardClip", "SoftClip", "NoDistortion"]
        if n == 1:
            m = rng.choice([100, 100, 40, 75, 0])
            return dict(types=[rng.choice(T), "NoDistortion"], lev=[rng.randint(-2, 4), 0], mix=[m, 100 - m], off=[rng.choice([-1, -1, 0, 1, 4]), -1], post=rng.choice([0, 0, -1, 1]))
        mix = {2: [30, 70], 3: [20, 50, 30]}[n]
        return dict(types=[rng.choice(T) for _ in range(n)], lev=[rng.randint(-2, 4) or 1 for _ in range(n)], mix=mix, off=[rng.choice([-1, -1, 0, 2]) for _ in range(n)], post=rng.choice([0, 0, -2, 1]))

    def set_comp(self):
        rng = self.rng
        s = {}
        for k, v in (("thr", rng.randint(-30, 0)), ("att", rng.randint(0, 4)), ("rel", rng.randint(0, 4)), ("rel_peak", rng.random() < 0.5)):
            if rng.random() < 0.5:
                s[k] = v
        if rng.random() < 0.3:
            s["thr"] = -5 * rng.randint(0, 4)
        if rng.random() < 0.6:
            down = rng.random() < 0.7
            s.update(knee=rng.choice([0, 0, 4, 10]), pre=rng.choice([0, 0, 5, -10]) if down else rng.choice([0, -5]), post=rng.choice([0, 0, 5, -5]),
                     mix=rng.choice([100, 100, 50, 20]), makeup=rng.random() < 0.4, down=down)
            self.comp["down"] = down
        if rng.random() < 0.5 or not self.comp["down"]:
            s["ratio"] = rng.choice([[1, 1], [3, 2], [2, 1], [4, 1], [3, 1], [0, 1]]) if self.comp["down"] else rng.choice([[3, 2], [2, 1], [1, 1]])
        return s

    def set_sub(self):
        rng = self.rng
        s = {}
        if rng.random() < 0.6:
            s.update(adaptive=rng.random() < 0.6, spec=[] if rng.random() < 0.5 else [rng.randint(0, 900) for _ in range(3)])
            if not s["spec"]:
                s["adaptive"] = True
            elif not any(s["spec"]):
                s["spec"][0] = 5
        if rng.random() < 0.4:
            s["thr"] = rng.randint(0, 3)
        if rng.random() < 0.5:
            s.update(fac=rng.choice([11, 21, 5, 37]), exp=rng.choice([1, 2, 2]), forget=rng.randint(5, 9))
        return s


def script(rng, length):
    g = Gen(rng)
    evs = [dict(op="set", e="chor", s=dict(base=[4], depth=[2])), dict(op="set", e="lfo", s=dict(f=[250, 1])), dict(op="set", e="del", s=dict(ms=3))]
    g.lfo["f"] = [250, 1]
    g.chor["dep"] = [2]
    while len(evs) < length + 3:
        e = g.event()
        evs.append(e)
    return INIT, evs


def match(out, ob):
    def close(e, o):
        if isinstance(e[0], int):
            return abs(o - e[0]) <= e[1]
        return len(e) == len(o) and all(close(x, y) for x, y in zip(e, o))

    if ob["ok"] != out["ok"] or ob["touched"]:
        return False
    return not out["ok"] or out["kind"] == "none" or close(out["res"], ob["res"])


def run(c: Check):
    c.generate("EffectsGen", Ad, match, limit=c.n(3000, 8000))
    c.drive("EffectsTrace", Ad, [script(c.rng, c.rng.randint(4, 14)) for _ in range(c.n(1500, 12000))])
