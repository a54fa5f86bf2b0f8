"""P15: calibration and audio input/output (spec/Measure.tla).  The functions
of sounddevice are replaced by a device that exists in memory only."""

import builtins
import contextlib
import io
import os
import tempfile

import numpy as np
import sounddevice as sd
from common import Adapter, BAD, Check, MachineryError, dsp, fx

OUT, IN = 4, 4
NAMES = ["Mic Array", "Speaker", "array b", "SPEAKER two"]
STRINGS = ["array", "Array", "speaker", "SPEAKER", "b", "none", "Speaker t", "mic array", "AY B"]


class Default:
    """sounddevice.default"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.__dict__.update(_dev=["default", "default"], samplerate=None, latency=("high", "high"), blocksize=0)

    def pair(self):
        return [str(z) for z in self._dev]

    def __setattr__(self, k, v):
        if k == "device":
            v = list(v) if isinstance(v, (list, tuple)) else [v, v]
            self.__dict__["_dev"] = v
        else:
            self.__dict__[k] = v

    def __getattr__(self, k):
        if k == "device":
            return self.__dict__["_dev"]
        raise AttributeError(k)


class Device:
    def __init__(self):
        self.outs = [[] for _ in range(OUT)]
        self.rate = None
        self.calls = 0

    def play_(self, data, rate, mapping):
        data = np.asarray(data)
        data = data[:, None] if data.ndim == 1 else data
        mapping = list(range(1, data.shape[1] + 1)) if mapping is None else list(mapping)
        if len(mapping) != data.shape[1] or len(set(mapping)) != len(mapping) or min(mapping) < 1 or max(mapping) > OUT:
            raise ValueError("mapping")
        self.outs = [[] for _ in range(OUT)]
        for k, o in enumerate(mapping):
            self.outs[o - 1] = data[:, k].astype(float).tolist()
        self.rate = rate
        self.calls += 1

    def rec_(self, frames, rate, mapping, channels):
        mapping = list(range(1, (channels or 1) + 1)) if mapping is None else list(mapping)
        if min(mapping) < 1 or max(mapping) > IN:
            raise ValueError("mapping")
        self.rate = rate
        self.calls += 1
        return np.stack([(10 * c + np.arange(frames)) / 128 for c in mapping], axis=1).astype(np.float32)


DEV, DEFAULT, STREAM = Device(), Default(), {}


def play(data, samplerate=None, mapping=None, blocking=False, loop=False, **kw):
    DEV.blocking = blocking
    DEV.play_(data, samplerate, mapping)


def rec(frames=None, samplerate=None, channels=None, dtype=None, out=None, mapping=None, blocking=False, **kw):
    if not isinstance(frames, (int, np.integer)):
        raise TypeError("frames")
    DEV.blocking = blocking
    return DEV.rec_(frames, samplerate, mapping, channels)


def playrec(data, samplerate=None, channels=None, dtype=None, out=None, input_mapping=None, output_mapping=None, blocking=False, **kw):
    DEV.blocking = blocking
    r = DEV.rec_(len(data), samplerate, input_mapping, channels)
    DEV.play_(data, samplerate, output_mapping)
    return r


def query_devices(device=None, kind=None):
    lst = [dict(name=n, index=k) for k, n in enumerate(NAMES)]
    return lst if device is None else lst[device]


class Stream:
    def __init__(self, **kw):
        STREAM.clear()
        STREAM.update(kw)


def wait(*a, **k):
    DEV.blocking = True


for _n, _f in dict(play=play, rec=rec, playrec=playrec, query_devices=query_devices, OutputStream=Stream, default=DEFAULT, wait=wait, sleep=lambda ms: None).items():
    setattr(sd, _n, _f)


class Ad(Adapter):
    def __init__(self, init):
        super().__init__(init)
        DEFAULT.reset()
        self.cal = dsp().CalibrationData((np.array(init["cal"], float).T / 16, init["fs"]), init["spl"], init["high"])
        self.fs = init["fs"]

    def sig(self, b, fs, im=False, cls=None):
        x = np.array(b, float).T / 16
        if im:
            x = x + 1j * x[::-1]
        return (cls or dsp().Signal)(None, x, fs)

    def apply(self, ev):
        d = dsp()
        self.watch = []
        ok, res, more = True, [], []
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                res, more = getattr(self, "do_" + ev["op"])(ev, d)
            except (AssertionError, ValueError, TypeError, IndexError):
                ok = False
            except MachineryError:
                raise
        touched = any(not np.array_equal(s.time_data, t) or (s.is_complex_signal != (i is not None)) or
                      (i is not None and not np.array_equal(s.time_data_imaginary, i)) or s.calibrated_signal for s, t, i in self.watch)
        return dict(ok=ok, res=res, more=more, touched=bool(touched), dev=DEFAULT.pair(),
                    defaults=[str(DEFAULT.samplerate or 0), *DEFAULT.latency, str(DEFAULT.blocksize)])

    def keep(self, s):
        for z in getattr(s, "bands", [s]):
            self.watch.append((z, z.time_data.copy(), None if z.time_data_imaginary is None else z.time_data_imaginary.copy()))
        return s

    # -- calibration
    def do_addch(self, ev, d):
        fs = self.fs if ev["same"] else self.fs + 1000
        x = np.array(ev["b"], float).T / 16
        if ev["how"] == "tuple":
            n = (x, fs)
        elif ev["how"] == "signal":
            n = self.keep(self.sig(ev["b"], fs))
        else:
            with tempfile.TemporaryDirectory() as t:
                p = os.path.join(t, "cal.wav")
                self.sig(ev["b"], fs).save_signal(p[:-4], "wav", 24)
                self.cal.add_calibration_channel(p, ev["fit"])
            return [], []
        self.cal.add_calibration_channel(n, ev["fit"])
        return [], []

    def do_setcal(self, ev, d):
        self.cal.calibration_spl_db = ev["spl"]
        self.cal.high_snr = ev["high"]
        self.spl = ev["spl"]
        return [], []

    def do_calibrate(self, ev, d):
        bands = [self.sig(b, self.fs, ev["im"]) for b in ev["b"]]
        s = bands[0] if len(bands) == 1 else d.MultiBandSignal(bands)
        self.keep(s)
        c0 = self.cal.calibration_signal
        before = c0.time_data.copy(), c0.spectrum_method, c0.spectrum_scaling
        o = self.cal.calibrate_signal(s, ev["force"])
        c1 = self.cal.calibration_signal
        if c1.time_data.shape != before[0].shape or not np.array_equal(c1.time_data, before[0]) or (c1.spectrum_method, c1.spectrum_scaling) != before[1:]:
            return [[[BAD]]], ["calibration data changed"]
        res = []
        for z, b in zip(getattr(o, "bands", [o]), bands):
            if not z.calibrated_signal or z.constrain_amplitude or z.sampling_rate_hz != self.fs or type(z) is not type(b):
                return [[[BAD]]], ["settings"]
            y = z.time_data
            if ev["im"]:
                if z.time_data_imaginary is None or z.time_data_imaginary.shape != z.time_data.shape or not np.allclose(z.time_data_imaginary, z.time_data[::-1], atol=1e-12):
                    return [[[BAD]]], ["imaginary"]
            res.append(y)
        return [[[fx(np.sign(v) * v**2, 1e3) for v in c] for c in y.T] for y in res], []

    # -- device
    def outputs(self):
        return [[fx(v, 1e4) for v in c] for c in DEV.outs]

    def level(self, ev):
        return None if ev["level"] == 0 else 20 * np.log10(ev["level"] / 1e4)

    def args(self, ev):
        s = self.keep(self.sig(ev["b"], ev["fs"]))
        m = ev["map"]
        m = None if not m else (m[0] if len(m) == 1 and ev["fs"] % 3 else (tuple(m) if ev["fs"] % 2 else list(m)))
        return s, (None if ev["dur"] == 0 else ev["dur"] / ev["fs"]), self.level(ev), ev["dev"] or None, m

    def do_play(self, ev, d):
        DEV.calls, DEV.blocking = 0, False
        d.audio_io.play(*self.args(ev))
        if DEV.calls != 1 or not DEV.blocking:
            return [[BAD]], []
        return self.outputs(), [str(DEV.rate)]

    def recorded(self, r, ev):
        if r.sampling_rate_hz != ev["fs"] or r.number_of_channels != len(ev["rec"]):
            return [[BAD]]
        return [[fx(v, 128) for v in c] for c in r.time_data.T]

    def rmap(self, ev):
        r = ev["rec"]
        return r[0] if len(r) == 1 and ev["fs"] % 3 else (tuple(r) if ev["fs"] % 2 else list(r))

    def do_record(self, ev, d):
        DEV.calls, DEV.blocking = 0, False
        r = d.audio_io.record(ev["dur"] / ev["fs"], ev["fs"], ev["dev"] or None, self.rmap(ev))
        if DEV.calls != 1 or not DEV.blocking:
            return [[BAD]], []
        return self.recorded(r, ev), [str(DEV.rate)]

    def do_playrec(self, ev, d):
        DEV.calls, DEV.blocking = 0, False
        r = d.audio_io.play_and_record(*self.args(ev), self.rmap(ev))
        if not DEV.blocking:
            return [[[BAD]]], []
        return [self.outputs(), self.recorded(r, ev)], [str(DEV.rate)]

    def do_setdev(self, ev, d):
        v = list(ev["names"]) or list(ev["ids"])
        if ev["mixed"]:
            v = [v[0], 0 if isinstance(v[0], str) else "b"]
        elif len(v) == 1:
            v = v[0]
        rate = ev["rate"] or None
        if ev["rate"] and not ev["names"] and not ev["mixed"] and len(ev["ids"]) <= 2 and ev["ids"][0] % 2:
            old, builtins.input = builtins.input, lambda *a: ", ".join(map(str, ev["ids"]))
            try:
                d.audio_io.set_device(None, rate)
            finally:
                builtins.input = old
        else:
            d.audio_io.set_device(v, rate)
        return [], []

    def do_setlat(self, ev, d):
        d.audio_io.set_latency(ev["a"], ev["b"])
        return [], []

    def do_setblk(self, ev, d):
        d.audio_io.set_blocksize(ev["n"])
        return [], []

    def do_stream(self, ev, d):
        d.audio_io.output_stream(self.keep(self.sig(ev["b"], ev["fs"])), ev["n"])
        return [], [str(STREAM.get(k)) for k in ("samplerate", "channels", "blocksize")]


def power2(c):
    """rms of the channel: squared time 1 kHz component times L, and square sum"""
    x = np.array(c)
    z = (x * np.exp(-1j * np.pi / 2 * np.arange(len(x)))).sum()
    return int(round(abs(z) ** 2)), int((x**2).sum())


def recording(rng, n):
    while True:
        k = rng.random()
        if k < 0.4:  # tone, offset and hum
            a, b, o, h = (rng.randint(-9, 9) for _ in range(4))
            c = [[a, b, -a, -b][t % 4] + o + (h if t % 2 else -h) for t in range(n)]
        else:
            c = [rng.randint(-12, 12) for _ in range(n)]
        comp, sq = power2(c)
        if max(map(abs, c)) <= 15 and sq >= 4 * n and comp % n == 0 and comp >= 8 * n * n:
            return c


def block(rng, nch, n, m=16):
    return [[rng.randint(-m, m) for _ in range(n)] for _ in range(nch)]


def peaky(rng, nch, n):
    while True:
        b = block(rng, nch, n, rng.choice([3, 16, 40]))
        if b[0][0]:
            return b


def script(rng, length):
    n = rng.choice([4, 8, 12, 16, 20])
    nch = rng.choice([1, 1, 2, 3])
    init = dict(cal=[recording(rng, n) for _ in range(nch)], fs=4000, spl=rng.choice([94, 104, 114]), high=rng.random() < 0.6)
    count, fresh, stale = nch, False, False
    evs = []
    for _ in range(length):
        k = rng.random()
        if k < 0.12 and count < min(5, n - 1):
            m = rng.choice([n, n, n + 4, n - 1])
            m = max(m, 3)
            fit = rng.random() < 0.5
            same = rng.random() < 0.85
            b = []
            for _ in range(rng.choice([1, 1, 2])):
                while True:
                    c = [rng.randint(-12, 12) for _ in range(m)] if m != n else recording(rng, n)
                    f = (c + [0] * n)[:n]
                    comp, sq = power2(f)
                    if sq >= 4 * n and comp % n == 0 and comp >= 8 * n * n:
                        break
                b.append(c)
            evs.append(dict(op="addch", b=b, same=same, fit=fit, how=rng.choice(["tuple", "signal", "file"])))
            if same and (m == n or fit):
                count += len(b)
                fresh = stale = False
        elif k < 0.2:
            evs.append(dict(op="setcal", spl=rng.choice([94, 104, 114]), high=rng.random() < 0.5))
            stale = fresh
        elif k < 0.5:
            c = rng.choice([count, count, count, 1, rng.randint(1, 4)])
            nb = rng.choice([1, 1, 2])
            m = rng.randint(max(2, c), 9)
            force = stale or rng.random() < 0.3
            evs.append(dict(op="calibrate", b=[block(rng, c, m) for _ in range(nb)], im=rng.random() < 0.3, force=force))
            fresh, stale = True, False
        elif k < 0.85:
            c = rng.randint(1, 4)
            m = rng.randint(max(3, c), 9)
            dur = rng.choice([0, 0, rng.randint(c, m), m + 3, -2])
            level = rng.choice([0, 0, 0, 10000, 5000, 1000, 5012, 20000])
            if level == 5012:
                level = 5011
            mp = rng.choice([[], rng.sample(range(1, 5), c), rng.sample(range(1, 5), c), rng.sample(range(1, 5), rng.randint(1, 4))])
            if rng.random() < 0.08 and mp:
                mp = [0] + mp[1:]
            rc = sorted(rng.sample(range(1, 5), rng.randint(1, min(3, c))))
            if rng.random() < 0.08:
                rc[0] = rng.choice([0, -1])
            op = rng.choice(["play", "playrec", "record"])
            ev = dict(op=op, b=block(rng, c, m) if not level else peaky(rng, c, m), fs=rng.choice([8000, 44100, 48000, 11025, 10001]), dur=dur, level=level,
                      dev=rng.choice(["", "", "A", "B"]), map=mp, rec=rc)
            if op == "play" and len(mp or ev["b"]) != c:
                ev["dev"] = ""
            if op == "record":
                ev["dur"] = max(abs(dur), len(rc))
            evs.append(ev)
        elif k < 0.95:
            z = rng.random()
            names, ids, mixed = [], [], False
            if z < 0.5:
                names = [rng.choice(STRINGS) for _ in range(rng.choice([1, 2, 2, 3]))]
            else:
                ids = [rng.randint(0, 5) for _ in range(rng.choice([1, 2, 2, 3]))]
            if rng.random() < 0.1:
                mixed = True
            evs.append(dict(op="setdev", names=names, ids=ids, mixed=mixed, rate=rng.choice([0, 44100, 48000])))
        elif k < 0.97:
            evs.append(dict(op="setlat", a=rng.random() < 0.5, b=rng.random() < 0.5))
        elif k < 0.98:
            evs.append(dict(op="setblk", n=rng.choice([64, 256])))
        else:
            evs.append(dict(op="stream", b=block(rng, rng.randint(1, 3), 6), fs=rng.choice([8000, 44100]), n=rng.choice([64, 128])))
    return init, evs


def match(out, ob):
    def close(e, o):
        return len(e) == len(o) and all(
            close(x, y) if isinstance(x[0] if isinstance(x, list) and x else 0, list) else abs(y - x[0]) <= x[1] for x, y in zip(e, o))

    def near(e, o, tol):
        return len(e) == len(o) and all(len(x) == len(y) and all(abs(a - b) <= tol for a, b in zip(x, y)) for x, y in zip(e, o))

    if ob.get("ok") != out["ok"] or ob["touched"] or ob["defaults"] != out["defaults"]:
        return False
    k, e, o = out["kind"], out["res"], ob["res"]
    if (out["ok"] or k == "none") and ob["dev"] != out["dev"]:
        return False
    if not out["ok"]:
        return True
    if k != "any" and ob["more"] != out["more"]:
        return False
    if k == "near":
        return close(e, o)
    if k == "play":
        return near(e, o, 1)
    if k == "rec":
        return near(e, o, 0)
    if k == "both":
        return len(o) == 2 and near(e[0], o[0], 1) and near(e[1], o[1], 0)
    return True


def run(c: Check):
    c.generate("MeasureGen", Ad, match, limit=c.n(4000, 40000))
    c.drive("MeasureTrace", Ad, [script(c.rng, c.rng.randint(3, 12)) for _ in range(c.n(3000, 40000))])
