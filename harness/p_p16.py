"""P16: impulse responses: convolution, deconvolution, windows, conversions
(spec/ImpResp.tla)."""

import math

import numpy as np
from common import Adapter, BAD, Check, MachineryError, dsp, fx, tlc  # noqa: F401


def up(v, m):
    x = np.zeros(4 * m)
    x[::m] = v
    return x


def cx(z, k=1000):
    return [[[fx(v.real, k), fx(v.imag, k)] for v in c] for c in np.asarray(z).T]


def cols(x, k):
    return [[fx(v, k) for v in c] for c in np.asarray(x).T]


class Ad(Adapter):
    def __init__(self, init):
        super().__init__(init)
        self.set_ = init["set"]

    def settings(self, s):
        d = dsp()
        S = d.SpectrumScaling
        if self.set_ == 1:
            s.set_spectrum_parameters(method=s.spectrum_method, pad_to_fast_length=False)
        elif self.set_ == 2:
            s.set_spectrum_parameters(method=d.SpectrumMethod.FFT, scaling=S.FFTForward)
        elif self.set_ == 3:
            s.set_spectrum_parameters(method=d.SpectrumMethod.FFT, smoothing=3)
        elif self.set_ == 4:
            s.set_spectrum_parameters(method=d.SpectrumMethod.WelchPeriodogram, window_length_samples=8)
        elif self.set_ == 5:
            s.set_spectrum_parameters(method=d.SpectrumMethod.FFT, scaling=S.PowerSpectrum)
        return s

    def make(self, cls, x, fs=8000, con=False, plain=False):
        s = cls(None, np.asarray(x, float), fs, constrain_amplitude=con)
        if not plain:
            self.settings(s)
        self.watch.append((s, s.time_data.copy(), str(s._spectrum_parameters)))
        return s

    def sig(self, x, fs=8000, **k):
        return self.make(dsp().Signal, x, fs, **k)

    def ir(self, x, fs=8000, **k):
        return self.make(dsp().ImpulseResponse, x, fs, **k)

    def apply(self, ev):
        d = dsp()
        self.watch = []
        ok, res, more = True, [], []
        try:
            r = getattr(self, "do_" + ev["op"])(ev, d, d.transfer_functions)
            res, more = r if isinstance(r, tuple) else (r, [])
        except (AssertionError, ValueError, TypeError, IndexError):
            ok = False
        except MachineryError:
            raise
        touched = any(not np.array_equal(s.time_data, t) or str(s._spectrum_parameters) != p for s, t, p in self.watch)
        return dict(ok=ok, res=res, more=more, touched=bool(touched))

    def do_set(self, ev, d, tf):
        self.set_ = ev["set"]
        return []

    def do_conv(self, ev, d, tf):
        x = self.sig(np.array(ev["b"]).T / 32, con=ev["op"] == "x")
        h = self.ir(np.array(ev["hs"]).T / 16, 8000 if ev["same"] else 9000)
        o = d.room_acoustics.convolve_rir_on_signal(x, h, ev["peak"], ev["keep"])
        if type(o) is not d.Signal or o.sampling_rate_hz != 8000:
            return [[BAD]]
        return cols(o.time_data, 3200 if ev["peak"] else 51200)

    def do_filt(self, ev, d, tf):
        x = self.sig(np.array(ev["b"]).T / 32)
        c = ev["ch"]
        h = np.zeros((max(len(ev["h"]), c + 2), c + 2))
        h[: len(ev["h"]), c] = np.array(ev["h"]) / 16
        h[0, c + 1] = 0.3
        f = tf.ir_to_filter(self.ir(h), c, ev["how"])
        return cols(f.filter_signal(x).time_data, 51200)

    def do_bank(self, ev, d, tf):
        n = max(len(h) for h in ev["hs"])
        h = np.array([list(z) + [0] * (n - len(z)) for z in ev["hs"]]).T / 16
        f = tf.ir_to_filter(self.ir(h), None)
        o = f.filter_signal(self.sig(np.array(ev["b"]).T / 32), d.FilterBankMode.Parallel)
        return [cols(b.time_data, 51200)[0] for b in o.bands]

    def do_toir(self, ev, d, tf):
        fs = [d.Filter.from_ba(np.array(h) / 16, [1.0], 8000) for h in ev["hs"]]
        if not ev["same"]:
            fs[-1] = d.Filter.from_ba(np.array(ev["hs"][-1]) / 16, [1.0], 9000)
        if ev["iir"]:
            fs[0] = d.Filter.from_ba([1.0, 0.2], [1.0, 0.5], 8000)
        o = tf.filter_to_ir(fs[0] if len(fs) == 1 else d.FilterBank(fs, same_sampling_rate=ev["same"]))
        if type(o) is not d.ImpulseResponse or o.sampling_rate_hz != 8000:
            return [[BAD]]
        return cols(o.time_data, 1600)

    def do_getir(self, ev, d, tf):
        return cols(d.Filter.from_ba(np.array(ev["h"]) / 16, [1.0], 8000).get_ir(ev["n"]).time_data, 1600)

    def do_deconv(self, ev, d, tf):
        x, h = np.array(ev["x"], float), np.array(ev["h"], float)
        n = x.shape[1]
        y = []
        for k in range(len(h)):
            z = np.convolve(x[k if len(x) > 1 and k < len(x) else 0], h[k])
            y.append(z[:n] + np.pad(z[n : 2 * n], (0, 2 * n - max(n, len(z[: 2 * n])))))
        o = tf.spectral_deconvolve(self.sig(np.array(y).T), self.sig(x.T), apply_regularization=False, padding=ev["pad"], keep_original_length=ev["keep"])
        if type(o) is not d.ImpulseResponse or o.sampling_rate_hz != 8000:
            return [[BAD]]
        return cols(o.time_data, 1e4)

    def do_circ(self, ev, d, tf):
        y = np.array(ev["y"], float).T
        if ev["badlen"]:
            y = np.vstack([y, y[:1]])
        o = tf.spectral_deconvolve(self.sig(y), self.sig(np.array(ev["x"], float).T), apply_regularization=False, padding=ev["pad"])
        return cols(o.time_data, 1e4)

    def do_reg(self, ev, d, tf):
        m = ev["m"]
        x = np.stack([up(v, m) for v in ev["x"]], 1)
        y = np.stack([up(v, m) for v in ev["y"]], 1)
        th = -30.0 if ev["th"] == 1 else 10 * math.log10((ev["th"] + 0.5) / 1000)
        o = tf.spectral_deconvolve(self.sig(y, 4 * m), self.sig(x, 4 * m), start_stop_hz=list(ev["band"]) or None, threshold_db=th)
        return cx(np.fft.rfft(o.time_data, axis=0))

    def windowed(self, o, x, pos, d):
        if type(o) is not d.ImpulseResponse or not hasattr(o, "window"):
            return [[[BAD]]], []
        w = o.window
        return [[[fx(v, 1e4) for v in w[:, k]], [fx(v, 1e3) for v in o.time_data[:, k]]] for k in range(w.shape[1])], pos

    def do_winir(self, ev, d, tf):
        W = d.Window
        x = self.ir(np.array(ev["b"], float).T)
        wt = W[ev["wl"]] if ev["wl"] == ev["wr"] else [W[ev["wl"]], W[ev["wr"]]]
        o, s = tf.window_ir(x, ev["T"], ev["adaptive"], ev["cn"] / ev["cd"], wt, ev["start"], ev["off"], ev["rn"] / ev["rd"])
        return self.windowed(o, x, [int(v) for v in s], d)

    def do_wincen(self, ev, d, tf):
        x = self.ir(np.array(ev["b"], float).T)
        o, s = tf.window_centered_ir(x, ev["T"], d.Window[ev["wl"]])
        return self.windowed(o, x, [int(v) for v in s], d)

    def do_tukey(self, ev, d, tf):
        x = self.ir(np.array(ev["b"], float).T)
        o = tf.window_ir_tukey(x, ev["l"] / 8000 or None, ev["r"] / 8000 or None, d.Window[ev["wl"]])
        return self.windowed(o, x, [], d)

    def do_trim(self, ev, d, tf):
        rs = np.random.RandomState(ev["seed"])
        n = ev["n"]
        b = np.zeros((n, len(ev["b"])))
        for k, c in enumerate(ev["b"]):
            p = max(range(len(c)), key=lambda i: abs(c[i]))
            b[:, k] = rs.randn(n) * 1e-4
            b[p:, k] += rs.randn(n - p) * np.exp(-np.arange(n - p) / 150) * 0.1
            b[: len(c), k] = np.array(c) / 16
        x = self.ir(b)
        single = len(ev["chs"]) == 1 and ev["single"]
        o, s, e = tf.trim_ir(x, ev["chs"][0] - 1 if single else None, None if ev["off"] == n else ev["off"] / 8000)
        src = b[:, ev["chs"][0] - 1][:, None] if single else b
        if not np.array_equal(o.time_data, src[s:e]) or not s < e <= n or type(o) is not d.ImpulseResponse:
            return [], [BAD]
        return [], [int(s)]

    def do_avg(self, ev, d, tf):
        x = np.zeros((ev["n"], len(ev["d"])))
        for k, (a, dl) in enumerate(zip(ev["a"], ev["d"])):
            x[dl : dl + len(ev["pulse"]), k] = np.array(ev["pulse"]) / ev["pulse"][0] * a / 16
        o = tf.average_irs(self.ir(x), ev["time"], ev["norm"])
        return cols(o.time_data, 16000)

    def do_latency(self, ev, d, tf):
        x = np.zeros((ev["n"], len(ev["d"])))
        for k, (a, dl) in enumerate(zip(ev["a"], ev["d"])):
            x[dl, k] = a / 16
        return [[fx(v, 1e3) for v in tf.find_ir_latency(self.ir(x), ev["time"])]]

    def poly(self, f):
        p = np.array([1.0])
        for z in f:
            p = np.convolve(p, z)
        return p

    def do_minph(self, ev, d, tf):
        ps = [self.poly(f) for f in ev["f"]]
        x = np.zeros((ev["n"], len(ps)))
        for k, p in enumerate(ps):
            x[ev["d"] : ev["d"] + len(p), k] = p
        if ev["how"] == "filter":
            return [cols(tf.ir_to_filter(self.ir(x, plain=True), k, "min").ba[0][:, None], 100)[0] for k in range(len(ps))]
        return cols(tf.min_phase_ir(self.ir(x), ev["how"] == "cepstrum").time_data, 100)

    def do_minphase(self, ev, d, tf):
        x = np.zeros((4 * ev["m"], len(ev["f"])))
        for k, f in enumerate(ev["f"]):
            x[::ev["m"], k] = np.pad(self.poly(f), (0, 4))[:4]
        f, p = tf.minimum_phase(self.ir(x, 4 * ev["m"]), True, ev["pf"])
        if len(f) != len(p) or not np.allclose(f[:: ev["pf"]], np.arange(2 * ev["m"] + 1)):
            return [[[BAD, BAD]]]
        return cx(np.exp(1j * p[:: ev["pf"]]))

    def do_gd(self, ev, d, tf):
        m = ev["m"]
        x = np.stack([up(v, m) for v in ev["v"]], 1)
        if ev["how"] == "filter":
            f = np.arange(2 * m + 1) * 2000 / m
            g = np.stack([d.Filter.from_ba(x[:, k], [1.0], 8000).get_group_delay(f) for k in range(x.shape[1])], 1)
        else:
            f, g = tf.group_delay(self.ir(x), True)
            if not np.allclose(f, np.arange(2 * m + 1) * 2000 / m):
                return [[BAD]]
        return cols(g, 8e6)

    def do_egd(self, ev, d, tf):
        x = np.zeros((ev["n"], len(ev["d"])))
        for k, (a, dl) in enumerate(zip(ev["a"], ev["d"])):
            x[dl, k] = a / 16
        x = self.ir(x)
        if ev["how"] == "excess":
            f, g = tf.excess_group_delay(x, analytic_computation=ev["analytic"])
        elif ev["how"] == "min":
            f, g = tf.minimum_group_delay(x)
            f, g = f[::8], g[::8]
        else:
            f, g = tf.group_delay(x, ev["analytic"])
        if not np.allclose(f, np.arange(ev["n"] // 2 + 1) * 8000 / ev["n"]):
            return [[BAD]]
        return cols(g, 8e6)

    def do_thd(self, ev, d, tf):
        irs = []
        for k, a in enumerate(ev["a"]):
            x = np.zeros((ev["n"] + 3 * k, 1))
            x[ev["d"] + k, 0] = a / 16
            irs.append(self.ir(x, plain=True))
        r = tf.harmonic_distortion_analysis(list(irs), smoothing=0, generate_plot=False)
        for k, a in enumerate(ev["a"]):
            s = r[str(k + 1)]
            if not np.allclose(np.abs(s.spectral_data), abs(a) / 16) or s.frequency_vector_hz[-1] > 4000.001 / (k + 1):
                return [[BAD]]
        out = []
        for key in ("thd", "thd_percent"):
            s = r[key]
            out.append([fx(abs(s.spectral_data[np.argmin(np.abs(s.frequency_vector_hz - f)), 0]) ** 2, 25600 if key == "thd" else 0.1) for f in ev["f"]])
        return out

    def do_tf(self, ev, d, tf):
        def sparse(v):
            z = np.zeros((2 * len(v[0]), len(v)))
            z[::2] = np.array(v, float).T
            return self.sig(z)

        x, y = sparse(ev["x"]), sparse(ev["y"])
        for z in (x, y):
            z.set_spectrum_parameters(window_type=d.Window.Boxcar, overlap_percent=0 if ev["step"] == 4 else 50, detrend=False)
        self.watch[:] = [(s, t, str(s._spectrum_parameters)) for s, t, _ in self.watch]
        o = tf.compute_transfer_function(y, x, 8, d.transfer_functions.TransferFunctionType[ev["mode"]])
        v, c = o.spectral_data, o.coherence
        if not np.allclose(o.frequency_vector_hz, np.arange(5) * 1000) or c.shape != v.shape:
            return [[[BAD]]]
        if ev["mode"] == "H3":
            v = np.sign(v.real) * v.real**2 + 1j * np.sign(v.imag) * v.imag**2
        return [[[fx(z.real, 1e3), fx(z.imag, 1e3), fx(h, 1e3)] for z, h in zip(v[:, k], c[:, k])] for k in range(v.shape[1])]

    def do_magonly(self, ev, d, tf):
        s = d.Spectrum(np.linspace(0, 4000, 33), np.ones((33, 1)) * np.array(ev["a"], float)[None] / 16)
        if ev["lin"]:
            o = tf.lin_phase_from_mag(s, 8000, ev["d"] / 8)
        else:
            o = tf.min_phase_from_mag(s, 8000, ev["n"])
        return cols(o.time_data, 16e3)

    def do_fdw(self, ev, d, tf):
        m = ev["m"]
        x = self.ir(np.stack([up(v, m) for v in ev["v"]], 1), 4 * m)
        o = tf.window_frequency_dependent(x, ev["cyc"], -20 * math.log10(2) * ev["E"])
        if not np.allclose(o.frequency_vector_hz, np.arange(2 * m + 1)):
            return [[[BAD]]]
        return cx(o.spectral_data)

    def do_smooth(self, ev, d, tf):
        m = ev["m"]
        x = self.ir(np.stack([up(v, m) for v in ev["v"]], 1), 4 * m, plain=True)
        o = tf.complex_smoothing(x, ev["oct"], d.transfer_functions.SmoothingDomain[ev["dom"]])
        return cx(o.spectral_data)

    def do_harm(self, ev, d, tf):
        n = ev["n"]
        v = np.arange(1, n + 1) / (2.0 * n)
        v[ev["p"]] = 1.0
        x = self.ir(v[:, None])
        hs = tf.harmonics_from_chirp_ir(x, [100, 100 * 2 ** ev["oct"]], ev["len"] / 8000, ev["nh"], ev["pc"] / 100)
        at = {round(z, 9): (i - ev["p"] + 1) % n for i, z in enumerate(v)}
        res = []
        for h in hs:
            t = h.time_data[:, 0]
            a = at[round(t[0], 9)]
            if not np.array_equal(t, np.roll(v, 1 - ev["p"])[a : a + len(t)]):
                return [[BAD, BAD]]
            res.append([a, a + len(t)])
        for a, b in zip(res, res[1:]):
            if a[0] != b[1]:
                return [[BAD, BAD]]
        return res

    def do_dirac(self, ev, d, tf):
        x = np.zeros((64, len(ev["d"])))
        for k, (a, dl) in enumerate(zip(ev["a"], ev["d"])):
            x[dl, k] = np.sign(a)
            x[dl + 2, k] = a / 40
        nrm = ev["norm"] if ev["norm"] != "db" else -6.0
        nrm = None if nrm == "none" else nrm
        o = tf.combine_ir_with_dirac(self.ir(x), 1000.0, ev["low"], 4, nrm).time_data
        o = o / np.abs(o).max(axis=0)
        for k in range(x.shape[1]):
            e = tf.combine_ir_with_dirac(self.ir(x[:, k]), 1000.0, ev["low"], 4, nrm).time_data[:, 0]
            if not np.allclose(o[:, k], e / np.abs(e).max(), atol=1e-8):
                return [], [BAD]
            if np.argmax(np.abs(o[:, k])) != ev["d"][k] or np.sign(o[ev["d"][k], k]) != np.sign(ev["a"][k]):
                return [], [BAD]
        return [], []


def ints(rng, n, m=9, nz=True):
    while True:
        c = [rng.randint(-m, m) for _ in range(n)]
        if any(c) or not nz:
            return c


def dominant(rng, n, k):
    x = [0] * n
    for i in range(1, k):
        x[i] = rng.randint(-3, 3)
    x[0] = rng.choice([-1, 1]) * (sum(map(abs, x)) + rng.randint(1, 4))
    return x


def regular(rng, amp=6):
    """four values with a transform that vanishes nowhere"""
    while True:
        v = ints(rng, 4, amp)
        q = np.abs(np.fft.fft(v)) ** 2
        if q.min() > 0.3 and np.abs(q * 1000 - q.max()).min() > 0.5:      # no ties with a threshold of -30 dB
            return v


def factor(rng):
    a = rng.choice([-1, 1]) * rng.randint(1, 2)
    b = rng.choice([-1, 1]) * abs(a) * rng.randint(2, 4)
    return rng.choice([[a, b], [b, a]])


def peaked(rng, n):
    while True:
        c = ints(rng, n)
        s = sorted(map(abs, c))
        if len(s) == 1 or s[-1] > s[-2]:
            return c


def one(rng):
    k = rng.choice("conv conv filt bank toir getir deconv circ reg reg winir winir winir wincen tukey avg latency minph minphase gd egd thd tf tf magonly fdw smooth harm dirac trim".split())
    if k == "conv":
        nch = rng.randint(1, 3)
        n = rng.randint(3, 9) if rng.random() < 0.7 else rng.randint(40, 70)
        nh = rng.randint(1, 6) if rng.random() < 0.7 else rng.randint(2, 14)
        while True:
            b = [ints(rng, n) for _ in range(nch)]
            hs = [ints(rng, nh) for _ in range(1 if rng.random() < 0.9 or nh == 1 else 2)]
            keep, pk = rng.random() < 0.5, rng.random() < 0.5
            if not pk or all(np.abs(np.convolve(c, hs[0])[: n if keep else None]).max() > 0 for c in b):
                break
        return dict(op=k, b=b, hs=hs, h=[], peak=pk, keep=keep, same=rng.random() < 0.95)
    if k == "filt":
        return dict(op=k, b=[ints(rng, 9) for _ in range(rng.randint(1, 3))], h=ints(rng, rng.randint(2, 6)), ch=rng.randint(0, 2), how="direct")
    if k == "bank":
        return dict(op=k, b=[ints(rng, 8)], hs=[ints(rng, 5) for _ in range(rng.randint(1, 4))])
    if k == "toir":
        m = rng.randint(1, 3)
        return dict(op=k, hs=[[rng.choice([-3, 2, 5])] + ints(rng, rng.randint(2, 6)) for _ in range(m)], iir=rng.random() < 0.15, same=m == 1 or rng.random() < 0.8)
    if k == "getir":
        return dict(op=k, h=[2] + ints(rng, rng.randint(2, 6)), n=rng.randint(1, 12))
    if k == "deconv":
        pad, keep = rng.random() < 0.5, rng.random() < 0.5
        n = rng.randint(4, 14)
        kx = rng.randint(1, min(5, n))
        nh = rng.randint(1, n - kx + 1 if pad else n)
        c = rng.randint(1, 3)
        m = rng.choice([1, c]) if rng.random() < 0.92 else c + 1
        if max(m, c) > n:
            m = c = 1
        return dict(op=k, x=[dominant(rng, n, kx) for _ in range(m)], h=[ints(rng, nh) for _ in range(c)], pad=pad, keep=keep)
    if k == "circ":
        n = rng.randint(4, 14)
        c = rng.randint(1, 3)
        return dict(op=k, x=[dominant(rng, n, min(n, 5)) for _ in range(rng.choice([1, c]))], y=[ints(rng, n) for _ in range(c)], pad=rng.random() < 0.5, badlen=rng.random() < 0.07)
    if k == "reg":
        m = rng.choice([2, 3, 4, 5, 6])
        c = rng.randint(1, 3)
        z = rng.random()
        if z < 0.35:
            band = []
        elif z < 0.65:
            band = sorted(rng.sample(range(0, 2 * m + 1), 2))
        elif z < 0.95:
            band = sorted(rng.sample(range(0, 2 * m + 1), 4))
        else:
            band = [0, 1, 2]
        return dict(op=k, m=m, x=[regular(rng, 12) for _ in range(rng.choice([1, c]))], y=[ints(rng, 4, 12) for _ in range(c)], band=band, th=rng.choice([1, 100, 251]))
    if k == "winir":
        n = rng.randint(3, 14)
        cd = rng.choice([1, 2, 4, 8])
        cn = rng.randint(0, cd - 1)
        T = rng.randint(1, 18)
        w = rng.choice(["Bartlett", "Boxcar"])
        return dict(op=k, b=[peaked(rng, n) for _ in range(rng.randint(1, min(3, T)))], T=T, cn=cn, cd=cd, off=rng.randint(0, max(0, T * cn // cd)) if rng.random() < 0.93 else rng.randint(0, T),
                    rn=rng.choice([0, 1, 1, 2, 3, 4]), rd=rng.choice([1, 2]), wl=w, wr=rng.choice(["Bartlett", "Boxcar"]), adaptive=rng.random() < 0.5, start=rng.random() < 0.7)
    if k == "wincen":
        n, T = rng.randint(3, 14), rng.randint(2, 18)
        return dict(op=k, b=[peaked(rng, n) for _ in range(rng.randint(1, min(3, T)))], T=T, wl=rng.choice(["Bartlett", "Boxcar"]))
    if k == "tukey":
        return dict(op=k, b=[ints(rng, rng.randint(8, 8)) for _ in range(rng.randint(1, 3))], l=rng.choice([0, 1, 2, 3, 4, 6]), r=rng.choice([0, 1, 2, 3, 4]), wl=rng.choice(["Bartlett", "Boxcar", "Hann"]))
    if k == "avg":
        c = rng.choice([2, 2, 3, 4, 1])
        tm = rng.random() < 0.6
        pulse = rng.choice([[1], [1], [4, 1]])
        a = [rng.randint(2, 15) * (rng.choice([-1, 1]) if tm else 1) for _ in range(c)]
        n = 40
        dl = [rng.randint(2, 20) for _ in range(c)] if tm else [rng.randint(2, 15)] * c      # phase steps well below pi
        return dict(op=k, a=a, d=dl, n=n + rng.randint(0, 4), pulse=pulse, time=tm, norm=rng.random() < 0.5)
    if k == "latency":
        c = rng.randint(1, 3)
        return dict(op=k, a=[rng.choice([-1, 1]) * rng.randint(2, 15) for _ in range(c)], d=[rng.randint(2, 25) for _ in range(c)], n=rng.randint(32, 40), time=rng.random() < 0.5)
    if k == "minph":
        c = rng.randint(1, 3)
        how = rng.choice(["cepstrum", "homomorphic"])
        return dict(op=k, f=[[factor(rng) for _ in range(rng.randint(1, 3))] for _ in range(c)], n=rng.randint(10, 16), d=rng.randint(0, 5), how=how)
    if k == "minphase":
        return dict(op=k, f=[[factor(rng) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))], m=rng.choice([3, 4, 5]), pf=rng.choice([4, 8, 9]))
    if k == "gd":
        return dict(op=k, v=[regular(rng) for _ in range(rng.randint(1, 3))], m=rng.choice([1, 2, 3, 5]), how=rng.choice(["ir", "filter"]))
    if k == "egd":
        c = rng.randint(1, 3)
        return dict(op=k, a=[rng.choice([-1, 1]) * rng.randint(2, 15) for _ in range(c)], d=[rng.randint(0, 12) for _ in range(c)], n=rng.choice([32, 36, 45]), how=rng.choice(["excess", "min", "gd", "gd"]), analytic=rng.random() < 0.5)
    if k == "thd":
        c = rng.randint(2, 5)
        return dict(op=k, a=[rng.choice([-1, 1]) * rng.randint(4, 15)] + [rng.choice([-1, 1]) * rng.randint(1, 9) for _ in range(c - 1)], d=rng.randint(0, 20), n=rng.randint(32, 50), f=[50, 700, 900, 1200, 1800])
    if k == "tf":
        n = rng.randint(4, 14)
        c = rng.randint(1, 3)
        m = rng.choice([1, c]) if rng.random() < 0.92 else c + 1
        return dict(op=k, x=[ints(rng, n, 3) for _ in range(m)], y=[ints(rng, n, 3) for _ in range(c)], step=rng.choice([2, 4]), mode=rng.choice(["H1", "H2", "H3"]))
    if k == "magonly":
        lin = rng.random() < 0.5
        dl = rng.randint(8, 30) if lin else 0
        return dict(op=k, a=[rng.randint(1, 9) for _ in range(rng.randint(1, 3))], n=2 * dl if lin else rng.choice([16, 24, 36]), d=dl, lin=lin)
    if k == "fdw":
        return dict(op=k, v=[peaked(rng, 4) for _ in range(rng.randint(1, 3))], m=rng.choice([2, 3, 4, 5, 8]), cyc=rng.randint(1, 4), E=rng.randint(1, 6))
    if k == "smooth":
        dom = rng.choice(["Magnitude", "Power", "RealImaginary", "MagnitudePhase", "PowerPhase", "EquivalentComplex"])
        vs = []
        for _ in range(rng.randint(1, 3)):
            v = [0] * 4
            v[rng.randrange(4) if dom in ("Magnitude", "Power") else 0] = rng.randint(1, 9)
            vs.append(v)
        return dict(op=k, v=vs, m=rng.choice([2, 3, 4, 5, 6, 8]), oct=rng.choice([1, 3, 6]), dom=dom)
    if k == "harm":
        nh = rng.randint(1, 5)
        oct_ = rng.randint(2, 8)
        ln = rng.randint(300, 900)
        n = int(3.3 * ln / oct_) + rng.randint(5, 80)
        return dict(op=k, n=n, p=rng.randint(2, n - 1), nh=nh, oct=oct_, len=ln, pc=rng.choice([0, 5, 10, 50]))
    if k == "dirac":
        c = rng.randint(1, 3)
        return dict(op=k, a=[rng.choice([-1, 1]) * rng.randint(2, 9) for _ in range(c)], d=[rng.randint(15, 40) for _ in range(c)], low=rng.random() < 0.5, norm=rng.choice(["none", "energy", "peak", "db"]))
    if k == "trim":
        c = rng.randint(1, 3)
        b = []
        for _ in range(c):
            v = [rng.randint(-3, 3) for _ in range(60)]
            v[rng.randrange(60)] = rng.choice([-16, 16])
            b.append(v)
        single = rng.random() < 0.5
        return dict(op=k, b=b, n=2000, seed=rng.randint(0, 10**6), chs=[rng.randint(1, c)] if single else list(range(1, c + 1)), single=single, off=rng.choice([0, 3, 10, 40, 2000]))


def script(rng, length):
    evs = []
    for _ in range(length):
        if rng.random() < 0.15:
            evs.append(dict(op="set", set=rng.randint(0, 5)))
        else:
            e = one(rng)
            evs.append(e)
    return dict(set=rng.randint(0, 5)), evs


def match(out, ob):
    def close(e, o):
        if isinstance(e[0], int):
            return abs(o - e[0]) <= e[1]
        return len(e) == len(o) and all(close(x, y) for x, y in zip(e, o))

    if ob.get("ok") != out["ok"] or ob["touched"]:
        return False
    if not out["ok"]:
        return True
    k, e, o = out["kind"], out["res"], ob["res"]
    if ob["more"] != out["more"]:
        return False
    if k in ("near", "near3", "win"):
        return len(e) == len(o) and all(close(x, y) for x, y in zip(e, o))
    return True


def run(c: Check):
    c.generate("ImpRespGen", Ad, match, limit=c.n(3000, 30000))
    c.drive("ImpRespTrace", Ad, [script(c.rng, c.rng.randint(2, 8)) for _ in range(c.n(1500, 15000))])
