"""P22: transforms (spec/Transf.tla)."""

import warnings
import numpy as np
from common import Adapter, BAD, Check, MachineryError, arr, dsp, fx, q

TWO = [1, 2, 4, 8, 16, 32]


class Ad(Adapter):
    def apply(self, ev):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return dict(ok=True, res=getattr(self, "do_" + ev["op"])(ev))
        except MachineryError:
            raise
        except (AssertionError, ValueError, TypeError, KeyError, NotImplementedError, IndexError):
            return dict(ok=False)

    def sig(self, x, fs=1000):
        return dsp().Signal(None, arr(x), fs, constrain_amplitude=False)

    def rows(self, s):
        return [fx(c, 10000) for c in s.time_data.T]

    def same(self, s, ev, res):
        """The input signal keeps its samples."""
        return res if np.array_equal(s.time_data, arr(ev["x"])) else [[BAD]]

    def do_bad(self, ev):
        d = dsp()
        t = d.transforms
        s = self.sig([[1, 2, 3, 4, 5, 6, 7, 8]])
        k, p = ev["kind"], ev["p"] > 0
        f = np.linspace(0, 500, 9)
        if k == "ms":
            t.stereo_mid_side(s if p else self.sig([[1, 2, 3, 4]] * 3), p)
        elif k == "warp":
            t.warp(s, 1.0 if p else -1.5, False)
        elif k == "scale":
            t.warp(s, "mel" if p else "third", False)
        elif k == "lag":
            t.laguerre(s, 1.0 if p else -1.2)
        elif k == "warpf":
            t.warp_filter(d.Filter.from_ba([1, 0.5], [1, 0.2], 1000), 1.0 if p else -1.1)
        elif k == "mel":
            t.mel_filterbank(f, [100, 501] if p else [100, 200, 300], 2)
        elif k == "chroma":
            t.chroma_stft(s, tuning_a_hz=0 if p else 440, compression=1 if p else 0)
        elif k == "hil":
            t.hilbert(s.time_data if p else d.Spectrum(f, np.ones((9, 1))))
        elif k == "istft":
            t.istft(np.ones((5, 3)) if p else np.ones((5, 3, 1)), window_length_samples=8)
        elif k == "levels":
            t.spectrum_via_filterbank(s, np.array([100.0]), 1.0 if p else None, 10.0 if p else None)
        elif k == "bw":
            t.spectrum_via_filterbank(s, np.array([100.0]), -1.0 if p else None, None if p else -3.0)
        elif k == "mfcc":
            s.set_spectrogram_parameters(8)
            t.mfcc(s, mel_filters=np.ones((2, 6 if p else 4)), generate_plot=False)
        return []

    def do_ms(self, ev):
        s = self.sig(ev["x"])
        y = s
        for f in ev["dirs"]:
            y = dsp().transforms.stereo_mid_side(y, f)
        return self.same(s, ev, self.rows(y))

    def do_hil(self, ev):
        d = dsp()
        s = self.sig(ev["x"])
        if ev["mb"]:
            m = d.transforms.hilbert(d.MultiBandSignal([self.sig([[0] * len(ev["x"][0])] * len(ev["x"])), s]))
            if np.any(m.bands[0].time_data) or m.number_of_bands != 2:
                return [[BAD]]
            y = m.bands[1]
        else:
            y = d.transforms.hilbert(s)
        if y.sampling_rate_hz != 1000:
            return [[BAD]]
        im = y.time_data_imaginary if y.time_data_imaginary is not None else np.zeros(y.time_data.shape)
        return self.same(s, ev, [fx(v, 10000) for c in range(y.number_of_channels) for v in (y.time_data[:, c], im[:, c])])

    def do_dft(self, ev):
        s = self.sig(ev["x"], 4800)
        f = np.array(ev["j"], float) * 4800 / ev["n"]
        y = dsp().transforms.dft(s, f)
        return self.same(s, ev, [fx(v, 10000) for c in y.T for v in (c.real, c.imag)])

    def do_cep(self, ev):
        x = np.zeros((ev["n"], len(ev["a"])))
        x[0] = ev["a"]
        x[ev["n"] // 2] = ev["b"]
        y = dsp().transforms.cepstrum(self.sig(x.T), ev["cplx"])
        if np.max(np.abs(np.imag(y))) > 1e-9:
            return [[BAD]]
        return [fx(np.real(c), 10000) for c in y.T]

    def do_cepback(self, ev):
        t = dsp().transforms
        s = self.sig(ev["x"])
        y = t.from_complex_cepstrum(t.cepstrum(s), 1000)
        s.constrain_amplitude = False
        z = y.time_data * (1 / y.amplitude_scale_factor if y.constrain_amplitude else 1)
        return self.same(s, ev, [fx(c, 10000) for c in z.T])

    def edge(self, i):
        return 700.0 * (TWO[i] - 1)

    def do_mel(self, ev):
        f = np.arange(ev["m"] + 1) * float(ev["g"])
        m, c = dsp().transforms.mel_filterbank(f, [self.edge(ev["s"]), self.edge(ev["s"] + ev["bands"] + 1)], ev["bands"], ev["norm"])
        return [fx(v, 10000) for v in m] + [fx(c, 10)]

    def tiled(self, ev, fs):
        s = self.sig([x * (ev["L"]) for x in ev["x"]], fs)
        p = dict(window_length_samples=ev["L"], window_type=dsp().Window.Boxcar, overlap_percent=50.0, padding=False)
        return s, p

    def do_logmel(self, ev):
        s, p = self.tiled(ev, ev["g"] * ev["L"])
        t, f, m = dsp().transforms.log_mel_spectrogram(s, range_hz=[self.edge(ev["s"]), self.edge(ev["s"] + ev["bands"] + 1)], n_bands=ev["bands"], generate_plot=False, stft_parameters=p)
        if m.shape[0] != ev["bands"] or m.shape[2] != len(ev["x"]) or len(f) != ev["bands"] or len(t) != m.shape[1]:
            return [[BAD]]
        return [fx(10 ** (m[:, 2, c] / 10) / (ev["L"] / 4) ** 2, 10000) for c in range(m.shape[2])]

    def do_mfcc(self, ev):
        s, p = self.tiled(ev, 8000)
        mel = np.zeros((2, ev["L"] // 2 + 1))
        mel[0, 0] = mel[1, -1] = 1
        t, f, m = dsp().transforms.mfcc(s, mel_filters=mel, generate_plot=False, stft_parameters=p)
        return [fx(m[:, 2, c], 10000) for c in range(m.shape[2])]

    def do_chroma(self, ev):
        s, p = self.tiled(ev, 8000)
        s.set_spectrogram_parameters(**p)
        comp = ev["comp"] / 10
        t, ch, pi = dsp().transforms.chroma_stft(s, 2000 / 2 ** ((ev["k"] - 69 + ev["off"] / 100) / 12), comp)
        lin = lambda v: np.expm1(v) / comp / (ev["L"] / 4) ** 2
        res = []
        for c in range(len(ev["x"])):
            a, b = lin(ch[:, 2, c]), lin(pi[:, 2, c])
            k = ev["k"]
            up = b[k + 12] if k + 12 < 128 else 0.0
            res.append(fx(np.concatenate([a, [b[k], up, np.sum(b) - b[k] - up]]), 10000))
        return res

    def do_cwt(self, ev):
        d = dsp()
        fs = [100.0 * (i + 1) for i in range(len(ev["w"]))]
        taps = [np.array(w["re"]) + 1j * np.array(w["im"]) for w in ev["w"]]

        class W:
            def get_wavelet(self, f, rate):
                return taps[fs.index(f)].copy()

        s = self.sig(ev["x"])
        full = ev["ch"] == list(range(1, len(ev["x"]) + 1))
        y = d.transforms.cwt(s, np.array(fs), W(), channel=None if full else np.array(ev["ch"]) - 1)
        return self.same(s, ev, [fx(v * np.abs(taps[i]).sum(), 10000) for i in range(len(fs)) for c in range(len(ev["ch"])) for v in (y[i, :, c].real, y[i, :, c].imag)])

    def do_warp(self, ev):
        s = self.sig(ev["x"])
        y = dsp().transforms.warp(s, ev["l"] / 10, False, ev["len"] or None)
        return self.same(s, ev, self.rows(y))

    def do_lag(self, ev):
        s = self.sig(ev["x"])
        return self.same(s, ev, self.rows(dsp().transforms.laguerre(s, ev["l"] / 10)))

    def do_back(self, ev):
        t = dsp().transforms
        s = self.sig([c + [0] * 150 for c in ev["x"]])
        g = t.laguerre if ev["kind"] == "lag" else lambda a, b: t.warp(a, b, False)
        y = g(g(s, ev["l"] / 10), -ev["l"] / 10)
        n = len(ev["x"][0])
        return [fx(c[:n], 10000) + [fx(np.max(np.abs(c[n:])), 10000)] for c in y.time_data.T]

    def do_warpf(self, ev):
        d = dsp()
        f = d.Filter.from_zpk(np.array(ev["z"]) / 10, np.array(ev["p"]) / 10, ev["k"], 1000)
        g = d.transforms.warp_filter(f, ev["l"] / 10)
        z, p, k = g.get_coefficients(d.FilterCoefficientsType.Zpk)
        if np.any(np.abs(np.imag(np.concatenate([z, p]))) > 1e-6):
            return [[BAD]]
        return [fx(np.sort(np.real(z)), 10000), fx(np.sort(np.real(p)), 10000), [fx(k, 10000)]]

    def do_lpc(self, ev):
        d = dsp()
        s = self.sig(ev["x"])
        a, v = d.transforms.lpc(s, ev["order"], ev["w"], False, ev["burg"], ev["h"], d.Window.Boxcar)
        if a.shape[0] != ev["order"] + 1 or a.shape[1:] != v.shape or v.shape[1] != len(ev["x"]):
            return [[BAD]]
        n = (len(ev["x"][0]) - ev["w"] - 1) // ev["h"] + 1
        return self.same(s, ev, [fx(np.append(a[:, k, c], v[k, c]), 10000) for c in range(len(ev["x"])) for k in range(n)])

    def do_vqt(self, ev):
        rows = ev["bpo"] * (ev["oct"][1] - ev["oct"][0] + 1)
        cents = 1200 * (ev["oct"][1] - 4) + 200 - 1200 * (rows - 1 - ev["bin"]) / ev["bpo"]
        n = np.arange(12000)
        x = np.zeros((12000, ev["n"]))
        x[:, ev["at"] - 1] = np.sin(2 * np.pi * 440 * 2 ** (cents / 1200) / 8000 * n)
        f, y = dsp().transforms.vqt(dsp().Signal(None, x, 8000), None if ev["ch"] == list(range(1, ev["n"] + 1)) else np.array(ev["ch"]) - 1,
                                    gamma=ev["gamma"], octaves=ev["oct"], bins_per_octave=ev["bpo"])
        if len(f) != y.shape[0] or y.shape[1:] != (12000, len(ev["ch"])):
            return [[BAD]]
        res = [[len(f)]]
        for c in range(len(ev["ch"])):
            m = np.abs(y[:, 6000, c])
            i = int(np.argmax(m))
            res.append([i, fx(12000 * np.log2(f[i] / 440), 1), fx(m[i], 10000)])
        return res

    def tones(self, ev, fs, N):
        n = np.arange(N)
        return dsp().Signal(None, np.stack([g * np.sin(2 * np.pi * ev["f"][a - 1] / fs * n) for g, a in zip(ev["g"], ev["at"])], -1), fs, constrain_amplitude=False)

    def do_levels(self, ev):
        s = self.tones(ev, 8000, 8000)
        f = np.array(ev["f"], float)
        y = dsp().transforms.spectrum_via_filterbank(s, f, bandwidth_octaves=0.5 if ev["bw"] == 0 else None, bandwidth_hz=float(ev["bw"]) if ev["bw"] else None, order=4, zero_phase=ev["zp"])
        if not np.array_equal(y.frequency_vector_hz, f):
            return [[BAD]]
        return [fx(np.abs(c), 10000) for c in y.spectral_data.T]

    def do_tone(self, ev):
        t = dsp().transforms
        N = 1200 if ev["sq"] else 4000
        s = self.tones(ev, 8000, N)
        w = t.MorletWavelet(h=float(ev["h"]), interpolation=ev["interp"])
        y = t.cwt(s, np.array(ev["f"], float), w, synchrosqueezed=ev["sq"])
        L = w.get_scale_lengths(np.array(ev["f"], float), 8000)
        if any(abs(a - len(w.get_wavelet(f, 8000))) > 1 for a, f in zip(L, ev["f"])):
            return [[BAD]]
        return [fx(np.abs(y[:, N // 2, c]), 10000) for c in range(y.shape[2])]


def four(rng):
    while True:
        x = [rng.randint(-5, 6) for _ in range(4)]
        if abs(sum(x)) and abs(x[0] - x[1] + x[2] - x[3]):
            return x


def event(rng):
    ch = rng.randint(1, 3)
    xs = lambda n, m=6: [[rng.randint(-m, m) for _ in range(n)] for _ in range(ch)]
    k = rng.choice(["ms", "hil", "dft", "cep", "cepback", "mel", "logmel", "mfcc", "chroma", "cwt", "warp", "lag", "back", "warpf", "lpc", "lpc", "bad"] * 3 + ["vqt", "levels", "tone"])
    if k == "bad":
        return dict(op=k, kind=rng.choice(["ms", "warp", "scale", "lag", "warpf", "mel", "chroma", "hil", "istft", "levels", "bw", "mfcc"]), p=rng.randint(0, 1))
    if k == "ms":
        ch = 2
        return dict(op=k, x=xs(rng.randint(2, 9)), dirs=[rng.random() < 0.5 for _ in range(rng.randint(1, 4))])
    if k == "hil":
        return dict(op=k, x=xs(rng.randint(3, 32)), mb=rng.random() < 0.3)
    if k == "dft":
        n = rng.randint(2, 32)
        return dict(op=k, x=xs(rng.randint(3, 14)), j=[rng.randint(0, n) for _ in range(rng.randint(1, 5))], n=n)
    if k == "cep":
        a = [rng.randint(2, 30) for _ in range(rng.randint(1, 2))]
        return dict(op=k, a=a, b=[rng.randint(-v + 1, v - 1) for v in a], n=2 * rng.randint(1, 6), cplx=rng.random() < 0.5)
    if k == "cepback":
        x = xs(rng.randint(3, 12), 3)
        for c in x:
            c[0] = sum(map(abs, c[1:])) + rng.randint(1, 4)
        return dict(op=k, x=x)
    if k == "mel":
        s = rng.randint(0, 2)
        return dict(op=k, s=s, bands=rng.randint(1, 4 - s), g=rng.choice([150, 175, 230, 350, 500, 900, 1300, 2100]), m=150, norm=rng.random() < 0.6)
    if k == "logmel":
        s = rng.randint(0, 1)
        b = rng.randint(1, 3 - s)
        return dict(op=k, x=[four(rng) for _ in range(ch)], s=s, bands=b, L=16, g=rng.choice([1500, 1600, 2000, 2700]))
    if k == "mfcc":
        return dict(op=k, x=[four(rng) for _ in range(ch)], L=rng.choice([16, 32]))
    if k == "chroma":
        return dict(op=k, x=[four(rng) for _ in range(ch)], k=rng.randint(40, 124), off=rng.randint(-45, 45), L=rng.choice([16, 32]), comp=rng.choice([1, 5, 10]))
    if k == "cwt":
        ws = []
        for _ in range(rng.randint(1, 3)):
            n = rng.randint(1, 7)
            re = [rng.randint(-3, 3) if rng.random() < 0.5 else 0 for _ in range(n)]
            im = [0 if v else rng.randint(-3, 3) for v in re]
            if not any(re) and not any(im):
                re[0] = 2
            ws.append(dict(re=re, im=im))
        return dict(op=k, x=xs(rng.randint(4, 14)), ch=rng.sample(range(1, ch + 1), rng.randint(1, ch)), w=ws)
    if k in ("warp", "lag"):
        n = rng.randint(3, 10)
        e = dict(op=k, x=xs(n), l=rng.choice([-5, -3, -2, 0, 3, 6] if k == "warp" else [-8, -6, 0, 6, 8]))
        if k == "warp":
            e["len"] = rng.choice([0, 0, rng.randint(3, 12)])
        return e
    if k == "back":
        return dict(op=k, x=xs(rng.randint(3, 6)), l=rng.choice([-5, -3, 2, 4, 5]), kind=rng.choice(["lag", "warp"]))
    if k == "warpf":
        r = lambda: [rng.randint(-9, 9) for _ in range(rng.randint(0, 3))]
        z = r()
        p = [v for v in r() if v not in z]
        return dict(op=k, z=z, p=p, k=rng.randint(1, 4), l=rng.choice([-8, -5, -3, 2, 4, 7]))
    if k == "lpc":
        while True:
            w = rng.randint(5, 10)
            e = dict(op=k, x=xs(rng.randint(w + 1, w + 12), 4), w=w, h=rng.randint(1, w), order=rng.choice([1, 2, 2, 3, 4]), burg=rng.random() < 0.5)
            if all(fine(f, e["burg"], e["order"]) for c in e["x"] for f in [c[i:i + w] for i in range(0, len(c) - w, e["h"])]):
                return e
    if k == "vqt":
        o = sorted(rng.sample([2, 3, 4], 2))
        bpo = rng.choice([12, 12, 24])
        n = rng.randint(1, 3)
        return dict(op=k, oct=o, bpo=bpo, bin=rng.randint(bpo if o[0] == 2 else 0, bpo * (o[1] - o[0] + 1) - 1), gamma=rng.choice([0, 10]), n=n, at=(a := rng.randint(1, n)),
                    ch=rng.choice([[a], rng.sample(range(1, n + 1), n), list(range(1, n + 1))]))
    if k == "levels":
        f = sorted(rng.sample([250, 600, 1200, 2500], rng.randint(1, 4)))
        return dict(op=k, f=f, bw=rng.choice([0, 120]), zp=rng.random() < 0.5, g=[rng.randint(1, 3) for _ in range(ch)], at=[rng.randint(1, len(f)) for _ in range(ch)])
    f = rng.choice([100, 150, 200])
    return dict(op="tone", f=[f, 2 * f, 4 * f], g=[rng.randint(1, 3) for _ in range(ch)], at=[2] * ch, h=rng.choice([3, 4]), sq=rng.random() < 0.4, interp=rng.random() < 0.7)


def fine(f, burg, order):
    """Linear prediction of the frame is well conditioned."""
    f = np.array(f, float)
    if not burg:
        r = [f[i:] @ f[:len(f) - i] for i in range(order + 1)]
        R = np.array([[r[abs(i - j)] for j in range(order + 1)] for i in range(order + 1)])
        return r[0] > 0 and np.linalg.cond(R) < 50
    u, v = f[1:], f[:-1]
    for _ in range(order):
        d = u @ u + v @ v
        if d < 8:
            return False
        k = -2 * (u @ v) / d
        if abs(k) > 0.9:
            return False
        u, v = (u + k * v)[1:], (v + k * u)[:-1]
    return True


def holds(r, n, a):
    """YwHolds of the specification."""
    normal = lambda i: sum((10000 if k == 0 else a[k]) * r[abs(i - k)] for k in range(len(r)))
    t = sum(map(abs, r)) + 2
    return len(a) == len(r) + 1 and a[0] == 10000 and all(abs(normal(i)) <= t for i in range(1, len(r))) and abs(normal(0) - a[-1] * n) <= t + n


def match(out, ob):
    if ob.get("ok") != out["ok"] or not out["ok"]:
        return ob.get("ok") == out["ok"]
    r = ob["res"]
    if "kind" in out:
        return len(out["res"]) == len(r) and all(holds([v[0] for v in e], e[0][1], o) for e, o in zip(out["res"], r))
    return len(out["res"]) == len(r) and all(len(e) == len(o) and all(abs(b - a[0]) <= a[1] for a, b in zip(e, o)) for e, o in zip(out["res"], r))


def run(c: Check):
    c.generate("TransfGen", Ad, match, limit=c.n(2000, 20000))
    c.drive("TransfTrace", Ad, [(dict(i=0), [event(c.rng) for _ in range(c.rng.randint(3, 6))]) for _ in range(c.n(900, 5000))])
