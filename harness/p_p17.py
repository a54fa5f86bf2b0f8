"""P17: networks splitting and joining bands (spec/Split.tla)."""

import numpy as np
from common import Adapter, BAD, Check, MachineryError, arr, dsp, fx, q

FS = 2400
GRID = [2, 3, 4, 6, 8, 9]


class Ad(Adapter):
    def apply(self, ev):
        try:
            return dict(ok=True, res=getattr(self, "do_" + ev["op"])(ev))
        except MachineryError:
            raise
        except (AssertionError, ValueError, TypeError, KeyError, NotImplementedError, IndexError):
            return dict(ok=False)

    def fil(self, f, fs=1000):
        return dsp().Filter.from_ba(np.array(f["b"], float), np.array(f["a"], float), fs)

    def sig(self, x, fs=1000):
        return dsp().Signal(None, arr(x), fs, constrain_amplitude=False)

    def rows(self, s):
        return [fx(c, 10000) for c in s.time_data.T]

    def do_bad(self, ev):
        d = dsp()
        k = ev["kind"]
        x = [[1, 2, 3, 4, 5, 6, 7, 8]]
        qm = d.filterbanks.qmf_crossover(self.fil(dict(b=[1, 2], a=[1])))
        if k == "comp":
            d.filterbanks.complementary_fir_filter(self.fil(dict(b=[1, 2], a=[1, 0.5])))
        elif k == "rate":
            qm.filter_signal(self.sig(x, 500), d.FilterBankMode.Parallel, downsample=ev["p"] > 0)
        elif k == "zero":
            qm.filter_signal(self.sig(x), d.FilterBankMode.Parallel, downsample=True, zero_phase=True)
        elif k == "bands":
            s = self.sig(x)
            qm.reconstruct_signal(d.MultiBandSignal([s.copy() for _ in range(3 if ev["p"] > 0 else 1)]))
        elif k == "nyq":
            d.filterbanks.linkwitz_riley_crossovers([100, 600], [4, 4], 1000)
        elif k == "orders":
            d.filterbanks.linkwitz_riley_crossovers([100, 200], [4, 4, 4] if ev["p"] > 0 else [2, 4, 8, 4], 1000)
        elif k == "six":
            d.filterbanks.linkwitz_riley_crossovers([100], [6 if ev["p"] > 0 else 10], 1000)
        elif k == "lrrate":
            d.filterbanks.linkwitz_riley_crossovers([100], [4], 1000).filter_signal(self.sig(x, 900))
        elif k == "lrboth":
            d.filterbanks.linkwitz_riley_crossovers([100], [4], 1000).filter_signal(self.sig(x), activate_zi=True, zero_phase=True)
        elif k == "overlap":
            d.filterbanks.reconstructing_fractional_octave_bands(overlap=1.5 if ev["p"] > 0 else -0.2, sampling_rate_hz=48000)
        elif k == "len":
            d.filterbanks.reconstructing_fractional_octave_bands(n_samples=1000, sampling_rate_hz=48000)
        elif k == "slope":
            d.filterbanks.reconstructing_fractional_octave_bands(slope=-1 if ev["p"] > 0 else 0.5, sampling_rate_hz=48000)
        elif k == "gamma":
            d.filterbanks.auditory_filters_gammatone([100, 6000], 1, 8000)
        elif k == "real":
            g = d.filterbanks.auditory_filters_gammatone([500, 1500], 1, 8000)
            s = self.sig(x, 8000)
            g.reconstruct(d.MultiBandSignal([s.copy() for _ in range(g.number_of_filters)]))
        return []

    def do_comp(self, ev):
        d = dsp()
        f = self.fil(dict(b=ev["b"], a=[1]))
        b0 = f.ba[0].copy()
        g = d.filterbanks.complementary_fir_filter(f)
        if not np.array_equal(f.ba[0], b0) or g.sampling_rate_hz != f.sampling_rate_hz or not g.is_fir:
            return [[BAD]]
        t = np.zeros(max(len(g.ba[0]), len(b0)))
        t[:len(g.ba[0])] += g.ba[0]
        t[:len(b0)] += b0
        res = [fx(t, 10000)]
        if len(b0) % 2:
            s = self.sig(ev["x"])
            y = f.filter_signal(s).time_data + g.filter_signal(s).time_data
            res += [fx(c, 10000) for c in y.T]
        return res

    def split(self, ev, mode):
        d = dsp()
        f = self.fil(ev["f"])
        b0 = [v.copy() for v in f.ba]
        net = d.filterbanks.qmf_crossover(f)
        s = self.sig(ev["x"])
        y = net.filter_signal(s, mode, downsample=ev["down"])
        if not np.array_equal(s.time_data, arr(ev["x"])) or any(not np.array_equal(u, v) for u, v in zip(f.ba, b0)):
            raise MachineryError("inputs changed") if False else IndexError
        return net, y

    def do_split(self, ev):
        d = dsp()
        _, y = self.split(ev, d.FilterBankMode.Summed if ev["sum"] else d.FilterBankMode.Parallel)
        if y.sampling_rate_hz != (500 if ev["down"] else 1000):
            return [[BAD]]
        if ev["sum"]:
            return self.rows(y)
        if y.number_of_bands != 2:
            return [[BAD]]
        return [fx(b.time_data[:, c], 10000) for c in range(y.number_of_channels) for b in y.bands]

    def do_qmf(self, ev):
        net, y = self.split(ev, dsp().FilterBankMode.Parallel)
        z = net.reconstruct_signal(y, upsample=ev["down"])
        return self.rows(z) if z.sampling_rate_hz == 1000 else [[BAD]]

    def do_back(self, ev):
        d = dsp()
        net = d.filterbanks.qmf_crossover(self.fil(ev["f"]))
        fs = 500 if ev["up"] else 1000
        lo, hi = self.sig(ev["lo"], fs), self.sig(ev["hi"], fs)
        z = net.reconstruct_signal(d.MultiBandSignal([lo, hi]), ev["up"])
        if not np.array_equal(lo.time_data, arr(ev["lo"])) or not np.array_equal(hi.time_data, arr(ev["hi"])) or z.sampling_rate_hz != 1000:
            return [[BAD]]
        return self.rows(z)

    def do_lr(self, ev):
        d = dsp()
        n, D = FS, (FS // 2 if ev["zp"] else 0)
        bank = d.filterbanks.linkwitz_riley_crossovers([GRID[i - 1] * FS / 24 for i in ev["c"]], ev["o"][0] if len(set(ev["o"])) == 1 else ev["o"], FS)
        x = np.zeros((n, len(ev["g"])))
        x[D] = ev["g"]
        s = d.Signal(None, x, FS, constrain_amplitude=False)
        M = d.FilterBankMode
        y = bank.filter_signal(s, M.Summed if ev["sum"] else M.Parallel, zero_phase=ev["zp"])
        if not np.array_equal(s.time_data, x):
            return [[BAD]]
        k = [g * n // 24 for g in GRID]
        mag = lambda v: fx(np.abs(np.fft.rfft(v)[k]), 10000)
        bands = [y] if ev["sum"] else list(y.bands)
        tot = sum(b.time_data for b in bands)
        res = []
        for c in range(len(ev["g"])):
            res += ([] if ev["sum"] else [mag(b.time_data[:, c]) for b in bands]) + [mag(tot[:, c])]
        if ev["zp"]:
            for c in range(len(ev["g"])):
                res.append([fx(tot[D, c], 10000), fx(np.max(np.abs(np.delete(tot[:, c], D))), 10000)])
        return res

    def do_oct(self, ev):
        d = dsp()
        fb, fc, (lo, hi) = d.filterbanks.fractional_octave_bands([ev["lo"], ev["hi"]], ev["fraction"], ev["order"], ev["fs"])
        if len(fc) != fb.number_of_filters or fb.sampling_rate_hz != ev["fs"]:
            return [[BAD]]
        res = []
        for f, a, b in zip(fb.filters, lo, hi):
            fr = np.array([a, min(b, ev["fs"] * 0.499), np.sqrt(a * min(b, ev["fs"] / 2))])
            res.append(fx(np.abs(f.get_transfer_function(fr)), 10000))
        return res

    def do_rec(self, ev):
        d = dsp()
        fb = d.filterbanks.reconstructing_fractional_octave_bands([ev["lo"], ev["hi"]], ev["fraction"], ev["overlap"] / 10, ev["slope"], ev["n"], ev["fs"])
        t = sum(f.ba[0] for f in fb.filters)
        p = int(np.argmax(np.abs(t)))
        fc = d.tools.fractional_octave_frequencies(ev["fraction"], (ev["lo"], ev["hi"]), return_cutoff=True)[1]
        return [[p, fx(t[p], 10000), fx(np.max(np.abs(np.delete(t, p))), 10000)],
                [fx(np.abs(f.get_transfer_function(np.array([v])))[0], 10000) for f, v in zip(fb.filters, fc)]]

    def do_gamma(self, ev):
        d = dsp()
        fs = ev["fs"]
        g = d.filterbanks.auditory_filters_gammatone([ev["lo"], ev["hi"]], 1, fs)
        x = np.zeros((int(0.15 * fs), len(ev["p"])))
        for c, p in enumerate(ev["p"]):
            x[p, c] = 1
        s = d.Signal(None, x, fs)
        y = g.reconstruct(g.filter_signal(s, d.FilterBankMode.Parallel))
        if y.is_complex_signal or y.time_data.shape != x.shape:
            return [[BAD]]
        fc = d.tools.erb_frequencies([ev["lo"], ev["hi"]], 1)
        res = []
        for c, p in enumerate(ev["p"]):
            v = y.time_data[:, c]
            m = np.abs(np.exp(-2j * np.pi * np.outer(fc, np.arange(len(v))) / fs) @ v)
            res.append([int(np.argmax(np.abs(v))), fx(np.max(np.abs(v[:p]), initial=0), 10000), fx(m.min(), 10000), fx(m.max(), 10000)])
        return res


def octaves(rng):
    fr = rng.choice([1, 3])
    fs = rng.choice([16000, 44100, 48000])
    lo, hi = rng.choice([(250, 2000), (125, 4000), (500, 1000), (1000, 7900 if fs == 16000 else 16000)])
    t = dsp().tools.fractional_octave_frequencies(fr, (lo, hi), return_cutoff=True)
    return fr, fs, lo, hi, t


def event(rng):
    z = rng.random()
    ch = rng.randint(1, 3)
    if z < 0.06:
        return dict(op="bad", kind=rng.choice(["comp", "rate", "zero", "bands", "nyq", "orders", "six", "lrrate", "lrboth", "overlap", "len", "slope", "gamma", "real"]), p=rng.randint(0, 1))
    if z < 0.45:
        n = rng.randint(1, 9)
        b = [rng.randint(-3, 3) for _ in range(n)]
        b[-1] = b[-1] or 1
        b[0] = b[0] or 2
        a = [1] if n != 2 or rng.random() < 0.5 else [1, rng.choice([-1, 1])]
        if len(a) > 1 and b[0] * a[1] == b[1]:
            a = [1]
        f = dict(b=b, a=a)
        L = rng.randint(6, 30 if len(a) == 1 else 14)
        x = [[rng.randint(-6, 6) for _ in range(L)] for _ in range(ch)]
        k = rng.choice(["qmf", "split", "split", "back"])
        if k == "back":
            return dict(op=k, f=f, lo=x, hi=[[rng.randint(-6, 6) for _ in range(L)] for _ in range(ch)], up=rng.random() < 0.6)
        e = dict(op=k, f=f, x=x, down=rng.random() < 0.6)
        if k == "split":
            e["sum"] = rng.random() < 0.4
        return e
    if z < 0.6:
        n = rng.randint(1, 8)
        h = [rng.randint(-4, 4) for _ in range(n)]
        b = (h + h[::-1]) if rng.random() < 0.4 and n > 1 else (h + [rng.randint(-4, 4)] + h[::-1])
        return dict(op="comp", b=b, x=[[rng.randint(-6, 6) for _ in range(rng.randint(20, 20))] for _ in range(ch)])
    if z < 0.86:
        c = rng.sample(range(1, 7), rng.choice([1, 1, 2, 2, 3]))
        o = [rng.choice([1, 2, 3, 4, 8, 5]) for _ in c]
        if rng.random() < 0.4:
            o = [o[0]] * len(c)
        return dict(op="lr", c=c, o=o, zp=rng.random() < 0.5, sum=rng.random() < 0.25, g=[rng.randint(1, 3) for _ in range(rng.randint(1, 3))])
    if z < 0.93:
        fr, fs, lo, hi, t = octaves(rng)
        return dict(op="oct", lo=lo, hi=hi, fraction=fr, order=rng.choice([2, 4, 6]), fs=fs, bands=len(t[1]), open=bool(t[2][1][-1] > fs // 2))
    if z < 0.96:
        while True:
            fr, fs, lo, hi, t = octaves(rng)
            if all(t[1] < fs / 2 * 0.95):
                break
        # transitions need some bins, the gain at the centre many of them
        n = rng.choice([256, 1024, 4096, 16384])
        w = min((t[2][1] - t[2][0]) * n / fs)
        while (w < 6 or n >= 4096 and w < 24) and n < 131072:
            n, w = n * 2, w * 2
        return dict(op="rec", lo=lo, hi=hi, fraction=fr, overlap=rng.randint(0, 10), slope=rng.randint(0, 2), n=n, fs=fs, bands=len(t[1]))
    fs = rng.choice([8000, 16000, 48000])
    lo = rng.choice([400, 500, 1000])
    hi = lo * 2 + rng.randint(100, 900)
    return dict(op="gamma", lo=lo, hi=hi, fs=fs, p=[rng.randint(0, int(0.06 * fs)) for _ in range(rng.randint(1, 3))])


def match(out, ob):
    if ob["ok"] != out["ok"] or not out["ok"]:
        return ob["ok"] == out["ok"]
    r = ob["res"]
    return len(out["res"]) == len(r) and all(len(e) == len(o) and all(abs(b - a[0]) <= a[1] for a, b in zip(e, o)) for e, o in zip(out["res"], r)) and \
        (out["kind"] != "sym" or all(abs(a - b) <= 1 for a, b in zip(r[0], r[0][::-1])))


def run(c: Check):
    c.generate("SplitGen", Ad, match, limit=c.n(2000, 20000))
    c.drive("SplitTrace", Ad, [(dict(i=0), [event(c.rng) for _ in range(c.rng.randint(3, 6))]) for _ in range(c.n(500, 4000))])
