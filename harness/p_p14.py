"""P14: copies, saved and loaded objects (spec/Store.tla)."""

import os
import shutil
import tempfile

import numpy as np
from common import BAD, Adapter, Check, MachineryError, arr, chans, dsp, fx, q
import lti
import p_p03

FS = 1000
L = 40
PAT = np.array([[(7 * i + 5 * c + i * i) % 11 - 5 for c in range(2)] for i in range(L)], float) / 64
PAT[3, 0] = 5 / 64
WIN = np.array([np.hanning(L), np.linspace(1, 0, L)]).T
FREQ = np.linspace(0, 50, 9)
SPEC = np.array([[(5 * i + 3 * c) % 7 + 1 for c in range(2)] for i in range(9)], float)


def ratio(x, pat, tol=1e-9):
    """the integer k with x = k*pat"""
    x = np.asarray(x)
    if x.shape != pat.shape:
        return BAD
    k = int(round(float(np.sum(x.real * pat.real) / np.sum(pat.real**2))))
    return k if np.allclose(x, k * pat, rtol=0, atol=tol) else BAD


class Sig:
    """settings: 0 samples, 1 spectrum method, 2 caching, [3 calibrated,
    4 sampling rate, 5 scaling, 6 smoothing, 7 imaginary part, 8 spectrogram
    window, 9 constrained, 10 window (impulse responses)], last: 1 if an
    analysis is not that of the present content"""

    def __init__(self, init):
        self.ir = init["impl"] == "ir"
        self.m = len(init["v"]) - 1

    def new(self, v):
        d = dsp()
        o = (d.ImpulseResponse if self.ir else d.Signal).from_time_data(PAT.copy(), 100, False)
        o.set_spectrum_parameters(window_length_samples=16)
        o.set_spectrogram_parameters(window_length_samples=16)
        for k in range(self.m):
            self.set(o, k, v[k])
        return o

    def set(self, o, k, x):
        d = dsp()
        if k == 0:
            old = ratio(o.time_data, PAT)
            if x % 2 == 0 and old not in (0, BAD):
                o.time_data *= x / old
            else:
                o.time_data = PAT * x
        elif k == 1:
            o.spectrum_method = [d.SpectrumMethod.WelchPeriodogram, d.SpectrumMethod.FFT][x]
        elif k == 2:
            o.activate_cache = bool(x)
        elif k == 3:
            o.calibrated_signal = bool(x)
        elif k == 4:
            o.sampling_rate_hz = [100, 200][x]
        elif k == 5:
            S = d.SpectrumScaling
            o.spectrum_scaling = [S.FFTBackward, S.AmplitudeSpectrum, S.PowerSpectralDensity][x]
        elif k == 6:
            o.spectrum_smoothing = [0, 3][x]
        elif k == 7:
            o.time_data_imaginary = None if x == 0 else PAT[::-1] * x
        elif k == 8:
            o.set_spectrogram_parameters(window_length_samples=[16, 32][x])
        elif k == 9:
            o.constrain_amplitude = bool(x)
        elif k == 10:
            if x:
                o.set_window(WIN.copy())
            else:
                o.clear_time_window()

    def see(self, o):
        d = dsp()
        im = o.time_data_imaginary
        S = d.SpectrumScaling
        v = [
            ratio(o.time_data, PAT),
            int(o.spectrum_method == d.SpectrumMethod.FFT),
            int(o.activate_cache),
            int(o.calibrated_signal),
            {100: 0, 200: 1}.get(o.sampling_rate_hz, BAD),
            {S.FFTBackward: 0, S.AmplitudeSpectrum: 1, S.PowerSpectralDensity: 2}.get(o.spectrum_scaling, BAD),
            {0: 0, 3: 1}.get(o.spectrum_smoothing, BAD),
            0 if im is None else ratio(im[::-1], PAT),
            {9: 0, 17: 1}.get(len(o.get_spectrogram()[1]), BAD),
            int(o.constrain_amplitude),
        ]
        if self.ir:
            w = getattr(o, "window", None)
            v.append(0 if w is None else 1 if np.array_equal(w, WIN) else BAD)
        v = v[: self.m]
        if BAD in v or type(o) is not (d.ImpulseResponse if self.ir else d.Signal):
            return [BAD]
        ref = (d.ImpulseResponse if self.ir else d.Signal).from_time_data(o.time_data.copy(), o.sampling_rate_hz, o.constrain_amplitude)
        ref.set_spectrum_parameters(method=o.spectrum_method, scaling=o.spectrum_scaling, window_length_samples=16, smoothing=o.spectrum_smoothing)
        ref.set_spectrogram_parameters(window_length_samples=2 * len(o.get_spectrogram()[1]) - 2)
        if self.ir and hasattr(o, "window"):
            ref.set_window(WIN.copy())
        stale = any(
            not np.allclose(x, y, atol=1e-12)
            for f in ("get_spectrum", "get_spectrogram", "get_csm")
            for x, y in zip(getattr(o, f)(), getattr(ref, f)())
        )
        stale = stale or not np.allclose(o.time_vector_s, ref.time_vector_s)
        return v + [int(stale)]

    def use(self, o):
        o.get_spectrum(), o.get_spectrogram(), o.get_csm(), o.time_vector_s, str(o)

    def save(self, o, path):
        o.save_signal(path, "pkl")


class Mbs:
    """settings: samples of each band"""

    def new(self, v):
        d = dsp()
        return d.MultiBandSignal([d.Signal.from_time_data(PAT * x, 100, False) for x in v], True, {"k": [1]})

    def set(self, o, k, x):
        b = o.bands[k]
        old = ratio(b.time_data, PAT)
        if x % 2 == 0 and old not in (0, BAD):
            b.time_data *= x / old
        else:
            b.time_data = PAT * x

    def see(self, o):
        ok = o.same_sampling_rate and o.sampling_rate_hz == 100 and o.number_of_channels == 2 and o.info["k"] == [1]
        return [ratio(b.time_data, PAT) for b in o.bands] if ok else [BAD]

    def use(self, o):
        o.collapse(), o.get_all_bands(), str(o), o.get_all_time_data()

    def save(self, o, path):
        o.save_signal(path)


class Spec:
    """settings: data, interpolator domain, [coherence, frequencies]"""

    def __init__(self, init):
        self.m = len(init["v"])
        self.c = init["impl"] == "complex"
        self.pat = SPEC * (1 + 1j) if self.c else SPEC

    def new(self, v):
        d = dsp()
        o = d.Spectrum(FREQ.copy(), self.pat * v[0])
        for k in range(1, self.m):
            self.set(o, k, v[k])
        return o

    def set(self, o, k, x):
        d = dsp()
        if k == 0:
            old = ratio(o.spectral_data, self.pat)
            if x % 2 == 0 and old not in (0, BAD):
                o.spectral_data *= x / old
            else:
                o.spectral_data = self.pat * x
        elif k == 1:
            I = d.InterpolationDomain
            o.set_interpolator_parameters([I.Magnitude, I.Power][x])
        elif k == 2:
            if x:
                o.set_coherence(SPEC / 8 if x == 1 else SPEC / 16)
            elif hasattr(o, "coherence"):
                del o.coherence
        elif k == 3:
            o.frequency_vector_hz = FREQ.copy() * (x + 1)

    def see(self, o):
        d = dsp()
        T = d.SpectrumType
        f = o.frequency_vector_hz
        i = ratio(f, FREQ) - 1
        k = ratio(o.spectral_data, self.pat)
        mid = f[1:2] * 0.5 + f[2:3] * 0.5
        y = o.get_interpolated_spectrum(mid, T.Magnitude)[0, 0]
        a, b = np.abs(o.spectral_data[1:3, 0])
        cand = [0.5 * (a + b), ((a * a + b * b) / 2) ** 0.5]
        dom = [j for j, z in enumerate(cand) if abs(y - z) < 1e-9 * (1 + a)]
        coh = 0 if not o.has_coherence else 1 if np.array_equal(o.coherence, SPEC / 8) else 2 if np.array_equal(o.coherence, SPEC / 16) else BAD
        return [k, dom[0] if dom else BAD, coh, i][: self.m]

    def use(self, o):
        o.get_energy(), o.get_interpolated_spectrum(FREQ, dsp().SpectrumType.Power), o.spectrum_type, o.frequency_vector_type

    def save(self, o, path):
        o.save_spectrum(path)


class Coef:
    """settings: gain of the coefficients of each filter"""

    def __init__(self, init):
        self.one = init["impl"] == "filter"
        self.sos = init["impl"] == "banksos"

    def new(self, v):
        d = dsp()
        if self.sos:
            fs = [d.Filter.from_sos(np.array([[x, 2.0 * x, -x, 1, 0, 0], [1, 1, 0, 1, 0, 0]]), FS) for x in v]
        else:
            fs = [d.Filter.from_ba(np.array([1.0, 2.0, -1.0]) * x, [1.0], FS) for x in v]
        return fs[0] if self.one else d.FilterBank(fs)

    def set(self, o, k, x):
        f = o if self.one else o.filters[k]
        if self.sos:
            c = f.sos
            c[0, :3] *= x / c[0, 0]
            f.sos = c
        else:
            b, a = f.ba
            b *= x / b[0]
            f.ba = [b, a]

    def see(self, o):
        d = dsp()
        if self.one:
            irs = [o.get_ir(6).time_data]
        else:
            irs = [b.time_data for b in o.get_ir(6, d.FilterBankMode.Parallel).bands]
        want = np.array([1.0, 3, 1, -1, 0, 0] if self.sos else [1.0, 2, -1, 0, 0, 0])[:, None]
        return [ratio(y, want) for y in irs]

    def use(self, o):
        d = dsp()
        w = np.array([10.0, 20.0])
        o.get_transfer_function(w) if self.one else o.get_transfer_function(w, d.FilterBankMode.Parallel)
        str(o)

    def save(self, o, path):
        o.save_filter(path) if self.one else o.save_filterbank(path)


class Stream:
    """filters with a running state"""

    def __init__(self, init):
        self.i = init

    def new(self, v):
        d = dsp()
        i = self.i
        fb = d.filterbanks
        secs, im = i["secs"], i["impl"]
        if i["kind"] == "filter":
            return p_p03.make_filter(secs[0], "sos" if im == "sos" else None)
        if i["kind"] == "bank":
            b = d.FilterBank([p_p03.make_filter(s, None) for s in secs], True, {"k": [1]})
            return b if im == "bank" else d.append_filterbanks([d.FilterBank([p_p03.make_filter(s, None)]) for s in secs])
        b, a = np.array(secs[0][0]["b"], float), np.array(secs[0][0]["a"], float)
        filt = p_p03.make_filter(secs[0])
        self.block = im in ("up", "ols")
        o = {
            "fir": lambda: fb.FIRFilter(b),
            "iir": lambda: fb.IIRFilter(b, a),
            "ss": lambda: fb.StateSpaceFilter.from_filter(filt),
            "lattice": lambda: fb.LatticeLadderFilter.from_filter(filt),
            "chain": lambda: fb.FilterChain([fb.IIRFilter(np.array(s["b"], float), np.array(s["a"], float)) for s in secs[0]]),
            "up": lambda: fb.FIRUniformPartitioned.from_filter(filt),
            "ols": lambda: fb.FIRFilterOverlapSave.from_filter(filt),
        }[im]()
        if self.block:
            o.prepare(i["block"], i["ch"])
        else:
            o.set_n_channels(i["ch"])
        return o

    def see(self, o):
        return []

    def feed(self, o, x):
        d = dsp()
        k = self.i["kind"]
        if k == "rt":
            if self.block:
                return [[q(o.process_block(np.array(c, float), n)) for n, c in enumerate(x)]]
            y = [[] for _ in x]
            for t in range(len(x[0])):
                for n in range(len(x)):
                    y[n].append(q(float(np.real(o.process_sample(float(x[n][t]), n)))))
            return [y]
        s = d.Signal.from_time_data(arr(x), FS, False)
        if k == "filter":
            return [chans(o.filter_signal(s, activate_zi=True).time_data)]
        return [chans(b.time_data) for b in o.filter_signal(s, d.FilterBankMode.Parallel, activate_zi=True).bands]

    def reset(self, o):
        if self.i["kind"] == "rt":
            o.reset_state()
        else:
            o.initialize_zi(self.i["ch"])

    def use(self, o):
        d = dsp()
        s = d.Signal.from_time_data(np.ones((12, self.i["ch"])), FS, False)
        if self.i["kind"] == "filter":
            o.filter_signal(s), o.get_ir(16), o.get_transfer_function(np.array([10.0])), str(o)
            o.filter_signal(s, zero_phase=True) if len(o) < 3 else None
        elif self.i["kind"] == "bank":
            o.filter_signal(s, d.FilterBankMode.Summed), o.get_ir(16, d.FilterBankMode.Sequential), o.info["k"] if o.info else None
            o.get_transfer_function(np.array([10.0]), d.FilterBankMode.Parallel)

    def save(self, o, path):
        if self.i["kind"] == "filter":
            o.save_filter(path)
        elif self.i["kind"] == "bank":
            o.save_filterbank(path)
        else:
            raise MachineryError("not saved")


class Ad(Adapter):
    def __init__(self, init):
        super().__init__(init)
        self.dir = tempfile.mkdtemp(prefix="verif_p14_")
        os.mkdir(self.dir + "/a.b")
        k = init["kind"]
        self.k = {"signal": Sig, "mbs": lambda i: Mbs(), "spec": Spec, "coef": Coef}.get(k, Stream)(init)
        self.rt = k == "rt"
        self.slots = [None] * init["n"]
        self.slots[0] = self.k.new(init["v"])

    def __del__(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, f, name):
        base = f"{self.dir}/{'a.b/' if f == 2 else ''}obj{f}"
        return base + {"bare": "", "pkl": ".pkl", "other": ".npy"}[name]

    def apply(self, ev):
        d = dsp()
        op = ev["op"]
        s = self.slots
        if op == "audio":
            return self.audio(ev, d)
        o = s[ev["i"] - 1] if "i" in ev else None
        try:
            res = "done"
            if op == "copy":
                import copy

                s[ev["j"] - 1] = copy.deepcopy(o) if self.rt else o.copy()
            elif op == "save":
                if self.rt:
                    import pickle

                    with open(self.path(ev["f"], "pkl"), "wb") as fh:
                        pickle.dump(o, fh)
                else:
                    self.k.save(o, self.path(ev["f"], ev["name"]))
            elif op == "load":
                s[ev["j"] - 1] = d.load_pkl_object(self.path(ev["f"], "bare" if ev["j"] == 1 else "pkl"))
            elif op == "set":
                self.k.set(o, ev["k"] - 1, ev["x"])
            elif op == "use":
                self.k.use(o)
            elif op == "feed":
                res = self.k.feed(o, ev["x"])
            elif op == "reset":
                self.k.reset(o)
            elif op == "renew":
                s[ev["j"] - 1] = o.copy_with_new_time_data(PAT * ev["x"])
        except (AssertionError, ValueError, OSError):
            res = "refused"
        return dict(res=res, slots=[[-1] if z is None else self.k.see(z) for z in s])

    def audio(self, ev, d):
        x = arr(ev["x"]) / ev["den"]
        if ev["ir"]:
            o = d.ImpulseResponse.from_time_data(x, ev["fs"], False)
        else:
            o = d.Signal.from_time_data(x, ev["fs"], False)
        fmt = ev["fmt"]
        p = self.dir + "/" + {"bare": "x", "ext": "x." + fmt, "dots": "x.y." + fmt, "other": "x.mp3"}[ev["name"]]
        try:
            o.save_signal(p, fmt.upper() if ev["bits"] == 24 else fmt, ev["bits"])
        except (AssertionError, ValueError):
            return dict(audio="refused")
        full = self.dir + ("/x.y." if ev["name"] == "dots" else "/x.") + fmt
        if not np.array_equal(o.time_data, x):
            return dict(audio=[], fs=BAD)
        y = (d.ImpulseResponse if ev["ir"] else d.Signal).from_file(full)
        scale = 65536 if ev["bits"] >= 32 else 2 ** (min(ev["bits"], 20) - 1)
        td = y.time_data
        if y.is_complex_signal or (ev["ir"] and type(y) is not d.ImpulseResponse):
            td = td * np.nan
        if ev["add"]:  # a further channel from the file, on a signal of equal length
            z = d.Signal.from_time_data(x[:, :1], ev["fs"], False)
            z.add_channel(full)
            if not np.array_equal(z.time_data[:, 1:], td) or not np.array_equal(z.time_data[:, 0], x[:, 0]):
                td = td * np.nan
        return dict(audio=[fx(c, scale) for c in td.T], fs=y.sampling_rate_hz)


def match(out, ob):
    from common import same

    if "audio" in out:
        if out["audio"] == "refused" or ob.get("audio") in ("refused", None):
            return same(out, ob)
        return out["fs"] == ob["fs"] and len(out["audio"]) == len(ob["audio"]) and all(
            len(a) == len(b) and all(abs(v - e[0]) <= e[1] for e, v in zip(a, b)) for a, b in zip(out["audio"], ob["audio"]))
    return same(out, ob)


SIGV = (1, 0, 0, 0, 0, 0, 0, 0, 0, 0)
SIGD = (4, 2, 2, 2, 2, 3, 2, 3, 2, 2)


def rand_fir(rng, n):
    return {"b": [rng.randint(-3, 3) for _ in range(n - 1)] + [rng.choice([1, -2])], "a": [1]}


def script(rng):
    kind = rng.choice(["signal", "signal", "ir", "mbs", "spec", "coef", "coef", "filter", "filter", "bank", "bank", "rt", "rt", "rt"])
    n, files = rng.choice([2, 3]), rng.choice([1, 2])
    init = dict(kind=kind, impl=kind, n=n, files=files, v=[], dom=[], clear=[], ch=0, pre=0, secs=[])
    if kind in ("signal", "ir"):
        init.update(kind="signal", v=list(SIGV), dom=list(SIGD), clear=[[8]] + [[] for _ in range(9)])
        if kind == "ir":
            init["v"][1] = 1
            init["v"].append(0)
            init["dom"].append(2)
            init["clear"] = [[8, 11]] + [[] for _ in range(10)]
            init["dom"][9] = 1  # (constraining may drop the window)
        init["v"].append(0)
        init["dom"].append(1)
        init["clear"].append([])
    elif kind == "coef":
        m = rng.choice([1, 1, 2, 3])
        init.update(v=[rng.randint(1, 3) for _ in range(m)], dom=[4] * m, impl="filter" if m == 1 else rng.choice(["bank", "banksos"]))
    elif kind == "mbs":
        m = rng.choice([1, 2, 3])
        init.update(v=[rng.randint(0, 3) for _ in range(m)], dom=[4] * m)
    elif kind == "spec":
        init.update(v=[1, 1, 0, 0], dom=[4, 2, 3, 3], impl=rng.choice(["complex", "real"]))
    else:
        init["ch"] = rng.choice([1, 1, 2, 3])
    if not init["clear"]:
        init["clear"] = [[] for _ in init["v"]]
    if kind in ("filter", "bank"):
        init["pre"] = 12
        if kind == "filter" and rng.random() < 0.5:
            init.update(impl="sos", secs=[[rand_fir(rng, rng.choice([2, 3])) for _ in range(rng.choice([2, 3]))]])
        else:
            init["secs"] = [[rand_fir(rng, rng.choice([2, 3, 5]))] for _ in range(1 if kind == "filter" else rng.choice([2, 3]))]
            if kind == "filter":
                init["impl"] = "ba"
            elif rng.random() < 0.3:
                init["impl"] = "append"
    if kind == "rt":
        im = init["impl"] = rng.choice(["fir", "iir", "ss", "lattice", "chain", "up", "ols"])
        if im in ("iir", "ss", "lattice"):
            while True:
                f = lti.rand_filter(rng)
                s = f[0][0]
                if f[1] != "sos" and len(f[0]) == 1 and s["a"][0] == 1 and len(s["a"]) > 1 and len(s["b"]) <= len(s["a"]):
                    break
            if im == "lattice":
                s = {"b": [4, rng.randint(-2, 2), 1], "a": [1]}
            init["secs"] = [[s]]
        elif im == "chain":
            init["secs"] = [[{"b": [1, rng.randint(-2, 2)], "a": [1, rng.choice([-1, 1])]} for _ in range(2)]]
        else:
            init["secs"] = [[rand_fir(rng, rng.choice([2, 3, 5]))]]
            init["block"] = rng.choice([4, 8])
    evs, live, saved = [], {1}, set()
    fed = {}
    for _ in range(rng.randint(4, 12)):
        op = rng.choice(["copy", "save", "load", "use"] + ["act"] * 4)
        i = rng.choice(sorted(live))
        j = rng.randint(1, n)
        f = rng.randint(1, files)
        if op == "copy" and j != i:
            evs.append(dict(op="copy", i=i, j=j))
            live.add(j)
        elif op == "save":
            nm = rng.choice(["bare", "bare", "pkl", "pkl", "other"]) if kind != "rt" else "pkl"
            evs.append(dict(op="save", i=i, f=f, name=nm))
            if nm != "other":
                saved.add(f)
        elif op == "load":
            if f in saved:
                live.add(j)
            evs.append(dict(op="load", f=f, j=j))
        elif op == "use":
            evs.append(dict(op="use", i=i))
        elif op == "act":
            if init["v"]:
                if kind == "signal" and rng.random() < 0.15:
                    evs.append(dict(op="renew", i=i, j=j, x=rng.randint(1, 3)))
                    live.add(j)
                    continue
                k = rng.choice([m for m, z in enumerate(init["dom"]) if z > 1])
                x = rng.randrange(init["dom"][k])
                evs.append(dict(op="set", i=i, k=k + 1, x=max(1, x) if (k == 0 and kind != "mbs") or kind == "coef" else x))
            elif rng.random() < 0.12:
                evs.append(dict(op="reset", i=i))
            else:
                b = init.get("block") if init["impl"] in ("up", "ols") else max(init["ch"], rng.randint(1, 4))
                evs.append(dict(op="feed", i=i, x=[[rng.randint(-3, 3) for _ in range(b)] for _ in range(init["ch"])]))
    if init["ch"]:
        b = init.get("block", 4) if init["impl"] in ("up", "ols") else 4
        for i in sorted(live):
            evs.append(dict(op="feed", i=i, x=[[rng.randint(-3, 3) for _ in range(b)] for _ in range(init["ch"])]))
    return init, evs


def audio(rng):
    evs = []
    for _ in range(4):
        n, ch = rng.randint(4, 12), rng.choice([1, 2, 3])
        den = 2 ** rng.choice([4, 10, 14, 15])
        top = rng.choice([1, 1, 1.6])
        fmt = rng.choice(["wav", "wav", "flac"])
        bits = rng.choice([16, 24, 32, 64, 8] if rng.random() < 0.3 else [16, 24] if fmt == "flac" else [16, 24, 32, 64])
        x = [[rng.randint(-int(den * top), int(den * top)) for _ in range(n)] for _ in range(ch)]
        evs.append(dict(op="audio", x=x, den=den, bits=bits, fmt=fmt, fs=rng.choice([8000, 44100, 48000]),
                        name=rng.choice(["bare", "ext", "ext", "dots", "other"] if rng.random() < 0.5 else ["bare", "ext"]),
                        ir=rng.random() < 0.4, add=rng.random() < 0.3))
    init = dict(kind="mbs", impl="mbs", n=1, files=1, v=[1], dom=[2], clear=[[]], ch=0, pre=0, secs=[])
    return init, evs


def run(c: Check):
    c.generate("StoreGen", Ad, match, limit=c.n(3000, 30000))
    c.drive("StoreTrace", Ad, [script(c.rng) for _ in range(c.n(700, 8000))] + [audio(c.rng) for _ in range(c.n(80, 800))])
