"""P01: cached analyses.  Behaviours come from spec/AnalysisCache.tla; the
specification says which settings every read must correspond to, and the
expected numbers are those of a signal built freshly with these settings."""

import json
import os
import tempfile

import common
from common import Adapter, Check, dsp

FS = {1: 8000, 2: 12000}
_SRC = {}
_FRESH = {}


def srclen(i):
    return 37 if i <= 3 else 46


def src(i):
    import numpy as np

    if i not in _SRC:
        r = np.random.RandomState(100 + i)
        x = r.uniform(-0.9, 0.9, srclen(i))
        k = 5 + i
        x[k] = (2.0 if i in (2, 4) else 1.0) * (-1) ** i
        _SRC[i] = x
    return _SRC[i]


def fit(x, n):
    import numpy as np

    y = np.zeros(n)
    m = min(n, len(x))
    y[:m] = x[:m]
    return y


def material(ch, n):
    import numpy as np

    return np.stack(
        [sum(fit(src(t[0]), n) / t[1] for t in c) for c in ch], axis=1
    )


def sp_kwargs(sp):
    d = dsp()
    from dsptoolbox.standard.enums import SpectrumMethod, SpectrumScaling, Window

    kw = dict(
        method=[SpectrumMethod.WelchPeriodogram, SpectrumMethod.FFT][sp["m"] - 1],
        scaling=list(SpectrumScaling)[sp["sc"] - 1],
        smoothing=sp["sm"],
        window_length_samples=16,
    )
    v = sp["var"]
    if v == 1:
        kw["window_length_samples"] = 32
    elif v == 2:
        kw["window_type"] = Window.Hamming
    elif v == 3:
        kw["overlap_percent"] = 25
    elif v == 4:
        kw["detrend"] = False
    elif v == 5:
        kw["average"] = "median"
    elif v == 6:
        kw["pad_to_fast_length"] = False
    return kw


def sg_kwargs(v):
    from dsptoolbox.standard.enums import SpectrumScaling, Window

    kw = dict(window_length_samples=16)
    kw.update(
        {
            1: dict(window_length_samples=32),
            2: dict(window_type=Window.Hamming),
            3: dict(overlap_percent=75),
            4: dict(fft_length_samples=64),
            5: dict(detrend=True),
            6: dict(padding=False),
            7: dict(scaling=SpectrumScaling.PowerSpectralDensity),
        }.get(v, {})
    )
    return kw


def window(k, shape):
    import numpy as np

    return np.random.RandomState(7 * k).uniform(0.2, 1.0, shape)


def build(cls, data, fs, sp, sg, cache):
    d = dsp()
    C = d.ImpulseResponse if cls == "ir" else d.Signal
    s = C(None, data, fs, constrain_amplitude=False, activate_cache=cache)
    s.set_spectrum_parameters(**sp_kwargs(sp))
    s.set_spectrogram_parameters(**sg_kwargs(sg))
    return s


def fresh(kind, proj):
    """What a newly built signal with these settings answers."""
    key = kind + json.dumps(proj, sort_keys=True)
    if key not in _FRESH:
        if len(_FRESH) > 20000:
            _FRESH.clear()
        if kind == "tv":
            import numpy as np

            s = build("sig", np.zeros((proj["len"], 1)), FS[proj["fs"]],
                      dict(m=1, sc=5, sm=0, var=0), 0, False)
            _FRESH[key] = (s.time_vector_s.copy(),)
        else:
            s = build(
                proj["cls"], material(proj["ch"], proj["len"]), FS[proj["fs"]],
                proj.get("sp", dict(m=2, sc=5, sm=0, var=0)), proj.get("sg", 0),
                False,
            )
            if proj.get("win"):
                s.set_window(window(proj["win"], s.time_data.shape))
            _FRESH[key] = read(s, kind, False)
    return _FRESH[key]


def read(s, kind, force):
    if kind == "spec":
        r = s.get_spectrum(force_computation=force)
    elif kind == "csm":
        r = s.get_csm(force_computation=force)
    elif kind == "gram":
        r = s.get_spectrogram(force_computation=force)
    else:
        return (s.time_vector_s.copy(),)
    out = tuple(a.copy() for a in r)
    for a in r:  # what the caller does with the answer must not matter
        a[...] = 77
    return out


def close(a, b):
    import numpy as np

    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return False
        if not np.allclose(x, y, rtol=1e-7, atol=1e-10, equal_nan=True):
            return False
    return True


def match(out, ob):
    if isinstance(ob, dict) and ob.get("err"):
        return False
    if isinstance(out, str) or isinstance(ob, str):
        return out == ob
    if list(out["meta"]) != list(ob["meta"]):
        return False
    for kind, val, real in zip(out["kinds"], out["vals"], ob["vals"]):
        if val == "none" or isinstance(real, str):
            if val != real:
                return False
        elif not close(fresh(kind, val), real):
            return False
    return True


class Ad(Adapter):
    def __init__(self, init):
        super().__init__(init)
        data = material([[[s, 1]] for s in init["src"]], srclen(init["src"][0]))
        self.s = build(init["cls"], data, FS[1],
                       dict(m=init["m"], sc=5, sm=0, var=0), 0, init["cache"])
        self.alt = None

    def meta(self):
        s = self.s
        from dsptoolbox.standard.enums import SpectrumScaling, SpectrumMethod

        inv = {v: k for k, v in FS.items()}
        m = s.metadata
        ok = (
            m["number_of_channels"] == s.number_of_channels
            and m["signal_length_samples"] == len(s) == s.length_samples
            and m["sampling_rate_hz"] == s.sampling_rate_hz
            and abs(s.length_seconds - len(s) / s.sampling_rate_hz) < 1e-12
        )
        return [
            s.number_of_channels if ok else -1,
            len(s),
            inv.get(s.sampling_rate_hz, -1),
            1 if s.spectrum_method == SpectrumMethod.WelchPeriodogram else 2,
            list(SpectrumScaling).index(s.spectrum_scaling) + 1,
            int(s.spectrum_smoothing),
        ]

    def apply(self, ev):
        s, op = self.s, ev["op"]
        if op == "read":
            vals = []
            for k in ev["kinds"]:
                if k == "csm" and s.number_of_channels < 2:
                    vals.append("none")
                else:
                    vals.append(read(s, k, ev["force"]))
            return {"kinds": ev["kinds"], "vals": vals, "meta": self.meta()}
        if op == "use":
            self.use(ev["what"])
        elif op == "reject":
            try:
                self.reject(ev["what"])
            except Exception:
                return "rejected"
            return "accepted"
        elif op == "data":
            s.time_data = material([[[i, 1]] for i in ev["src"]], srclen(ev["src"][0]))
        elif op == "add":
            s.add_channel(None, src(ev["one"]).copy(), s.sampling_rate_hz)
        elif op == "remove":
            s.remove_channel(ev["k"] - 1)
        elif op == "swap":
            s.swap_channels([i - 1 for i in ev["p"]])
        elif op == "constrain":
            s.constrain_amplitude = True
            s.constrain_amplitude = False
        elif op == "fs":
            s.sampling_rate_hz = FS[ev["v"]]
        elif op == "cache":
            s.activate_cache = ev["on"]
        elif op == "sp":
            s.set_spectrum_parameters(**sp_kwargs(ev))
        elif op == "method":
            s.spectrum_method = sp_kwargs(dict(m=ev["v"], sc=1, sm=0, var=0))["method"]
        elif op == "scaling":
            s.spectrum_scaling = sp_kwargs(dict(m=1, sc=ev["v"], sm=0, var=0))["scaling"]
        elif op == "smoothing":
            s.spectrum_smoothing = ev["v"]
        elif op == "sg":
            s.set_spectrogram_parameters(**sg_kwargs(ev["v"]))
        elif op == "window":
            if ev["v"]:
                s.set_window(window(ev["v"], s.time_data.shape))
            else:
                s.clear_time_window()
        elif op == "copy":
            self.alt = s
            self.s = s.copy()
        elif op == "get":
            self.alt = s
            self.s = s.get_channels([i - 1 for i in ev["c"]])
        elif op == "sum":
            self.alt = s
            self.s = s.sum_channels()
        elif op == "newdata":
            self.alt = s
            self.s = s.copy_with_new_time_data(
                material([[[i, 1]] for i in ev["src"]], srclen(ev["src"][0]))
            )
        elif op == "other":
            self.s, self.alt = self.alt, self.s
        else:
            raise common.MachineryError(op)
        return "done"

    def reject(self, what):
        import numpy as np

        s = self.s
        if what == "fs_float":
            s.sampling_rate_hz = 44.1
        elif what == "method_str":
            s.spectrum_method = "fft"
        elif what == "scaling_int":
            s.spectrum_scaling = 3
        elif what == "smoothing_neg":
            s.spectrum_smoothing = -1
        elif what == "data_3d":
            s.time_data = np.ones((20, 2, 2)) * 0.1
        elif what == "remove_far":
            s.remove_channel(50)
        elif what == "swap_repeat":
            s.swap_channels([0] * s.number_of_channels)
        elif what == "swap_short":
            s.swap_channels(list(range(s.number_of_channels + 1)))
        elif what == "add_fs":
            s.add_channel(None, np.ones(len(s)) * 0.1, s.sampling_rate_hz + 1)
        elif what == "window_shape":
            s.set_window(np.ones((len(s) + 1, s.number_of_channels)))
        elif what == "constrain_int":
            s.constrain_amplitude = 1

    def use(self, what):
        import matplotlib.pyplot as plt
        from dsptoolbox.standard.enums import MagnitudeNormalization as MN

        s = self.s
        try:
            if what == "magnitude":
                s.plot_magnitude(range_hz=None)
            elif what == "magnitude_norm":
                s.plot_magnitude(normalize=MN.Max, smoothing=2)
            elif what == "phase":
                s.plot_phase(range_hz=None)
            elif what == "group_delay":
                s.plot_group_delay(range_hz=None)
            elif what == "spl":
                s.plot_spl()
            elif what == "spectrogram":
                s.plot_spectrogram()
            elif what == "time":
                s.plot_time()
            elif what == "bode":
                s.plot_bode(smoothing=2)
            elif what == "plot_csm":
                s.plot_csm()
            elif what == "info":
                str(s), s.metadata, len(s), list(s)
            elif what == "save":
                with tempfile.TemporaryDirectory() as t:
                    s.save_signal(os.path.join(t, "a"), mode="wav")
                    s.save_signal(os.path.join(t, "a"), mode="pkl")
        finally:
            plt.close("all")


def run(c: Check):
    dsp()
    c.assumptions = [
        "five sample sources, up to three channels, two sampling rates and the listed parameter settings stand for all",
        "in-place edits of the array returned by time_data are outside the property",
    ]
    c.generate("AnalysisCacheGen", Ad, match, limit=c.n(5000, None))
    c.generate(
        "AnalysisCacheGen", Ad, match, cfg="AnalysisCacheFree",
        simulate=(c.n(300, 12000), 16), seed=c.seed,
    )
