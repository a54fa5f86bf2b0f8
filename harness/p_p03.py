"""P03: block streaming through filters and filter banks."""

import numpy as np
from common import Adapter, Check, arr, chans, dsp, q, fx, BAD
import lti

FS = 1000


def make_filter(secs, kind=None):
    d = dsp()
    if len(secs) == 1 and kind != "sos":
        return d.Filter.from_ba(
            np.array(secs[0]["b"], float), np.array(secs[0]["a"], float), FS
        )
    sos = np.array(
        [(s["b"] + [0, 0, 0])[:3] + (s["a"] + [0, 0, 0])[:3] for s in secs], float
    )
    sos = sos / sos[:, 3:4]
    return d.Filter.from_sos(sos, FS)


class Stream(Adapter):
    def __init__(self, init):
        d = dsp()
        self.fs = [
            make_filter(s, k)
            for s, k in zip(
                init["filters"], init.get("kinds", [None] * len(init["filters"]))
            )
        ]
        self.bank = d.FilterBank(list(self.fs))

    def sig(self, x):
        return dsp().Signal.from_time_data(arr(x), FS, False)

    def apply(self, ev):
        d = dsp()
        M = d.FilterBankMode
        op = ev["op"]
        one = len(self.fs) == 1
        if op == "init":
            (self.fs[0] if one else self.bank).initialize_zi(ev["n"])
            return "done"
        if op == "filter":
            x = self.sig(ev["x"])
            full = len(ev["sel"]) == x.number_of_channels
            sel = None if full else [c - 1 for c in ev["sel"]]
            y = self.fs[0].filter_signal(x, channels=sel, activate_zi=ev["keep"])
            return chans(y.time_data)
        if op == "multiband":
            mb = d.MultiBandSignal([self.sig(b) for b in ev["x"]])
            y = self.bank.filter_multiband_signal(mb, activate_zi=ev["keep"])
            return [chans(b.time_data) for b in y.bands]
        if op == "ir":
            mode = getattr(M, ev["mode"].capitalize())
            y = self.bank.get_ir(ev["len"], mode)
            if ev["mode"] == "parallel":
                return [chans(b.time_data) for b in y.bands]
            return chans(y.time_data)
        mode = getattr(M, op.capitalize())
        y = self.bank.filter_signal(self.sig(ev["x"]), mode, activate_zi=ev["keep"])
        if op == "parallel":
            return [chans(b.time_data) for b in y.bands]
        return chans(y.time_data)


def script(rng, thorough=False):
    """A random history: partition of a stream into blocks with interleaved
    stateless calls, channel selections, changes of channel count."""
    while True:
        K = rng.choice([1, 1, 1, 2, 3])
        fl = [lti.rand_filter(rng) for _ in range(K)]
        if all(lti.steady_ok(f) for f, _ in fl):
            break
    n = rng.choice([1, 1, 2, 2, 3, 4])
    init = {"filters": [f for f, _ in fl], "kinds": [k for _, k in fl]}
    modes = ["filter"] if K == 1 else [
        rng.choice(["parallel", "summed", "sequential", "multiband", "mix"])
    ]
    evs = []
    if rng.random() < 0.3:
        evs.append({"op": "init", "n": n})
    for _ in range(rng.randint(2, 7)):
        if rng.random() < 0.06:
            n = rng.randint(1, 4)
        # (the library reads an array with fewer samples than channels as
        # transposed, so blocks have at least as many samples as channels)
        L = max(n, rng.choice([1, 1, 2, 3, 4, 5, 8, 12]))
        mk = lambda: [
            [rng.randint(-4, 4) for _ in range(L)] for _ in range(n)
        ]
        op = modes[0]
        if op == "mix":
            op = rng.choice(["parallel", "summed", "sequential", "ir"])
        keep = rng.random() < 0.85
        if op == "filter":
            sel = list(range(1, n + 1))
            if n > 1 and rng.random() < 0.3:
                sel = sorted(rng.sample(sel, rng.randint(1, n - 1)))
                if rng.random() < 0.3:
                    sel = sel[::-1]
            evs.append({"op": op, "x": mk(), "sel": sel, "keep": keep})
        elif op == "multiband":
            evs.append({"op": op, "x": [mk() for _ in range(K)], "keep": keep})
        elif op == "ir":
            evs.append(
                {
                    "op": "ir",
                    "mode": rng.choice(["parallel", "summed", "sequential"]),
                    "len": rng.randint(8, 12),
                }
            )
        else:
            evs.append({"op": op, "x": mk(), "keep": keep})
    return init, evs


def bounded(init, evs):
    """Worst-case magnitude estimate so that no TLC integer overflows."""
    tot = sum(
        len((e["x"][0] if not isinstance(e["x"][0][0], list) else e["x"][0][0]))
        for e in evs
        if "x" in e
    )
    g = 8.0
    for f in init["filters"]:
        for s in f:
            imp = [abs(v) for v in lti.run([s], lti.zero([s]), [1] + [0] * (tot + 4))]
            st = lti.steady([s])
            g2 = float(sum(imp)) * g + 1
            g2 += abs(float(st[0][1][0])) * g * (tot + 4) if st[0][1] else 0
            g = max(g, g2)
        if g > 5e8:
            return False
    return g < 5e8


def run(c: Check):
    c.generate("FilterStreamGen", Stream, limit=c.n(6000, None))
    scripts = []
    while len(scripts) < c.n(1500, 12000):
        s = script(c.rng)
        if bounded(*s):
            scripts.append(s)
    c.drive("FilterStreamTrace", Stream, scripts)
    c.assumptions += [
        "integer-coefficient filters with exact divisions stand for all "
        "coefficients (the arithmetic is the same code path)"
    ]


# ------------------------------------------------ real-valued coefficients
SC = 1e6
FS2 = 8000


def build_stream(kind, rng):
    """A filter structure with real-valued coefficients; rng is seeded from
    the trace's init, so that every rebuild is the same object."""
    d = dsp()
    fb = d.filterbanks
    if kind == "iir":
        return d.Filter.iir_filter(
            rng.choice([1, 2, 3, 4, 5]), rng.uniform(200, 3000),
            rng.choice([d.FilterPassType.Lowpass, d.FilterPassType.Highpass]),
            FS2, rng.choice([d.IirDesignMethod.Butterworth, d.IirDesignMethod.Bessel]),
        )
    if kind == "bp":
        return d.Filter.iir_filter(
            rng.choice([1, 2, 3]), [rng.uniform(200, 900), rng.uniform(1200, 3500)],
            d.FilterPassType.Bandpass, FS2,
        )
    if kind == "fir":
        return d.Filter.fir_filter(
            rng.choice([2, 5, 17, 40]), rng.uniform(400, 3000),
            d.FilterPassType.Lowpass, window=d.Window.Hann, sampling_rate_hz=FS2,
        )
    if kind == "biquad":
        return d.Filter.biquad(
            rng.choice([d.BiquadEqType.Peaking, d.BiquadEqType.Lowshelf,
                        d.BiquadEqType.Highshelf, d.BiquadEqType.Notch]),
            rng.uniform(200, 3000), rng.uniform(-9, 9), rng.uniform(0.4, 3), FS2,
        )
    if kind == "lr":
        n = rng.choice([1, 2, 3])
        fr = sorted(rng.sample([150, 400, 900, 1700, 2900], n))
        return fb.linkwitz_riley_crossovers(
            fr, [rng.choice([2, 4, 8, 1, 3]) for _ in fr], FS2
        )
    if kind == "gamma":
        return fb.auditory_filters_gammatone([300, 1500], 3, FS2)
    if kind == "octave":
        r = fb.fractional_octave_bands([250, 1000], 1, rng.choice([2, 4]), FS2)
        return r[0] if isinstance(r, tuple) else r
    if kind == "recon":
        return fb.reconstructing_fractional_octave_bands(
            [250, 1000], 1, n_samples=2**6, sampling_rate_hz=FS2
        )
    if kind == "qmf":
        return fb.qmf_crossover(
            d.Filter.fir_filter(
                rng.choice([9, 15, 20]), FS2 / 4, d.FilterPassType.Lowpass,
                window=d.Window.Hann, sampling_rate_hz=FS2,
            )
        )
    if kind == "mixed":
        return d.FilterBank(
            [build_stream(rng.choice(["iir", "bp", "fir", "biquad"]), rng)
             for _ in range(rng.choice([2, 3]))]
        )
    raise AssertionError(kind)


def outputs(y):
    bands = y.bands if hasattr(y, "bands") else [y]
    out = [fx(b.time_data.T, SC) for b in bands]
    for b in bands:
        if b.time_data_imaginary is not None:
            out.append(fx(b.time_data_imaginary.T, SC))
    return out


class RefRun(Adapter):
    def __init__(self, init):
        import random

        self.o = build_stream(init["kind"], random.Random(init["seed"]))
        self.mode = init["mode"]
        r = np.random.default_rng(init["seed"])
        self.x = r.uniform(-0.4, 0.4, (init["len"], init["n"]))
        self.pos = 0
        if init.get("first"):
            self.o.initialize_zi(init["n"])

    def call(self, x, keep):
        d = dsp()
        s = d.Signal.from_time_data(x, FS2, False)
        if isinstance(self.o, d.Filter):
            return outputs(self.o.filter_signal(s, activate_zi=keep))
        return outputs(
            self.o.filter_signal(
                s, getattr(d.FilterBankMode, self.mode), activate_zi=keep
            )
        )

    def apply(self, ev):
        if ev["op"] == "whole":
            return self.call(self.x, True)
        if ev["op"] == "other":
            k = ev["what"]
            if k == "filter":
                self.call(self.x[: max(4, len(self.x) // 3)], False)
            elif k == "ir":
                if isinstance(self.o, dsp().Filter):
                    self.o.get_ir(600)
                else:
                    self.o.get_ir(600, getattr(dsp().FilterBankMode, self.mode))
            elif k == "copy":
                self.o = self.o.copy()
            return "done"
        if ev["op"] == "reset":
            self.o.initialize_zi(self.x.shape[1])
            self.pos = 0
            return "done"
        if ev["op"] == "block":
            x = self.x[self.pos : self.pos + ev["n"]]
            self.pos += ev["n"]
            return self.call(x, True)


def ref_script(rng):
    kind = rng.choice(
        ["iir", "bp", "fir", "biquad", "lr", "lr", "gamma", "octave", "recon",
         "qmf", "mixed", "mixed"]
    )
    n = rng.choice([1, 2, 3])
    ln = rng.choice([40, 90])
    if kind in ("gamma", "octave", "recon"):
        ln = 40
    mode = rng.choice(["Parallel", "Summed"] + (
        ["Sequential"] if kind in ("mixed", "qmf", "octave") else []))
    init = {"kind": kind, "seed": rng.randrange(10**6), "n": n, "len": ln,
            "mode": mode, "first": rng.random() < 0.3}
    evs = []
    pos = 0
    while pos < ln:
        if rng.random() < 0.2:
            evs.append({"op": "other", "what": rng.choice(["filter", "ir", "copy"])})
        if pos and rng.random() < 0.06:
            evs.append({"op": "reset"})
            pos = 0
        k = min(ln - pos, max(n, rng.choice([1, 2, 3, 7, 16, 30])))
        if ln - pos - k < n:
            k = ln - pos
        evs.append({"op": "block", "n": k})
        pos += k
    return init, evs


def ref_record(args):
    """ref = the answer of a fresh object to the whole stream."""
    cls, init, evs = args
    from common import record

    try:
        init = dict(init, ref=cls(init).apply({"op": "whole"}))
    except Exception:
        import traceback

        return {"init": init, "events": [], "failed": traceback.format_exc()}
    return record((cls, init, evs))


def run_refs(c, cls, scripts):
    from common import pmap

    c.validate("RefStreamTrace", pmap(ref_record, [(cls, i, e) for i, e in scripts]))


_run_exact = run


def run(c: Check):
    _run_exact(c)
    run_refs(c, RefRun, [ref_script(c.rng) for _ in range(c.n(500, 4000))])
