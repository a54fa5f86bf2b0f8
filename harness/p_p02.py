"""P02: the multichannel container (spec/Channels.tla)."""

import os
import random
import tempfile

import common
from common import Adapter, Check, dsp, fx

SC = 4096
FS = {1: 8000, 2: 16000}


def mat(ch, den, cx):
    import numpy as np

    a = np.array(ch, dtype=float) / den  # channel, sample, re/im
    r, i = a[..., 0].T, a[..., 1].T
    return (r + 1j * i) if cx else r.copy()


def form(m, f):
    """The same samples in the shapes a user may pass."""
    import numpy as np

    if f == "list":
        return [list(c) for c in m.T]
    if f == "tuple":
        return tuple(m.T.copy())
    if f == "transposed" and m.shape[1] < m.shape[0]:
        return m.T.copy()
    if f == "flat" and m.shape[1] == 1:
        return m[:, 0].copy()
    if f == "extra":
        return m[None, ...].copy()
    if f == "strided":
        big = np.zeros((m.shape[0] * 2, m.shape[1]), dtype=m.dtype)
        big[::2] = m
        return big[::2]
    if f == "ints" and not np.iscomplexobj(m) and np.all(m == np.round(m)):
        return m.astype(int)
    if f == "fortran":
        return np.asfortranarray(m)
    return m.copy()


class Ad(Adapter):
    CLS = "sig"

    def make(self, o, con=False):
        d = dsp()
        C = d.ImpulseResponse if self.init.get("cls", self.CLS) == "ir" else d.Signal
        m = form(mat(o["ch"], o["den"], o["cx"]), o.get("form", ""))
        return C(None, m, FS[o["fs"]], constrain_amplitude=con)

    def __init__(self, init):
        super().__init__(init)
        self.s = self.make(init, init["con"])
        if init.get("cache"):
            self.s.activate_cache = True

    def dump(self, s):
        inv = {v: k for k, v in FS.items()}
        import numpy as np

        n = s.number_of_channels
        im = s.time_data_imaginary
        if s.is_complex_signal != (im is not None):
            return "complex flag"
        if s.time_data.shape != (len(s), n) or s.length_samples != len(s):
            return "shape"
        m = s.metadata
        if m["number_of_channels"] != n or m["signal_length_samples"] != len(s):
            return "metadata"
        it = list(s)
        if len(it) != n or not all(np.array_equal(it[c], s.time_data[:, c]) for c in range(n)):
            return "iteration"
        if im is None:
            im = np.zeros(s.time_data.shape)
        return {
            "n": n,
            "len": len(s),
            "cx": bool(s.is_complex_signal),
            "fs": inv.get(s.sampling_rate_hz, -1),
            "con": s.constrain_amplitude,
            "sf": fx(float(s.amplitude_scale_factor), SC),
            "re": fx(s.time_data.T, SC),
            "im": fx(im.T, SC),
        }

    def apply(self, ev):
        ok, res = True, None
        try:
            res = self.do(ev)
        except common.MachineryError:
            raise
        except Exception:
            ok = False
        out = {"ok": ok, "me": self.dump(self.s),
               "res": "none" if res is None else self.dump(res)}
        if res is not None and ev.get("take"):
            self.s = res
            out["me"] = out["res"]
            # the specification reports the source signal
            out["me"] = self.dump(self.prev)
        return out

    def do(self, ev):
        import numpy as np

        s, op = self.s, ev["op"]
        self.prev = s
        if op == "data":
            s.time_data = form(mat(ev["ch"], ev["den"], ev["cx"]), ev.get("form", ""))
        elif op == "imag":
            s.time_data_imaginary = np.array(ev["im"], dtype=float).T.copy()
        elif op == "real":
            s.time_data_imaginary = None
        elif op == "constrain":
            s.constrain_amplitude = ev["on"]
        elif op == "fs":
            s.sampling_rate_hz = FS[ev["v"]] if ev["valid"] else float(FS[ev["v"]])
        elif op == "add":
            m = mat(ev["ch"], ev["den"], ev["cx"])
            if ev.get("form") == "file" and not ev["cx"]:
                import soundfile as sf

                with tempfile.TemporaryDirectory() as t:
                    p = os.path.join(t, "x.wav")
                    sf.write(p, m, FS[ev["fs"]], subtype="DOUBLE")
                    s.add_channel(p, allow_padding_trimming=ev["fit"])
            else:
                s.add_channel(None, form(m, ev.get("form", "")), FS[ev["fs"]],
                              allow_padding_trimming=ev["fit"])
        elif op == "remove":
            s.remove_channel(ev["k"])
        elif op == "swap":
            s.swap_channels(np.array(ev["p"]) if ev.get("form") == "array" else list(ev["p"]))
        elif op == "get":
            p = list(ev["p"])
            return s.get_channels(p[0] if len(p) == 1 and ev.get("form") == "int" else p)
        elif op == "sum":
            return s.sum_channels()
        elif op == "copy":
            return s.copy()
        elif op == "append":
            import dsptoolbox as d

            return d.append_signals([s] + [self.make(o) for o in ev["oth"]],
                                    allow_padding_trimming=ev["fit"], at_end=ev["atend"])
        else:
            raise common.MachineryError(op)
        return None


class AdIr(Ad):
    CLS = "ir"


def near(o, v, den):
    return abs(o * den - v * SC) <= 2 * den


def sigmatch(e, o):
    if e == "big":
        return True
    if isinstance(e, str) or isinstance(o, str):
        return e == o
    if (o["n"], o["len"], o["cx"], o["fs"], o["con"]) != (
        len(e["ch"]), len(e["ch"][0]), e["cx"], e["fs"], e["con"]
    ):
        return False
    if not near(o["sf"], *e["sf"]):
        return False
    return all(
        near(o["re"][c][k], x[0], e["den"]) and near(o["im"][c][k], x[1], e["den"])
        for c, ch in enumerate(e["ch"])
        for k, x in enumerate(ch)
    )


def match(out, ob):
    return (
        not ob.get("err")
        and out["ok"] == ob["ok"]
        and sigmatch(out["me"], ob["me"])
        and sigmatch(out["res"], ob["res"])
    )


FORMS = ["", "list", "tuple", "transposed", "flat", "extra", "strided", "ints", "fortran"]


def rchan(rng, L, cx, big):
    m = rng.choice([4, 4, 9]) if big else 4
    return [[rng.randint(-m, m), rng.randint(-m, m) if cx else 0] for _ in range(L)]


def script(rng):
    L = rng.choice([4, 5, 6, 9, 16])
    n = rng.randint(1, 3)
    cx = rng.random() < 0.35
    init = dict(ch=[rchan(rng, L, cx, 1) for _ in range(n)], den=4, cx=cx, fs=1,
                con=rng.random() < 0.4, cls=rng.choice(["sig", "ir"]),
                form=rng.choice(FORMS), cache=rng.random() < 0.3)
    fs, evs = 1, []
    for _ in range(rng.randint(4, 12)):
        op = rng.choice(["data", "imag", "real", "constrain", "fs", "add", "add", "remove", "remove",
                         "swap", "swap", "get", "get", "sum", "copy", "append", "append"])
        ev = dict(op=op)
        bad = rng.random() < 0.25
        if op == "data":
            L = rng.choice([4, 5, 6, 9, 16])
            n = rng.randint(1, 3)
            cx = rng.random() < 0.35
            den = rng.choice([4, 4, 1])
            ev.update(ch=[rchan(rng, L, cx, 1) for _ in range(n)], den=den, cx=cx, form=rng.choice(FORMS))
        elif op == "imag":
            k = L + (1 if bad else 0)
            ev.update(im=[[rng.randint(-4, 4) for _ in range(k)] for _ in range(n)])
        elif op == "constrain":
            ev.update(on=rng.random() < 0.5)
        elif op == "fs":
            fs2 = rng.choice([1, 2])
            ev.update(v=fs2, valid=not bad)
            fs = fs if bad else fs2
        elif op == "add":
            if n + 1 > min(L, 5):
                continue
            k = rng.choice([L, L, L + 1, L + 3, max(2, L - 2)])
            m = 1 if n + 2 > min(L, 6) or k < 3 else rng.choice([1, 1, 2])
            cx2 = rng.random() < 0.3
            ev.update(ch=[rchan(rng, k, cx2, 1) for _ in range(m)], den=4, cx=cx2,
                      fs=3 - fs if bad else fs, fit=rng.random() < 0.7,
                      form=rng.choice(["", "flat", "transposed", "list", "file", "fortran"]))
            if ev["form"] == "file":
                for c in ev["ch"]:
                    for x in c:
                        pass
            if ev["form"] == "list":
                ev["form"] = "" if k <= m else "transposed"
            if not bad and (ev["fit"] or k == L):
                n += m
        elif op == "remove":
            k = rng.choice([-1, n, n + 5]) if bad else rng.randint(-1, n - 1)
            ev.update(k=k)
            if n > 1 and k < n:
                n -= 1
        elif op == "swap":
            p = list(range(n))
            rng.shuffle(p)
            if bad:
                p = rng.choice([p + [n], [0] * n, [x + 1 for x in p], [x - 1 for x in p]])
            ev.update(p=p, form=rng.choice(["array", ""]))
        elif op == "get":
            p = [rng.randint(0, n - 1) for _ in range(rng.randint(1, min(4, L)))]
            if bad:
                p = rng.choice([[n], [0, n + 1], [-1], [-1, 0]])
            take = rng.random() < 0.5
            ev.update(p=p, take=take, form=rng.choice(["int", ""]))
            if take and not any(x >= n for x in p):
                n = len(p)
        elif op == "sum":
            ev.update(take=rng.random() < 0.3)
            if ev["take"]:
                n = 1
        elif op == "copy":
            ev.update(take=rng.random() < 0.5)
        elif op == "append":
            oth, m = [], n
            for _ in range(rng.randint(1, 2)):
                if m + 1 > min(L, 6):
                    break
                k = rng.choice([L, L, L + 2, max(2, L - 1)])
                cx2 = rng.random() < 0.3
                q = 1 if m + 2 > min(L, 6) or k < 2 else rng.choice([1, 2])
                oth.append(dict(ch=[rchan(rng, k, cx2, 1) for _ in range(q)], den=4, cx=cx2,
                                fs=3 - fs if bad else fs))
                m += q
            if not oth:
                continue
            ev.update(oth=oth, fit=rng.random() < 0.7, atend=rng.random() < 0.6, take=rng.random() < 0.5)
            if ev["take"] and not bad and (ev["fit"] or all(len(o["ch"][0]) == L for o in oth)):
                n = m
        evs.append(ev)
    return init, evs


def run(c: Check):
    dsp()
    c.assumptions = [
        "samples are quarters in [-9/4, 9/4] stored in double precision and compared to 1/2048",
        "a signal has at least as many samples as channels (the constructor transposes otherwise)",
    ]
    c.generate("ChannelsGen", Ad, match, limit=c.n(None, None))
    c.generate("ChannelsGen", AdIr, match, simulate=(c.n(100, 2000), 8), cfg="ChannelsSim", seed=c.seed)
    rng = c.rng
    c.drive("ChannelsTrace", Ad, [script(rng) for _ in range(c.n(3000, 60000))])
