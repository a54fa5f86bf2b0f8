"""P05: filter banks as compositions of their filters (spec/Bank.tla)."""

import math

import numpy as np
import lti
from common import Adapter, Check, MachineryError, chans, dsp, fx, q

FS = {1: 1000, 2: 2000}
IRL = 8
SCF = 1024


def make_filter(f):
    d = dsp()
    s = f["secs"]
    if f["kind"] == "ba":
        return d.Filter.from_ba(np.array(s[0]["b"], float), np.array(s[0]["a"], float), FS[f["fs"]])
    sos = np.array([(x["b"] + [0, 0, 0])[:3] + (x["a"] + [0, 0, 0])[:3] for x in s], float)
    return d.Filter.from_sos(sos / sos[:, 3:4], FS[f["fs"]])


def face(f, tol=1e-6):
    inv = {v: k for k, v in FS.items()}
    imp = np.zeros(IRL)
    imp[0] = 1.0
    s = dsp().Signal.from_time_data(imp, f.sampling_rate_hz, False)
    return {"fs": inv[f.sampling_rate_hz], "fir": bool(f.is_fir),
            "ir": q(f.filter_signal(s).time_data[:, 0], tol=tol)}


def sigface(s):
    im = s.time_data_imaginary
    return {"re": chans(s.time_data), "im": [] if im is None else chans(im), "cx": bool(s.is_complex_signal)}


def state(f):
    zi = getattr(f, "zi", None)
    return (f.sampling_rate_hz, f.order, f.is_fir, None if zi is None else np.array(zi).tolist(),
            [np.asarray(c).tolist() for c in (f.sos if f.has_sos else f.ba)])


class Ad(Adapter):
    def __init__(self, init):
        d = dsp()
        self.bank = d.FilterBank([make_filter(f) for f in init["bank"]])
        self.n = len(init["bank"])

    def me(self):
        b = self.bank
        n = b.number_of_filters
        if len(b) != n or len(list(b)) != n or b.metadata["number_of_filters"] != n:
            return "inconsistent"
        ms = [face(f) for f in b.filters]
        fs = 0
        if hasattr(b, "sampling_rate_hz"):
            fs = {v: k for k, v in FS.items()}[b.sampling_rate_hz]
        return {"fs": fs, "members": ms}

    def apply(self, ev):
        ok, res, kind = True, "none", "plain"
        self.given = []
        members = list(self.bank.filters)
        before = [state(f) for f in members]
        touched = False
        try:
            res, kind = self.do(ev)
        except MachineryError:
            raise
        except Exception:
            ok, res = False, "none"
        touched |= before != [state(f) for f in members]
        for get, was in self.given:
            touched |= get() != was
        return {"ok": ok, "me": self.me(), "res": res, "kind": kind, "touched": bool(touched)}

    def keep(self, get):
        self.given.append((get, get()))

    def signal(self, ev, x=None, xi=None):
        x = np.array(ev["x"] if x is None else x, float).T
        xi = ev.get("xi")
        if ev.get("cx"):
            x = x + 1j * np.array(xi, float).T
        s = dsp().Signal.from_time_data(x, FS[ev.get("fs", 1)], False)
        self.keep(lambda: (sigface(s), s.sampling_rate_hz, s.constrain_amplitude))
        return s

    def bankout(self, y, mode):
        d = dsp()
        if mode == "parallel":
            if type(y) is not d.MultiBandSignal:
                return "type"
            return [sigface(b) for b in y.bands]
        return sigface(y)

    def do(self, ev):
        d = dsp()
        b, op = self.bank, ev["op"]
        M = d.FilterBankMode
        if op == "add":
            f = make_filter(ev["f"])
            self.keep(lambda: state(f))
            r = b.add_filter(f, ev["at"]) if ev["at"] != -1 else b.add_filter(f)
            if r is not b or not any(x is f for x in b.filters):
                return "not the filter", "plain"
        elif op == "remove":
            want = None
            if ev["ret"]:
                f = b.remove_filter(ev["k"], return_filter=True)
                return face(f), "plain"
            b.remove_filter(ev["k"])
        elif op == "swap":
            b.swap_filters(np.array(ev["p"]) if len(ev["p"]) % 2 else list(ev["p"]))
        elif op == "set":
            fl = [make_filter(f) for f in ev["fl"]]
            if not ev["valid"]:
                fl.append("not a filter")
            if ev.get("new"):
                nb = d.FilterBank(fl)
                self.bank = nb
            else:
                b.filters = fl
            n = len(fl)
            fl.append(None)  # the caller keeps using its list
            fl.clear()
        elif op == "copy":
            self.bank = b.copy()
        elif op == "append":
            others = [d.FilterBank([make_filter(f) for f in x]) for x in ev["banks"]]
            for o in others + [b]:
                self.keep(lambda o=o: [state(f) for f in o.filters])
            self.bank = d.append_filterbanks([b] + others)
        elif op == "gain":
            g = 20 * np.log10(2.0) * np.array(ev["g"], float)
            self.keep(lambda: [state(f) for f in b.filters])
            self.bank = d.apply_gain(b, float(g[0]) if len(g) == 1 else g)
        elif op == "merge":
            self.keep(lambda: [state(f) for f in b.filters])
            f = d.merge_filters(b if ev["len"] % 2 else list(b.filters))
            r = face(f, 1e-4)
            imp = np.zeros(ev["len"])
            imp[0] = 1
            s = d.Signal.from_time_data(imp, f.sampling_rate_hz, False)
            r["ir"] = q(f.filter_signal(s).time_data[:, 0], tol=1e-4)
            return r, "plain"
        elif op == "filter":
            s = self.signal(ev)
            return self.bankout(b.filter_signal(s, getattr(M, ev["mode"].capitalize())), ev["mode"]), "plain"
        elif op == "multi":
            mb = d.MultiBandSignal([self.signal(ev, x) for x in ev["x"]])
            self.keep(lambda: [sigface(x) for x in mb.bands])
            y = b.filter_multiband_signal(mb)
            return [chans(x.time_data) for x in y.bands], "plain"
        elif op == "ir":
            return self.bankout(b.get_ir(ev["len"], getattr(M, ev["mode"].capitalize())), ev["mode"]), "plain"
        elif op == "member":
            return q(b.filters[ev["k"] - 1].get_ir(ev["len"]).time_data[:, 0]), "plain"
        elif op == "tf":
            w = np.array(ev["w"], float) * b.sampling_rate_hz / 4
            h = b.get_transfer_function(w, getattr(M, ev["mode"].capitalize()))
            if h.shape != ((len(w), len(b)) if ev["mode"] == "parallel" else (len(w),)):
                return "shape", "plain"
            h = h.reshape(len(w), -1)
            return [[[fx(v.real, SCF), fx(v.imag, SCF)] for v in r] for r in h], "tf"
        elif op == "relation":
            return self.relation(ev), "relation"
        else:
            raise MachineryError(op)
        return "none", "plain"

    def relation(self, ev):
        """Members designed from real-valued parameters: the bank and its
        members are observed, the specification relates them."""
        d = dsp()
        M = d.FilterBankMode
        rng = np.random.default_rng(ev["seed"])
        fs, fl = 8000, []
        for _ in range(ev["k"]):
            r = rng.integers(4)
            if r == 0:
                fl.append(d.Filter.biquad(list(d.BiquadEqType)[rng.integers(13)], float(rng.uniform(100, 3000)),
                                          float(rng.uniform(-9, 9)), float(rng.uniform(0.4, 2)), fs))
            elif r == 1:
                fl.append(d.Filter.fir_filter(int(rng.integers(1, 9)) * 2, float(rng.uniform(300, 3000)),
                                              d.FilterPassType.Lowpass, fs))
            elif r == 2:
                fl.append(d.Filter.iir_filter(int(rng.integers(1, 6)), float(rng.uniform(300, 3000)),
                                              d.FilterPassType.Highpass, fs))
            else:
                b, a = rng.normal(size=rng.integers(1, 5)), rng.normal(size=rng.integers(1, 4)) * 0.2
                a[0] = 1.0
                if ev["cx"]:
                    b = b + 1j * rng.normal(size=len(b))
                fl.append(d.Filter.from_ba(b, a, fs))
        for f in fl:
            f.warning_if_complex = False
        bank = d.FilterBank(fl)
        x = rng.normal(size=(ev["len"], ev["ch"]))
        if ev["cx"]:
            x = x + 1j * rng.normal(size=x.shape)
        s = d.Signal.from_time_data(x, fs, False)

        def flat(y):
            v = y.time_data.T.ravel()
            i = y.time_data_imaginary
            return fx(np.concatenate([v, np.zeros(len(v)) if i is None else i.T.ravel()]), SCF)

        z = ev["zero_phase"]
        if ev["mode"] == "tfsummed":
            w = np.linspace(10, 3900, 40)
            h = bank.get_transfer_function(w, M.Summed)
            return {"bank": fx(np.r_[h.real, h.imag], SCF),
                    "each": [fx(np.r_[t.real, t.imag], SCF) for t in (f.get_transfer_function(w) for f in fl)],
                    "chained": []}
        y = bank.filter_signal(s, getattr(M, ev["mode"].capitalize()), zero_phase=z)
        each, t = [], s
        for f in fl:
            each.append(flat(f.filter_signal(s, zero_phase=z)))
            t = f.filter_signal(t, zero_phase=z)
        if ev["mode"] == "parallel":
            bk = [flat(v) for v in y.bands]
        else:
            bk = flat(y)
        return {"bank": bk, "each": each, "chained": flat(t)}


def near(o, v, den):
    return abs(o * den - v * SCF) <= 2 * den


def match(out, ob):
    from common import same

    if ob.get("err") or ob["touched"] or not same(out["me"], ob["me"]):
        return False
    if out["res"] == "free":
        return True
    if out["ok"] != ob["ok"]:
        return False
    if ob["kind"] == "plain":
        return same(out["res"], ob["res"])
    if ob["kind"] == "tf":
        return len(ob["res"]) == len(out["res"]) and all(
            len(a) == len(b) and all(
                near(x[0], z["re"], z["den"]) and near(x[1], z["im"], z["den"]) for x, z in zip(a, b))
            for a, b in zip(ob["res"], out["res"]))
    return False


DENS = [[1, 1, 1], [1, -1, 1]]  # no poles at 0, fs/4, fs/2


def rfilter(rng, fs=1):
    r = rng.random()
    if r < 0.5:
        b = [rng.randint(-3, 3) for _ in range(rng.randint(1, 6))]
        if not any(b):
            b[-1] = 1
        a = [1] + [0] * rng.choice([0, 0, 1, 2])
        if rng.random() < 0.3:
            a[0] = 2
            b = [2 * v for v in b]
        return dict(secs=[dict(b=b, a=a)], kind="ba", fs=fs)
    if r < 0.75:
        b = [rng.randint(-3, 3) for _ in range(rng.randint(1, 4))]
        if not any(b):
            b[-1] = 1
        k = rng.choice([1, 1, 2, -1])
        return dict(secs=[dict(b=[v * k for v in b], a=[v * k for v in rng.choice(DENS)])], kind="ba", fs=fs)
    secs = []
    for _ in range(rng.randint(1, 2)):
        b = [rng.randint(-2, 3) for _ in range(3)]
        if not any(b):
            b[0] = 1
        secs.append(dict(b=b, a=list(rng.choice(DENS + [[1, 0, 0]]))))
    return dict(secs=secs, kind="sos", fs=fs)


def fine(bank, gains=0, L=16):
    """numbers stay small (choice of inputs only)"""
    g = 4.0 * 2**gains
    den = 1
    for f in bank:
        for s in f["secs"]:
            imp = [abs(v) for v in lti.run([s], lti.zero([s]), [1] + [0] * L)]
            g *= float(sum(imp))
            a = s["a"]
            if len([v for v in a if v]) > 1:
                den *= 9
    return g < 2e6 and den <= 9**3


def tf_fine(bank, mode):
    """products inside the specification stay below 2^31"""
    L = [(1, 1)] * 3
    num, den = 1, 1
    worst = 0
    acc = (0, 1)
    for f in bank:
        n, d = 1, 1
        for s in f["secs"]:
            n *= max(1, sum(abs(v) for v in s["b"])) * max(1, sum(abs(v) for v in s["a"]))
            d *= 9 * s["a"][0] ** 2 if len([v for v in s["a"] if v]) > 1 else s["a"][0] ** 2
        num, den = num * n, den * d
        acc = (acc[0] * d + n * acc[1], acc[1] * d)
        worst = max(worst, num, den, *acc, acc[0] * SCF // 4 if False else 0)
    return worst * (SCF if worst < 2**20 else 2**20) < 2**30


def script(rng):
    bank = [rfilter(rng) for _ in range(rng.choice([0, 1, 2, 3]))]
    gains = 0
    if not fine(bank):
        bank = bank[:1]
    init = dict(bank=[dict(f) for f in bank])
    evs = []
    fs = 1 if bank else 0
    ops = ["add", "add", "remove", "swap", "set", "copy", "append", "gain", "merge", "filter", "filter", "ir",
           "member", "tf", "tf", "multi", "relation"]
    for _ in range(rng.randint(4, 10)):
        op = rng.choice(ops)
        n = len(bank)
        bad = rng.random() < 0.2
        ev = dict(op=op)
        if op == "add":
            f = rfilter(rng, (3 - fs if bad else fs) if fs else 1)
            if n > 4 or not fine(bank + [f], gains):
                continue
            at = rng.choice([-1] + list(range(n + 1)))
            ev.update(f=f, at=at)
            if n == 0 or f["fs"] == fs:
                fs = f["fs"]
                bank.insert(n if at == -1 else at, f)
        elif op == "remove":
            k = rng.choice([n, n + 3]) if bad else rng.randint(-1, max(0, n - 1))
            ev.update(k=k, ret=rng.random() < 0.5)
            if n and k < n:
                bank.pop(k)
        elif op == "swap":
            p = list(range(n))
            rng.shuffle(p)
            if n < 1:
                continue
            if bad:
                p = rng.choice([p + [n], [0] * n if n > 1 else [1], [x + 1 for x in p]])
            else:
                bank = [bank[k] for k in p]
            ev.update(p=p)
        elif op == "set":
            g = rng.choice([1, 2])
            fl = [rfilter(rng, g) for _ in range(rng.randint(1, 3))]
            if not fine(fl):
                continue
            ev.update(fl=fl, valid=True, new=rng.random() < 0.3)
            if bad:
                if rng.random() < 0.5:
                    fl.append(rfilter(rng, 3 - g))
                else:
                    ev["valid"] = False
            else:
                bank, fs, gains = [dict(f) for f in fl], g, 0
        elif op == "append":
            if n == 0:
                continue
            g = 3 - fs if bad else fs
            banks = [[rfilter(rng, g) for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(1, 2))]
            flat = [f for x in banks for f in x]
            if len(flat) + n > 5 or not fine(bank + flat, gains):
                continue
            ev.update(banks=banks)
            if not bad:
                bank = bank + flat
        elif op == "gain":
            if gains > 2 or n == 0:
                continue
            g = [rng.randint(0, 2) for _ in range(rng.choice([1, n, n + 1 if bad else n]))]
            ev.update(g=g)
            gains += sum(g) if len(g) > 1 else g[0] * n
            if len(g) in (1, n):
                bank = [dict(f, secs=f["secs"][:-1] + [dict(f["secs"][-1], b=[v * 2 ** (g[0] if len(g) == 1 else g[k]) for v in f["secs"][-1]["b"]])])
                        for k, f in enumerate(bank)]
        elif op == "merge":
            # roots of repeated factors are not computed accurately
            if n > 3:
                continue
            ev.update(len=rng.randint(8, 10))
        elif op == "filter":
            ch = rng.randint(1, 3)
            L = rng.randint(max(ch, 2), 9)
            cx = rng.random() < 0.3
            mk = lambda: [[rng.randint(-4, 4) for _ in range(L)] for _ in range(ch)]
            ev.update(x=mk(), xi=mk() if cx else [], cx=cx, mode=rng.choice(["parallel", "sequential", "summed"]),
                      fs=(3 - fs if bad else fs) if fs else 1)
            if n == 0:
                continue
        elif op == "multi":
            if n == 0:
                continue
            ch = rng.randint(1, 2)
            L = rng.randint(3, 8)
            ev.update(x=[[[rng.randint(-4, 4) for _ in range(L)] for _ in range(ch)] for _ in range(n)], fs=fs)
        elif op == "ir":
            if n == 0:
                continue
            ev.update(len=rng.randint(8, 12), mode=rng.choice(["parallel", "sequential", "summed"]))
        elif op == "member":
            if n == 0:
                continue
            ev.update(k=rng.randint(1, n), len=rng.randint(3, 10))
        elif op == "tf":
            ev.update(w=rng.choice([[0, 1, 2], [2], [1, 0]]), mode=rng.choice(["parallel", "sequential", "summed"]))
            if n == 0 or not tf_fine(bank, ev["mode"]):
                continue
        elif op == "relation":
            mode = rng.choice(["parallel", "sequential", "summed", "tfsummed"])
            cx = rng.random() < 0.4
            ev.update(mode=mode, seed=rng.randint(0, 10**6), k=rng.randint(1, 4), ch=rng.randint(1, 2),
                      len=rng.randint(60, 80), cx=cx,
                      zero_phase=bool(rng.random() < 0.3 and not cx))
        evs.append(ev)
    return init, evs


def run(c: Check):
    dsp()
    c.assumptions = [
        "member filters have small integer coefficients; real-valued designs are covered by relating the bank to its members",
        "exact transfer functions are compared at 0, fs/4 and fs/2, real-valued ones on a grid for the summed mode",
    ]
    c.generate("BankGen", Ad, match, limit=c.n(5000, None))
    c.drive("BankTrace", Ad, [script(c.rng) for _ in range(c.n(2000, 40000))])
