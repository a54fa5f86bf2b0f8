"""P08: edits of length and position (spec/Edit.tla)."""

import numpy as np
from common import Adapter, BAD, Check, MachineryError, dsp, fx, q, same

FS = {1: 1000, 2: 2000}
INV = {v: k for k, v in FS.items()}
NONE = 99999
S5 = 100000


def mat(ch, cx):
    a = np.array(ch, float)
    r, i = a[..., 0].T, a[..., 1].T
    return r + 1j * i if cx else r.copy()


def signal(b, kind="sig"):
    d = dsp()
    s = (d.ImpulseResponse if kind == "ir" else d.Signal)(None, mat(b["ch"], b["cx"]), FS[b["fs"]],
                                                          constrain_amplitude=False)
    s.calibrated_signal = True
    return s


def face(s):
    re = s.time_data
    im = s.time_data_imaginary if s.is_complex_signal else np.zeros(re.shape)
    return {"ch": [[[x, y] for x, y in zip(q(re[:, c]), q(im[:, c]))] for c in range(re.shape[1])],
            "cx": bool(s.is_complex_signal), "fs": INV[s.sampling_rate_hz]}


def sec(v):
    return None if v == NONE else v / 1000


class Ad(Adapter):
    def __init__(self, init):
        d = dsp()
        self.kind, self.mb = init["kind"], init["mb"]
        bs = [signal(b, self.kind) for b in init["bands"]]
        self.o = bs[0] if not self.mb else d.MultiBandSignal(
            bs, same_sampling_rate=len({b["fs"] for b in init["bands"]}) == 1
            and len({len(b["ch"][0]) for b in init["bands"]}) == 1)

    def bands(self, o):
        return list(o.bands) if self.mb else [o]

    def me(self):
        return [face(b) for b in self.bands(self.o)]

    def meta(self):
        d = dsp()
        want = d.ImpulseResponse if self.kind == "ir" else d.Signal
        return bool(isinstance(self.o, d.MultiBandSignal) == self.mb
                    and all(type(b) is want and b.calibrated_signal and not b.constrain_amplitude
                            for b in self.bands(self.o)))

    def apply(self, ev):
        old, was = self.o, self.me()
        self.given = []
        ok, res = True, []
        try:
            res = self.do(ev)
        except MachineryError:
            raise
        except Exception:
            ok = False
        touched = [face(b) for b in self.bands(old)] != was
        for o, w in self.given:
            touched |= face(o) != w
        if self.o is not old and not touched:  # the result is independent of its source
            now = self.me()
            for b in self.bands(old):
                b.time_data = b.time_data * 0.0 + 77.0
            touched = self.me() != now
        return {"ok": ok, "me": self.me(), "res": res, "meta": self.meta(), "touched": bool(touched)}

    def do(self, ev):
        d, o, op = dsp(), self.o, ev["op"]
        chs = None
        if "chs" in ev and not ev["all"]:
            chs = list(ev["chs"])
            chs = chs[0] if len(chs) == 1 else (np.array(chs) if sum(chs) % 2 else chs)
        if op == "pad":
            self.o = d.pad_trim(o, ev["n"], ev["atend"])
        elif op == "len":
            self.o = d.modify_signal_length(o, sec(ev["a"]), sec(ev["b"]))
        elif op == "level":
            r, a, e = d.trim_with_level_threshold(o, 20 * np.log10(ev["thr"] - 0.5), ev["start"], ev["end"])
            self.o = r
            return [int(a), int(e)]
        elif op == "time":
            self.o = d.trim_with_time_selection(o, sec(ev["a"]), sec(ev["b"]), ev["incl"])
        elif op == "delay":
            self.o = d.delay(o, ev["d"], chs, ev["keep"])
        elif op == "fdelay":
            self.o = d.fractional_delay(o, ev["d"] / 1000, chs, ev["keep"], ev["order"])
        elif op == "join":
            oth = [signal(b, self.kind) for b in ev["oth"]]
            self.given = [(b, face(b)) for b in oth]
            self.o = d.append_signals([o] + oth, allow_padding_trimming=ev["fit"], at_end=ev["atend"])
        elif op == "fade":
            t = {"none": d.FadeType.NoFade, "lin": d.FadeType.Linear, "log": d.FadeType.Logarithmic,
                 "exp": d.FadeType.Exponential}[ev["type"]]
            r = d.fade(o, t, (ev["l"] + 0.25) / o.sampling_rate_hz, ev["start"], ev["end"])
            if r.sampling_rate_hz != o.sampling_rate_hz or type(r) is not type(o):
                return BAD
            return [fx(r.time_data[:, c], S5) for c in range(r.number_of_channels)]
        elif op == "latency":
            x = np.array(ev["x"], float)
            ds = ev["ds"]
            L = len(x) + max(abs(k) for k in ds) + ev["extra"]
            base = max(0, -min(ds))
            td = np.zeros((L + base, len(ds)))
            for c, k in enumerate(ds):
                td[base + k:base + k + len(x), c] = x * (c + 1)
            ref = np.zeros((L + base, len(ds)))
            ref[base:base + len(x)] = x[:, None]
            if ev["two"]:
                a = (d.Signal(None, td, 1000, constrain_amplitude=False),
                     d.Signal(None, ref, 1000, constrain_amplitude=False))
            else:
                a = (d.Signal(None, np.concatenate([ref[:, :1], td], 1), 1000, constrain_amplitude=False), None)
            if ev["mb"]:
                a = tuple(None if v is None else d.MultiBandSignal([v, v.copy()]) for v in a)
            lag, cor = d.latency(*a, polynomial_points=ev["poly"])
            if ev["mb"]:
                if lag.shape != (2, len(ds)) or not np.array_equal(lag[0], lag[1]):
                    return BAD
                lag, cor = lag[0], cor[0]
            if len(cor) != len(ds) or np.any(np.abs(np.asarray(cor) - 1) > 1e-6):
                return BAD
            return q(np.asarray(lag, float), tol=1e-2)
        elif op == "frac":
            imp = np.zeros((60, 1))
            imp[20] = 1
            t = ev["d8"] / 8 / o.sampling_rate_hz
            h = d.fractional_delay(d.Signal(None, imp, o.sampling_rate_hz, constrain_amplitude=False), t,
                                   order=ev["order"]).time_data[:, 0]
            y = d.fractional_delay(o, t, chs, ev["keep"], ev["order"])
            n = len(y)
            slack = len(h) - 60 - ev["d8"] // 8 - (ev["order"] + 1) // 2
            return {"h": fx(h, S5), "len": n, "slack": slack,
                    "y": [fx(y.time_data[:, c], S5) for c in range(y.number_of_channels)]}
        else:
            raise MachineryError(op)
        return []


def near(a, b, tol=150):
    return len(a) == len(b) and all(len(x) == len(y) and all(abs(u - v) <= tol for u, v in zip(x, y))
                                    for x, y in zip(a, b))


def match(out, ob):
    if ob.get("err") or ob["touched"] or not ob["meta"] or out["ok"] != ob["ok"] or not same(out["me"], ob["me"]):
        return False
    if out["how"] == "near":
        return isinstance(ob["res"], list) and near(out["res"], ob["res"])
    return same(out["res"], ob["res"])


def rband(rng, nch, L, cx, fs):
    z = rng.random() < 0.4
    return dict(ch=[[[0 if z and rng.random() < 0.5 else rng.randint(-9, 9), rng.randint(-9, 9) if cx else 0]
                     for _ in range(L)] for _ in range(nch)], cx=cx, fs=fs)


def script(rng):
    mb = rng.random() < 0.3
    nch, cx, L = rng.randint(1, 3), rng.random() < 0.3, rng.randint(4, 24)
    nb = rng.randint(1, 3) if mb else 1
    fs = rng.choice([1, 2])
    bs = [rband(rng, nch, L, cx, fs) for _ in range(nb)]
    if mb and nb > 1 and rng.random() < 0.4:
        bs[-1] = rband(rng, nch, L + rng.randint(0, 4), cx, 3 - fs)
    init = dict(bands=bs, mb=mb, kind=rng.choice(["sig", "ir"]))
    lens = [(len(b["ch"][0]), b["fs"]) for b in bs]
    evs = []
    for _ in range(rng.randint(2, 6)):
        lo = min(n for n, _ in lens)
        op = rng.choice(["pad", "len", "time", "delay", "fdelay"] +
                        ([] if mb else ["level", "join", "fade", "fade", "latency", "frac"]))
        ev = dict(op=op)
        bad = rng.random() < 0.12
        one = len({f for _, f in lens}) == 1

        def pick():
            if rng.random() < 0.4:
                return True, []
            c = rng.sample(range(nch), rng.randint(1, nch))
            if bad and rng.random() < 0.5:
                c = rng.choice([c + [nch], c + c[:1]])
            return False, c

        if op == "pad":
            n = max(nch, rng.choice([rng.randint(1, 2 * lo), lo - 1, lo, lo + 1]))
            ev.update(n=n, atend=rng.random() < 0.5)
            if n > 40:
                continue
            if not (mb and not one):
                lens = [(n, f) for _, f in lens]
        elif op == "len":
            a, b = (rng.choice([NONE, 0, rng.randint(-lo, 6), rng.randint(-3, 3)]) for _ in range(2))
            ev.update(a=a, b=b)
            a0, b0 = (0 if v == NONE else v for v in (a, b))
            rej = (a == b == NONE) or any(n <= -a0 * f or n <= -b0 * f or (a0 < 0 and b0 < 0 and n <= -(a0 + b0) * f)
                                          for n, f in lens)
            new = [(n + (a0 + b0) * f, f) for n, f in lens]
            if not rej:
                if any(n < max(nch, 2) or n > 45 for n, _ in new):
                    continue
                lens = new
        elif op == "time":
            hi = lo + 2
            a = rng.choice([NONE, 0, rng.randint(0, hi), rng.randint(0, 3), -1 if bad else 1])
            b = rng.choice([NONE, rng.randint(0, hi), lo, lo - 1, lo + 1])
            incl = rng.random() < 0.5
            ev.update(a=a, b=b, incl=incl)
            rej, new = a == b == NONE, []
            for n, f in lens:
                st = 0 if a == NONE else a * f + (0 if incl else 1)
                en = n if b == NONE else min(n, b * f + (1 if incl else 0))
                rej |= (a != NONE and (a < 0 or a * f >= n)) or (b != NONE and (b <= 0 or b * f > n)) or en <= st
                new.append((en - st, f))
            if not rej:
                if any(n < max(nch, 2) for n, _ in new):
                    continue
                lens = new
        elif op in ("delay", "fdelay"):
            k = rng.choice([1, 2, rng.randint(1, lo + 2)])
            keep = rng.random() < 0.5
            al, c = pick()
            ev.update(d=k, all=al, chs=c, keep=keep)
            inv = not al and (len(set(c)) != len(c) or max(c) >= nch)
            if op == "delay":
                new = [(n + (0 if keep else k), f) for n, f in lens]
                rej = inv or (keep and any(k >= n for n, _ in lens))
            else:
                ev["order"] = rng.choice([2, 3, 7, 12, 30])
                new = [(n + (0 if keep else k * f + (ev["order"] + 1) // 2), f) for n, f in lens]
                rej = inv or (keep and any(k * f >= n for n, f in lens))
            if not rej:
                if any(n > 60 for n, _ in new):
                    continue
                lens = new
        elif op == "level":
            if evs:
                continue  # needs to know the samples
            thr = rng.randint(1, 5)
            ev.update(thr=thr, start=rng.random() < 0.7, end=rng.random() < 0.7)
            loud = [k for k in range(lo) if any(abs(c[k][0]) >= thr for c in bs[0]["ch"])]
            if not loud:
                continue
            if ev["start"] or ev["end"]:
                n = (loud[-1] + 1 if ev["end"] else lo) - (loud[0] if ev["start"] else 0)
                if n < max(2, nch):
                    continue
                lens = [(n, lens[0][1])]
        elif op == "join":
            if nch > 3:
                continue
            oth = [rband(rng, rng.randint(1, 2), max(2, lo + rng.choice([0, 0, 1, -1, 3, -4])), rng.random() < 0.3,
                         lens[0][1] if not bad else 3 - lens[0][1]) for _ in range(rng.randint(1, 2))]
            oth = [b for b in oth if len(b["ch"]) <= len(b["ch"][0])]
            fit = rng.random() < 0.7
            if nch + sum(len(b["ch"]) for b in oth) > lo:
                continue
            ev.update(oth=oth, fit=fit, atend=rng.random() < 0.5)
            if oth and not any(b["fs"] != lens[0][1] or (not fit and len(b["ch"][0]) != lo) for b in oth):
                nch += sum(len(b["ch"]) for b in oth)
        elif op == "fade":
            if lo < 5:
                continue
            ev.update(type=rng.choice(["none", "lin", "log", "exp"]), l=rng.randint(2, min(8, lo - 3)),
                      start=rng.random() < 0.7, end=rng.random() < 0.7)
        elif op == "latency":
            ev.update(x=[rng.choice([-1, 1]) * rng.randint(1, 9) for _ in range(rng.randint(12, 30))],
                      ds=[rng.choice([0, rng.randint(0, 9), rng.randint(-9, 9)]) for _ in range(rng.randint(1, 4))],
                      extra=rng.randint(4, 12), two=rng.random() < 0.5, mb=rng.random() < 0.3,
                      poly=rng.choice([0, 0, 0, 1]))
        elif op == "frac":
            al, c = (True, []) if rng.random() < 0.4 else (False, rng.sample(range(nch), rng.randint(1, nch)))
            order = rng.choice([4, 7, 20, 30, 31])
            d8 = rng.choice([rng.randint(1, 8 * 40), rng.randint(1, 40)])
            keep = rng.random() < 0.4
            if d8 % 8 == 0 or (keep and d8 >= 8 * lo):
                continue
            ev.update(d8=d8, all=al, chs=c, keep=keep, order=order)
        evs.append(ev)
    return init, evs


def run(c: Check):
    dsp()
    c.assumptions = ["samples are small integers, times lie on samples; signals keep at least as many samples as channels"]
    c.generate("EditGen", Ad, match, limit=c.n(8000, None))
    c.drive("EditTrace", Ad, [script(c.rng) for _ in range(c.n(3000, 60000))])
