"""P06: multiband signals (spec/Bands.tla)."""

import numpy as np
from common import Adapter, Check, MachineryError, dsp, q, same

FS = {1: 1000, 2: 2000}
INV = {v: k for k, v in FS.items()}


def mat(ch, cx):
    a = np.array(ch, float)
    r, i = a[..., 0].T, a[..., 1].T
    return r + 1j * i if cx else r.copy()


def signal(b, ir=False):
    d = dsp()
    return (d.ImpulseResponse if ir else d.Signal)(None, mat(b["ch"], b["cx"]), FS[b["fs"]],
                                                   constrain_amplitude=False)


def pairs(re, im=None):
    """(samples, channels) -> channels of [re, im]"""
    re = np.asarray(re)
    if np.iscomplexobj(re):
        re, im = re.real, re.imag
    if im is None:
        im = np.zeros(re.shape)
    return [[[x, y] for x, y in zip(q(re[:, c]), q(im[:, c]))] for c in range(re.shape[1])]


def face(s):
    return {"ch": pairs(s.time_data, s.time_data_imaginary), "cx": bool(s.is_complex_signal),
            "fs": INV[s.sampling_rate_hz]}


class Ad(Adapter):
    def __init__(self, init):
        d = dsp()
        self.ir = init.get("ir", False)
        self.m = d.MultiBandSignal([signal(b, self.ir) for b in init["bands"]], same_sampling_rate=init["same"])

    def me(self):
        m = self.m
        if len(m) != m.number_of_bands or len(list(m)) != len(m):
            return "inconsistent"
        if any(a is not b for a, b in zip(m, m.bands)):
            return "iteration"
        if m.metadata["number_of_bands"] != len(m):
            return "metadata"
        return {"bands": [face(b) for b in m.bands], "same": m.same_sampling_rate}

    def apply(self, ev):
        self.given = []
        olds = list(self.m.bands)
        before = [face(b) for b in olds]
        ok, res = True, "none"
        try:
            res = self.do(ev)
        except MachineryError:
            raise
        except Exception:
            ok, res = False, "none"
        touched = before != [face(b) for b in olds]
        for o, was in self.given:
            touched |= [face(b) for b in o] != was
        return {"ok": ok, "me": self.me(), "res": res, "touched": bool(touched)}

    def keep(self, sigs):
        sigs = list(sigs)
        self.given.append((sigs, [face(b) for b in sigs]))

    def do(self, ev):
        d = dsp()
        m, op = self.m, ev["op"]
        if op == "add":
            b = signal(ev["b"], self.ir)
            self.keep([b])
            m.add_band(b, ev["at"]) if ev["at"] != -1 else m.add_band(b)
            if not any(x is b for x in m.bands):
                return "not the band"
        elif op == "remove":
            if ev["ret"]:
                return face(m.remove_band(ev["k"], return_band=True))
            m.remove_band(ev["k"])
        elif op == "swap":
            m.swap_bands(np.array(ev["p"]) if len(ev["p"]) % 2 else list(ev["p"]))
        elif op == "set":
            bl = [signal(b, self.ir) for b in ev["bl"]]
            self.keep(bl)
            lst = bl + ([] if ev["valid"] else [np.zeros(4)])
            if ev.get("new"):
                self.m = d.MultiBandSignal(lst, same_sampling_rate=m.same_sampling_rate)
            else:
                m.bands = tuple(lst) if len(lst) == 2 else lst
            lst.clear()  # the caller keeps using its list
        elif op == "copy":
            self.m = m.copy()
            if m.bands:  # whatever happens to a copy stays there
                c = m.copy()
                td = c.bands[0].time_data
                td += 100.0
                c.bands[0].time_data = td
                c.bands.pop()
        elif op == "collapse":
            s = m.collapse()
            r = face(s)
            s.time_data = np.ones(s.time_data.shape) * 50.0  # must not reach the bands
            return r
        elif op == "channel":
            r = m.get_all_bands(ev["c"] - 1)
            if m.same_sampling_rate:
                if type(r) is not type(m.bands[0]):
                    return "type"
                out = face(r)
                td = r.time_data
                td += 1000.0
                return {"ch": out["ch"], "cx": out["cx"], "fs": [out["fs"]]}
            td, fs = r
            out = {"ch": [pairs(np.asarray(v)[:, None])[0] for v in td],
                   "cx": bool(any(np.iscomplexobj(v) for v in td)), "fs": [INV[f] for f in fs]}
            for v in td:
                v += 1000.0
            return out
        elif op == "all":
            r = m.get_all_time_data()
            if m.same_sampling_rate:
                td, fs = r
                if td.shape != (m.length_samples, len(m), m.number_of_channels):
                    return "shape"
                out = [{"ch": pairs(td[:, k, :]), "cx": bool(np.iscomplexobj(td)), "fs": INV[fs]}
                       for k in range(td.shape[1])]
                td += 1000.0
                return out
            out = [{"ch": pairs(td), "cx": bool(np.iscomplexobj(td)), "fs": INV[fs]} for td, fs in r]
            for td, _ in r:
                td += 1000.0
            return out
        elif op == "append":
            oth = [d.MultiBandSignal([signal(b, self.ir) for b in o], same_sampling_rate=m.same_sampling_rate)
                   for o in ev["oth"]]
            for o in oth:
                self.keep(o.bands)
            lst = [m] + oth
            new = d.append_signals(lst, allow_padding_trimming=ev["fit"], at_end=ev["atend"])
            if len(lst) != 1 + len(oth):
                return "list changed"
            self.m = new
        elif op == "info":
            if not m.bands:
                return {"n": len(m), "ch": 0, "len": [m.length_samples], "cx": bool(m.is_complex_signal), "fs": []}
            n = m.length_samples
            f = m.sampling_rate_hz
            one = m.same_sampling_rate
            return {"n": m.number_of_bands, "ch": m.number_of_channels, "len": [n] if one else n,
                    "cx": bool(m.is_complex_signal), "fs": [INV[f]] if one else [INV[x] for x in f]}
        else:
            raise MachineryError(op)
        return "none"


def match(out, ob):
    if ob.get("err") or ob["touched"] or not same(out["me"], ob["me"]):
        return False
    return out["res"] == "free" or (out["ok"] == ob["ok"] and same(out["res"], ob["res"]))


def rband(rng, nch, L, cx, fs):
    return dict(ch=[[[rng.randint(-9, 9), rng.randint(-9, 9) if cx else 0] for _ in range(L)] for _ in range(nch)],
                cx=cx, fs=fs)


def ok(bs, one):
    return all(len(b["ch"]) == len(bs[0]["ch"]) and b["cx"] == bs[0]["cx"]
               and (not one or (b["fs"] == bs[0]["fs"] and len(b["ch"][0]) == len(bs[0]["ch"][0]))) for b in bs)


def script(rng):
    one = rng.random() < 0.65
    nch, cx, L = rng.randint(1, 3), rng.random() < 0.4, rng.randint(6, 9)

    def band(bad=False):
        a = [nch, L, cx, 1]
        if not one:
            a[1] = rng.randint(6, 9)
            a[3] = rng.choice([1, 2])
        if bad:
            k = rng.randrange(4)
            a[k] = [a[0] % 3 + 1, a[1] + 1, not cx, 3 - a[3]][k]
        return rband(rng, *a)

    bands = [band() for _ in range(rng.choice([0, 1, 2, 3]))]
    init = dict(bands=list(bands), same=one, ir=rng.random() < 0.3)
    evs = []
    for _ in range(rng.randint(4, 10)):
        n = len(bands)
        op = rng.choice(["add", "add", "remove", "swap", "set", "copy", "collapse", "channel", "all", "append", "info"])
        bad = rng.random() < 0.25
        ev = dict(op=op)
        if op == "add":
            b = band(bad)
            at = rng.choice([-1] + list(range(n + 1)))
            new = bands[:n if at == -1 else at] + [b] + bands[n if at == -1 else at:]
            if n > 4:
                continue
            ev.update(b=b, at=at)
            if ok(new, one):
                bands = new
        elif op == "remove":
            k = rng.choice([n, n + 2]) if bad else rng.randint(-1, max(0, n - 1))
            ev.update(k=k, ret=rng.random() < 0.5)
            if n and k < n:
                bands = list(bands)
                bands.pop(k)
        elif op == "swap":
            if n < 1:
                continue
            p = list(range(n))
            rng.shuffle(p)
            if bad:
                p = rng.choice([p + [n], [0] * n if n > 1 else [1], [x + 1 for x in p], [x - 1 for x in p]])
            else:
                bands = [bands[k] for k in p]
            ev.update(p=p)
        elif op == "set":
            bl = [band() for _ in range(rng.randint(0, 3))]
            valid = True
            if bad:
                if rng.random() < 0.5:
                    bl.insert(rng.randint(0, len(bl)), band(True))
                else:
                    valid = False
            ev.update(bl=bl, valid=valid, new=rng.random() < 0.3)
            if valid and ok(bl, one):
                bands = bl
                if bl and len({len(b["ch"][0]) for b in bl}) == 1:
                    L = len(bl[0]["ch"][0])
        elif op == "channel":
            ev.update(c=nch + 1 if bad else rng.randint(1, nch))
        elif op == "append":
            if n == 0 or nch > 2:
                continue
            oth = []
            for _ in range(rng.randint(1, 2)):
                o = []
                df = rng.choice([0, 0, 1, -2])
                for b in bands:
                    o.append(rband(rng, rng.choice([1]), len(b["ch"][0]) + df, b["cx"], b["fs"]))
                if bad:
                    o = rng.choice([o[:-1], [dict(x, fs=3 - x["fs"]) for x in o]])
                    if not o:
                        o = [dict(b, fs=3 - b["fs"]) for b in bands]
                oth.append(o)
            ev.update(oth=oth, fit=rng.random() < 0.7, atend=rng.random() < 0.6)
            fits = [[len(b["ch"][0]) for b in o] for o in oth] == [[len(b["ch"][0]) for b in bands]] * len(oth)
            if not bad and (ev["fit"] or fits):
                bands = [dict(b, ch=b["ch"] + [[[0, 0]] * len(b["ch"][0])] * len(oth)) for b in bands]
                nch = len(bands[0]["ch"])
        evs.append(ev)
        if bands:
            nch, cx = len(bands[0]["ch"]), bands[0]["cx"]
            if one:
                L = len(bands[0]["ch"][0])
            if nch > 4:
                break
    return init, evs


def run(c: Check):
    dsp()
    c.assumptions = ["samples are small integers; every band has at least as many samples as channels and bands"]
    c.generate("BandsGen", Ad, match, limit=c.n(6000, None))
    c.drive("BandsTrace", Ad, [script(c.rng) for _ in range(c.n(3000, 60000))])
