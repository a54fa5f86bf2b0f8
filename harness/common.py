"""Shared machinery: running TLC, importing the code under test, comparing
observations, recording verdicts and evidence."""

import contextlib
import io
import json
import multiprocessing as mp
import os
import random
import re
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")
CP = (
    "/opt/veriftools/tla/tla2tools.jar:"
    "/opt/veriftools/tla/CommunityModules-deps.jar"
)
NPROC = min(8, os.cpu_count() or 1)
BAD = 1000000007  # "not an integer / not representable": matches nothing


class MachineryError(Exception):
    """The check itself failed (not a verdict about the code)."""


# ----------------------------------------------------------------- import
_DSP = None


def dsp():
    """Import dsptoolbox from the repository's working tree, never from a
    byte-code cache of an earlier state of it."""
    global _DSP
    if _DSP is None:
        os.environ.setdefault("MPLBACKEND", "Agg")
        warnings.simplefilter("ignore")
        import logging

        logging.disable(logging.CRITICAL)
        import numpy, scipy.signal, matplotlib, pandas  # noqa
        import matplotlib.pyplot  # noqa

        try:
            import seaborn, sounddevice, soundfile, scipy.stats  # noqa
        except Exception:  # pragma: no cover
            pass
        old = sys.dont_write_bytecode, sys.pycache_prefix
        sys.dont_write_bytecode = True
        sys.pycache_prefix = tempfile.mkdtemp(prefix="verif_pyc_")
        sys.path.insert(0, REPO)
        import dsptoolbox

        real = os.path.realpath(dsptoolbox.__file__)
        if not real.startswith(os.path.realpath(REPO) + "/"):
            raise MachineryError(f"imported {real}, not {REPO}")
        import pkgutil, importlib

        for m in pkgutil.walk_packages(dsptoolbox.__path__, "dsptoolbox."):
            importlib.import_module(m.name)
        prefix = sys.pycache_prefix
        sys.dont_write_bytecode, sys.pycache_prefix = old
        try:
            os.rmdir(prefix)
        except OSError:
            pass
        warnings.simplefilter("ignore")
        _DSP = dsptoolbox
    return _DSP


# -------------------------------------------------------------- quantising
def _q1(v, tol):
    try:
        v = float(v)
    except Exception:
        return BAD
    if v != v or abs(v) > 1.0e9:
        return BAD
    r = round(v)
    if abs(v - r) > tol * max(1.0, abs(v)):
        return BAD
    return int(r)


def q(x, scale=1.0, tol=1e-6):
    """Real array -> nested lists of integers (value*scale); anything that is
    not an integer within tol becomes BAD."""
    import numpy as np

    a = np.asarray(x)
    if np.iscomplexobj(a):
        raise MachineryError("complex array handed to q")
    if a.ndim == 0:
        return _q1(float(a) * scale, tol)
    return [q(v, scale, tol) for v in a]


def fx(x, scale):
    """Real array -> fixed point integers by rounding (tolerance is then in
    the specification's match)."""
    import numpy as np

    a = np.asarray(x)
    if a.ndim == 0:
        v = float(a) * scale
        if v != v or abs(v) > 1.0e9:
            return BAD
        return int(round(v))
    return [fx(v, scale) for v in a]


def chans(td, scale=1.0, tol=1e-6):
    """(samples, channels) array -> list of channels of integers."""
    import numpy as np

    td = np.asarray(td)
    if td.ndim == 1:
        td = td[:, None]
    return q(td.T, scale, tol) if td.shape[0] else [[] for _ in range(td.shape[1])]


def arr(ch):
    """list of channels -> (samples, channels) float array."""
    import numpy as np

    return np.array(ch, dtype=np.float64).T.copy()


# ---------------------------------------------------------------- TLC
def tlc(
    module,
    env=None,
    workers=NPROC,
    timeout=800,
    simulate=None,
    seed=1,
    cfg=None,
    heap="6g",
):
    """Run TLC on spec/<module>.tla. Returns dict(ok, generated, distinct,
    lines, raw)."""
    meta = tempfile.mkdtemp(prefix="verif_tlc_")
    cmd = [
        "java",
        "-XX:+UseParallelGC",
        "-Xmx" + heap,
        "-Xss16m",
        "-Djava.io.tmpdir=" + meta,
        "-cp",
        CP,
        "tlc2.TLC",
        "-noGenerateSpecTE",
        "-metadir",
        meta,
        "-config",
        (cfg or module) + ".cfg",
        "-workers",
        str(workers),
        "-fp",
        "1",
    ]
    if simulate is not None:
        num, depth = simulate
        cmd += ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)]
    cmd += [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(
            cmd,
            cwd=SPEC,
            env=e,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=timeout,
            text=True,
        )
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module}")
    finally:
        subprocess.run(["rm", "-rf", meta])
    out = p.stdout
    lines, rest = [], []
    for ln in out.splitlines():
        if ln.startswith('"REJECT ') or ln.startswith('"BEHAVIOUR '):
            lines.append(json.loads(ln))
        else:
            rest.append(ln)
    raw = "\n".join(rest)
    gen = dist = 0
    for m in re.finditer(
        r"([\d,]+) states generated, ([\d,]+) distinct states found", raw
    ):
        gen, dist = (int(g.replace(",", "")) for g in m.groups())
    m = re.search(r"The number of states generated: ([\d,]+)", raw)
    if m:
        gen = dist = int(m.group(1).replace(",", ""))
    bad = p.returncode != 0 or "Error:" in raw
    if bad:
        raise MachineryError(
            f"TLC on {module} ended with {p.returncode}:\n" + raw[-9000:]
        )
    return dict(ok=True, generated=gen, distinct=dist, lines=lines, raw=raw)


# ------------------------------------------------------------ parallel map
def pmap(fn, items, chunk=None):
    """Ordered parallel map over processes (fork)."""
    items = list(items)
    if len(items) <= 4 or NPROC == 1:
        return [fn(i) for i in items]
    dsp()
    ctx = mp.get_context("fork")
    with ctx.Pool(NPROC) as pool:
        return pool.map(fn, items, chunk or max(1, len(items) // (NPROC * 6)))


# ------------------------------------------------------------------ replay
class Adapter:
    """Drives the real code.  new(init) builds the objects, apply(ev) performs
    one event and returns the observation.  An exception from the code under
    test is the observation {"err": true}."""

    def __init__(self, init):
        self.init = init

    def apply(self, ev):
        raise NotImplementedError

    def step(self, ev):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return self.apply(ev), None
        except MachineryError:
            raise
        except Exception as ex:  # noqa
            return {"err": True}, "".join(
                traceback.format_exception(type(ex), ex, ex.__traceback__)[-3:]
            )


def record(args):
    """Drive the real code through one script: (adapter class, init, events).
    Returns the trace with observations."""
    cls, init, events = args
    trace = {"init": init, "events": []}
    errs = []
    try:
        ad = cls(init)
    except MachineryError:
        raise
    except Exception:
        return {"init": init, "events": [], "failed": traceback.format_exc()}
    for ev in events:
        ob, err = ad.step(ev)
        trace["events"].append(dict(ev, obs=ob))
        errs.append(err)
    trace["errs"] = errs
    return trace


def same(out, ob):
    """The specification's observation against the real one, as JSON values
    (a TLA+ empty function/sequence and an empty list are the same)."""
    if isinstance(out, bool) or isinstance(ob, bool):
        return out is ob
    if isinstance(out, dict) and isinstance(ob, dict):
        return out.keys() == ob.keys() and all(same(out[k], ob[k]) for k in out)
    if isinstance(out, (list, tuple)) and isinstance(ob, (list, tuple)):
        return len(out) == len(ob) and all(same(a, b) for a, b in zip(out, ob))
    if out in ([], {}) and ob in ([], {}):
        return True
    return out == ob


def replay(args):
    """Replay one specification behaviour into the real code; None if it
    conforms, else the first deviation."""
    cls, beh, match = args
    init = beh[0]["init"]
    done = []
    try:
        ad = cls(init)
    except MachineryError:
        raise
    except Exception:
        return {"init": init, "events": [], "failed": traceback.format_exc()}
    for item in beh[1:]:
        ob, err = ad.step(item["ev"])
        done.append(dict(item["ev"], obs=ob))
        if not (match or same)(item["out"], ob):
            return {
                "init": init,
                "events": done,
                "expected": item["out"],
                "error": err,
            }
    return None


def replay_many(args):
    cls, behs, match = args
    out = []
    for b in behs:
        r = replay((cls, b, match))
        if r is not None:
            out.append(r)
            if len(out) >= 3:
                break
    return out


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(seed * 7919 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.violations, self.parts = [], [], []
        self.assumptions = []
        self.known = []
        for ln in open(KNOWN) if os.path.exists(KNOWN) else []:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln)
            if m:
                self.known.append(dict(zip(("property", "key", "what"), m.groups())))
        self.printed_known = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- verdicts
    def violation(self, kind, detail):
        self.violations.append(dict(kind=kind, **detail))

    def known_findings(self):
        return [
            k
            for k in self.known
            if k["property"] == self.prop
        ]

    def probe_known(self, key, still_fails):
        """A listed finding: demonstrate that it is (still) there.  When the
        probe fails and the file does not list the finding, it is a
        violation like any other."""
        entry = next((k for k in self.known_findings() if k["key"] == key), None)
        try:
            bad = bool(still_fails())
        except MachineryError:
            raise
        except Exception:
            bad = True
        if not bad:
            return
        if entry is None:
            self.violation("probe", {"key": key})
        elif key not in self.printed_known:
            self.printed_known.add(key)
            print(f"KNOWN-FINDING: property={self.prop} {entry['what']}")

    # ---- model checking and generation
    def model(self, module, **kw):
        r = tlc(module, **kw)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.parts.append(
            {"module": module, "mode": "model", "states": r["distinct"]}
        )
        return r

    def generate(self, module, cls, match=None, limit=None, **kw):
        """Let TLC enumerate (or simulate) behaviours, replay all of them."""
        r = tlc(module, **kw)
        behs = [json.loads(ln[len("BEHAVIOUR ") :]) for ln in sorted(r["lines"])]
        if not behs:
            raise MachineryError(f"{module} generated no behaviour")
        total = len(behs)
        if limit is not None and total > limit:
            behs = self.rng.sample(behs, limit)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        k = max(1, len(behs) // (NPROC * 4))
        chunks = [
            (cls, behs[i : i + k], match) for i in range(0, len(behs), k)
        ]
        bad = [b for c in pmap(replay_many, chunks, 1) for b in c]
        self.validated += len(behs)
        self.parts.append(
            {
                "module": module,
                "mode": "spec->code",
                "behaviours": total,
                "replayed": len(behs),
                "states": r["distinct"],
                "cfg": kw.get("cfg", module),
            }
        )
        self.samples.append({"spec_behaviour": behs[len(behs) // 2]})
        for b in bad[:3]:
            self.violation("replayed behaviour deviates", b)
        return behs

    def validate(self, module, traces, batch=4000):
        """Check recorded executions of the real code with TLC."""
        for t in [t for t in traces if "failed" in t][:3]:
            self.violation("construction failed", t)
        traces = [t for t in traces if "failed" not in t and t["events"]]
        nrej = 0
        for i in range(0, len(traces), batch):
            part = traces[i : i + batch]
            body = [{"init": t["init"], "events": t["events"]} for t in part]
            fd, path = tempfile.mkstemp(prefix="verif_tr_", suffix=".json")
            with os.fdopen(fd, "w") as f:
                json.dump(body, f)
            try:
                r = tlc(module, env={"TRACE_FILE": path})
            finally:
                os.unlink(path)
            rej = [json.loads(ln[len("REJECT ") :]) for ln in r["lines"]]
            rejd = {j["trace"] for j in rej}
            want = len(part) + sum(
                len(t["events"]) for n, t in enumerate(part, 1) if n not in rejd
            )
            if r["distinct"] < want:
                raise MachineryError(
                    f"{module}: {r['distinct']} states for {want} events"
                )
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.validated += len(part) - len(rejd)
            nrej += len(rejd)
            for j in rej[:3]:
                t = part[j["trace"] - 1]
                self.violation(
                    "recorded execution rejected",
                    {
                        "init": t["init"],
                        "events": t["events"][: j["event"]],
                        "expected": j["expected"],
                        "error": (t.get("errs") or [None] * 10**6)[j["event"] - 1],
                    },
                )
        self.parts.append(
            {
                "module": module,
                "mode": "code->spec",
                "traces": len(traces),
                "events": sum(len(t["events"]) for t in traces),
                "rejected": nrej,
            }
        )
        if traces:
            self.samples.append({"recorded_trace": traces[len(traces) // 2]})
        return nrej

    def drive(self, module, cls, scripts, **kw):
        """Record the scripts [(init, events)] on the real code and validate."""
        traces = pmap(record, [(cls, i, e) for i, e in scripts])
        return self.validate(module, traces, **kw)

    # ---- reporting
    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = dict(
            property=self.prop,
            tier=self.tier,
            seed=self.seed,
            level="model_checking",
            coverage=dict(
                states=self.states,
                transitions=self.transitions,
                traces_validated_against_impl=self.validated,
                samples=_clip(self.samples[:6]),
                parts=self.parts,
            ),
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations),
        )
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        path = os.path.join(EVIDENCE, f"{self.prop}.violations.json")
        if os.path.exists(path):
            os.unlink(path)
        if self.violations:
            with open(path, "w") as f:
                json.dump(self.violations[:20], f, indent=1, default=str)
            for v in self.violations[:3]:
                print(json.dumps(v, default=str)[:1800])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(
            f"{self.prop}: held ({self.validated} executions conform, "
            f"{self.states} states, {ev['wall_s']} s)"
        )
        return 0


def _clip(o, n=40):
    if isinstance(o, dict):
        return {k: _clip(v, n) for k, v in o.items() if k != "errs"}
    if isinstance(o, list):
        return [_clip(v, n) for v in o[:n]] + (["..."] if len(o) > n else [])
    return o
