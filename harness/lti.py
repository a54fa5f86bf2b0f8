"""Plain-Python integer filtering, used only to *choose* inputs (bounded,
exact) and never as an oracle."""

from fractions import Fraction

LIMIT = 2 * 10**7


def run(secs, state, xs):
    out = []
    for x in xs:
        for s, h in zip(secs, state):
            b, a = s["b"], s["a"]
            f = b[0] * x + sum(
                b[k] * (h[0][k - 1] if k - 1 < len(h[0]) else 0)
                for k in range(1, len(b))
            )
            f -= sum(
                a[k] * (h[1][k - 1] if k - 1 < len(h[1]) else 0)
                for k in range(1, len(a))
            )
            y = Fraction(f) / a[0]
            m = max(len(a), len(b)) - 1
            h[0][:] = ([x] + h[0])[:m]
            h[1][:] = ([y] + h[1])[:m]
            x = y
        out.append(x)
    return out


def zero(secs):
    return [
        [[0] * (max(len(s["a"]), len(s["b"])) - 1) for _ in range(2)] for s in secs
    ]


def steady(secs):
    lev = Fraction(1)
    st = []
    for s in secs:
        m = max(len(s["a"]), len(s["b"])) - 1
        if sum(s["a"]) == 0:
            return None
        nxt = lev * sum(s["b"]) / sum(s["a"])
        st.append([[lev] * m, [nxt] * m])
        lev = nxt
    return st


def fine(vals):
    return all(
        Fraction(v).denominator == 1 and abs(v) < LIMIT for v in vals
    )


def steady_ok(secs):
    st = steady(secs)
    return st is not None and all(fine(h[0] + h[1]) for h in st)


DENS = [[1, 1, 1], [1, 1], [1, 0, 1], [1, 0, 0, 1], [1, -1, 1], [1, 1, 0]]


def rand_fir(rng, maxlen=6, big=5):
    n = rng.randint(1, maxlen)
    b = [rng.randint(-big, big) for _ in range(n)]
    if not any(b):
        b[rng.randrange(n)] = 1
    return [{"b": b, "a": [1]}]


def rand_sec(rng, order2=True):
    a = list(rng.choice(DENS[:3] + DENS[4:] if order2 else DENS))
    n = 3 if order2 else rng.randint(1, 4)
    b = [rng.randint(-2, 3) for _ in range(n)]
    if order2:
        a = (a + [0, 0, 0])[:3]
    g = sum(a)
    b = [v * g for v in b] if rng.random() < 0.3 else b
    # make the DC gain an integer
    r = sum(b) % g
    b[rng.randrange(n)] -= r
    if not any(b):
        b[0] = g
    k = rng.choice([1, 1, 1, 2, -1])
    return {"b": [v * k for v in b], "a": [v * k for v in a]}


def rand_filter(rng):
    """(sections, kind)"""
    r = rng.random()
    if r < 0.35:
        return rand_fir(rng), "ba"
    if r < 0.6:
        return [rand_sec(rng, False)], "ba"
    return [rand_sec(rng) for _ in range(rng.randint(1, 3))], "sos"
