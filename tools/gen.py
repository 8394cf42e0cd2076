"""Scenario generation: builds sessions (problems, operations, relations) for the harness.

Nothing here computes expected results; what a session has to do is decided by the TLA+
specification when the recorded session is validated."""
import json
import random
import zlib
from fractions import Fraction as F
from itertools import product

MAXFLAT = {"linear": 6, "nearest": 6, "cubic": 4}
MAXCALL = {"linear": 8, "nearest": 6, "cubic": 8}
MINN = {"linear": 2, "nearest": 2, "cubic": 4}
RECMD = [1, 2, 3, 4, 5, 6, 7, 8, 11]


def J(x):
    """A number as the harness reads it."""
    if isinstance(x, str):
        return x
    x = F(x)
    if x.denominator == 1:
        if abs(x) >= 2**100:
            k = (x.numerator & -x.numerator).bit_length() - 1
            return f"{x.numerator >> k}@{k}"
        return int(x) if abs(x) < 2**31 else str(x)
    if x.denominator >= 2**100 and x.denominator & (x.denominator - 1) == 0:
        return f"{x.numerator}@{1 - x.denominator.bit_length()}"
    return f"{x.numerator}/{x.denominator}"


# ------------------------------------------------------------------ axes
def aff(n, s, h):
    return {"k": "aff", "n": n, "s": F(s), "h": F(h)}


def alt(n, s, h1, h2):
    return {"k": "alt", "n": n, "s": F(s), "h1": F(h1), "h2": F(h2)}


def lst(v):
    return {"k": "list", "v": [F(x) for x in v]}


def alen(ax):
    return len(ax["v"]) if ax["k"] == "list" else ax["n"]


def coord(ax, i):
    if ax["k"] == "list":
        return ax["v"][i]
    if ax["k"] == "aff":
        return ax["s"] + i * ax["h"]
    return ax["s"] + (i // 2) * (ax["h1"] + ax["h2"]) + (ax["h1"] if i % 2 else 0)


def coords(ax):
    return [coord(ax, i) for i in range(alen(ax))]


def jax(ax):
    if ax["k"] == "list":
        return {"k": "list", "v": [J(x) for x in ax["v"]]}
    return {k: (v if k in ("k", "n") else J(v)) for k, v in ax.items()}


def rand_axis(r, g, n):
    """A small axis with easy rational coordinates."""
    s = F(r.randint(-6, 6), r.choice([1, 1, 2]))
    if g == "regular":
        return aff(n, s, r.choice([F(1), F(2), F(1, 2), F(3), F(3, 2), F(1, 4)]))
    v = [s]
    for _ in range(n - 1):
        v.append(v[-1] + r.choice([F(1), F(1), F(2), F(3), F(1, 2)]))
    return lst(v)


# ------------------------------------------------------------------ values
def vlist(v):
    return {"k": "list", "v": [J(x) for x in v]}


def rand_list(r, n, m=9):
    return vlist([r.randint(-m, m) for _ in range(n)])


def lcg(r, n, p=8191):
    return {"k": "lcg", "n": n, "a": r.randint(1, p - 1), "b": r.randint(1, p - 1),
            "c": r.randint(1, p - 1), "p": p, "off": p // 2}


def const(n, c):
    return {"k": "lcg", "n": n, "a": 0, "b": 0, "c": 0, "p": 1, "off": -c}


def sep(r, dims, rank=2, m=3):
    return {"k": "sep", "dims": dims,
            "terms": [[[r.choice([x for x in range(-m, m + 1) if x]) for _ in range(n)] for n in dims]
                      for _ in range(rank)]}


def prod(dims):
    t = 1
    for d in dims:
        t *= d
    return t


def rand_vals(r, dims, kind=None):
    n = prod(dims)
    if kind is None:
        kind = "list" if n <= 400 else ("sep" if len(dims) > 4 else "lcg")
    if kind == "list":
        return rand_list(r, n)
    if kind == "sep":
        return sep(r, dims)
    return lcg(r, n)


# ------------------------------------------------------------------ problems
def problem(m, g, axes, vals, lin=False, **extra):
    p = {"m": m, "g": g, "lin": lin, "vals": vals, **extra}
    p["_axes"] = axes
    if g == "regular":
        assert all(a["k"] == "aff" for a in axes)
        p["dims"] = [a["n"] for a in axes]
        p["starts"] = [J(a["s"]) for a in axes]
        p["steps"] = [J(a["h"]) for a in axes]
    else:
        p["grids"] = [jax(a) for a in axes]
    return p


def rand_dims(r, m, n):
    lo = MINN[m]
    if n <= 2:
        return [lo + r.randint(0, 4) for _ in range(n)]
    if n <= 4:
        return [lo + r.randint(0, 2) for _ in range(n)]
    d = [lo] * n
    for _ in range(2 if m == "cubic" else 3):
        d[r.randrange(n)] += 1
    return d


def rand_problem(r, m, g, n, lin=False, dims=None, kind=None):
    dims = dims or rand_dims(r, m, n)
    axes = [rand_axis(r, g, k) for k in dims]
    return problem(m, g, axes, rand_vals(r, dims, kind), lin)


REGIMES = ["node", "first", "last", "in", "in", "low", "high", "firstnode", "lastnode", "mid", "farlow", "farhigh",
           "nearlow", "nearhigh"]


def rand_coord(r, ax, regime=None):
    n = alen(ax)
    regime = regime or r.choice(REGIMES)
    fr = r.choice([F(1, 2), F(1, 4), F(3, 4), F(1, 3), F(2, 3)])
    lo, hi = coord(ax, 0), coord(ax, n - 1)
    w0, w1 = coord(ax, 1) - lo, hi - coord(ax, n - 2)
    cell = {"first": 0, "last": n - 2}.get(regime, r.randrange(n - 1))
    if regime == "node":
        return coord(ax, r.randrange(n))
    if regime in ("in", "first", "last"):
        return coord(ax, cell) + fr * (coord(ax, cell + 1) - coord(ax, cell))
    if regime == "mid":
        return (coord(ax, cell) + coord(ax, cell + 1)) / 2
    return {"firstnode": lo, "lastnode": hi,
            "nearlow": lo - w0 * F(1, 4), "nearhigh": hi + w1 * F(1, 4),
            "low": lo - w0 * r.choice([F(1, 2), F(1), F(3, 2), F(2)]),
            "high": hi + w1 * r.choice([F(1, 2), F(1), F(3, 2), F(2)]),
            "farlow": lo - w0 * r.randint(3, 12), "farhigh": hi + w1 * r.randint(3, 12)}[regime]


def rand_point(r, p, regimes=None):
    return [rand_coord(r, a, r.choice(regimes) if regimes else None) for a in p["_axes"]]


def rand_points(r, p, k, regimes=None):
    return [rand_point(r, p, regimes) for _ in range(k)]


# ------------------------------------------------------------------ sessions
def signed_zeros(d):
    """Some of the zero coordinates carry a sign."""
    r = random.Random(d["sid"])

    def neg(v):
        return ["-0" if x in (0, "0") and r.random() < .6 else x for x in v]
    d["p"] = [{**p, "grids": [{**g, "v": neg(g["v"])} if g["k"] == "list" else g for g in p["grids"]]} if p.get("grids") else p
              for p in d["p"]]
    ev = []
    for e in d["ev"]:
        e = dict(e)
        if "obs" in e:
            e["obs"] = [neg(v) for v in e["obs"]]
        for k in ("x", "xs"):
            if isinstance(e.get(k), list):
                e[k] = neg(e[k])
            elif k in e and e["o"] == "at":
                e[k] = neg([e[k]])[0]
        ev.append(e)
    d["ev"] = ev


class Session:
    def __init__(self, sid, num, chk):
        self.d = {"sid": sid, "num": num, "e": {"rat": 0, "f64": 53, "f32": 24}[num.split("+")[0]], "chk": chk,
                  "p": [], "ev": [], "rel": []}
        self.nh = 0

    def prob(self, p):
        self.d["p"].append(p)
        return len(self.d["p"])

    def pr(self, i):
        return self.d["p"][i - 1]

    def ev(self, **e):
        self.d["ev"].append(e)
        return len(self.d["ev"])

    def new(self, p, a, md=None):
        self.nh += 1
        axes = self.pr(p).get("_axes")
        self.ev(o="new", h=self.nh, p=p, a=a, md=md if md is not None else len(axes))
        return self.nh

    @staticmethod
    def obs(pts, n):
        return [[J(x[d]) for x in pts] for d in range(n)]

    def _n(self, p):
        return len(self.pr(p)["_axes"])

    PRE = "-1234567"

    def bat(self, h, p, pts, pre=PRE):
        return self.ev(o="bat", h=h, p=p, obs=self.obs(pts, self._n(p)), n=len(pts), pre=pre)

    def one(self, h, p, x):
        return self.ev(o="one", h=h, p=p, x=[J(c) for c in x])

    def fn(self, p, a, pts, pre=PRE):
        return self.ev(o="fn", p=p, a=a, obs=self.obs(pts, self._n(p)), n=len(pts), pre=pre)

    def alc(self, p, a, pts):
        return self.ev(o="alc", p=p, a=a, obs=self.obs(pts, self._n(p)))

    def par(self, h, p, pts, th=4, pre=PRE):
        return self.ev(o="par", h=h, p=p, obs=self.obs(pts, self._n(p)), n=len(pts), th=th, pre=pre)

    def cb(self, p, a, pts, atol, pre=False, n=None):
        k = self._n(p)
        return self.ev(o="cb", p=p, a=a, obs=self.obs(pts, k), n=k if n is None else n, atol=J(atol), pre=pre)

    def rel(self, **r):
        self.d["rel"].append(r)

    def same(self, p1, p2, on):
        self.rel(k="same", p1=p1, p2=p2, on=[list(q) for q in on])

    def json(self):
        d = dict(self.d)
        d["p"] = [{k: v for k, v in p.items() if not k.startswith("_")} for p in d["p"]]
        if self.d["e"] and zlib.crc32(d["sid"].encode()) % 3 == 0:
            signed_zeros(d)
        return json.dumps(d, separators=(",", ":"))


def evaluate(s, p, entry, pts, r=None):
    """Evaluate points through one entry point; returns the indices of the events."""
    kind, fam, md = entry
    if kind == "fn":
        return [s.fn(p, fam, pts)]
    if kind == "alc":
        return [s.alc(p, fam, pts)]
    h = s.new(p, fam, md)
    if kind == "one":
        return [s.one(h, p, x) for x in pts]
    return [s.bat(h, p, pts)]


def entries(m, n, r=None, full=False):
    """The ways to evaluate a problem of n dimensions."""
    out = []
    if n <= MAXFLAT[m]:
        out += [("bat", "flat", n), ("one", "flat", n)]
    if n <= MAXCALL[m]:
        out += [("fn", "flat", n), ("alc", "flat", n)]
    if m != "nearest":
        mds = [md for md in RECMD if md >= n]
        if not full:
            mds = [n] + ([r.choice(mds[1:])] if r and len(mds) > 1 else [])
        for md in mds:
            out += [("bat", "rec", md), ("one", "rec", md)]
        out += [("fn", "rec", n), ("alc", "rec", n)]
    return out


def methods(ms=("linear", "cubic", "nearest")):
    for m in ms:
        for lin in ([False, True] if m == "cubic" else [False]):
            for g in ("regular", "rectilinear"):
                yield m, g, lin


def strata(ms=("linear", "cubic", "nearest"), maxn=8):
    """Every method, extrapolation mode, grid kind and number of dimensions."""
    for m, g, lin in methods(ms):
        for n in range(1, min(maxn, MAXCALL[m]) + 1):
            yield m, g, lin, n
