"""Varied problems and batches: long axes, uneven and badly scaled grids, coordinates next to
nodes, ties and edges, and batches of many lengths and structures, in every arithmetic."""
import random
import struct
from fractions import Fraction as F
from itertools import product
from gen import *

LONG = [8, 9, 12, 16, 17, 25, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 1000, 1023,
        1024, 1025]
LENGTHS = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023,
           1024, 1025]
STYLES = ["plain", "plain", "plain", "ratio", "ratio", "offset", "scale", "nearly"]


def rng(seed, *k):
    return random.Random("/".join(map(str, (seed,) + k)))


def rf(x, num):
    """x rounded to a number of the type."""
    if num.startswith("f32"):
        return F(struct.unpack("f", struct.pack("f", float(x)))[0])
    return F(float(x)) if num.startswith("f64") else F(x)


def style_axis(r, g, n, style=None, num="rat", mild=False):
    """An axis of n nodes.  mild: keep the numbers small (exact arithmetic in many dimensions)."""
    style = style or r.choice(STYLES)
    if style == "decimal" and not num.startswith("rat"):
        # steps that are not dyadic: nodes lie where rounding puts them
        h = F(r.choice([1, 1, 2, 3, 7, 9, 11]), r.choice([10, 10, 3, 7, 100, 1000, 12]))
        c0 = r.choice([F(0), F(r.randint(-50, 50), 10), F(r.randint(-9, 9), 7), -h * (n // 2), -h * (n - 1)])
        if g == "regular":
            return aff(n, rf(c0, num), rf(h, num))
        if r.random() < .5:
            return lst([rf(c0 + h * i, num) for i in range(n)])
        v = [c0]
        for _ in range(n - 1):
            v.append(v[-1] + h * r.randint(1, 5))
        return lst([rf(x, num) for x in v])
    f32 = num.startswith("f32")
    if style == "wide":                          # squares of distances leave the range of the type
        sc = F(2) ** (r.choice([1, -1]) * r.choice([40, 80, 80] if f32 else [70, 560, 560]))
    elif style == "scale":
        k = r.choice([10, 20] if mild or num.startswith("rat") else [10, 20, 30] if f32 else [10, 20, 30, 40])
        sc = F(2) ** (k if r.random() < .5 else -k)
    else:
        sc = F(1)
    s = F(r.randint(-6, 6), r.choice([1, 1, 2]))
    if style == "offset":
        s = F(r.choice([-1, 1]) * r.choice([100, 300] if f32 else [1000, 4096, 100000]))
    elif r.random() < .25:                       # the axis crosses or ends at zero
        s = -F(r.choice([0, n - 1, (n - 1) // 2, (n - 1) // 2 + F(1, 2)]))
    if style == "nearly":                        # evenly spaced, but not quite
        if g == "regular":
            style = "plain"
        else:
            ds = [F(0), F(1, 64)] if mild else r.choice([[F(0), F(1, 2**6), F(-1, 2**10)], [F(0), F(0), F(1, 2**12), F(-1, 2**13)]]) if f32 else \
                r.choice([[F(0), F(1, 2**6), F(-1, 2**10)], [F(0), F(0), F(1, 2**34)]]) if num.startswith("rat") else \
                r.choice([[F(0), F(0), F(1, 2**10), F(-1, 2**16)], [F(0), F(1, 2**20), F(1, 2**24)], [F(0), F(0), F(0), F(1, 2**14)],
                          [F(0), F(0), F(1, 2**28)], [F(0), F(1, 2**30), F(-1, 2**27)]])
            h = r.choice([F(1), F(1), F(2), F(1, 2)])
            v = [s]
            for _ in range(n - 1):
                v.append(v[-1] + h * (1 + r.choice(ds)))
            return lst([rf(x, num) for x in v])
    if g == "regular":
        h = r.choice([F(1), F(2), F(1, 2), F(3), F(3, 2), F(1, 4)])
        if style == "ratio":
            h = r.choice([F(1, 64), F(5), F(7), F(1, 8), F(64)])
        return aff(n, s * sc, h * sc)
    if n > 70 and style == "plain" and r.random() < .5:
        return alt(n, s, r.choice([F(1), F(2)]), r.choice([F(1), F(3), F(1, 2)]))
    gaps = [F(1), F(1), F(2), F(3), F(1, 2)]
    if style == "ratio":
        gaps = [F(1), F(8), F(1, 8)] if mild else r.choice([[F(1), F(64), F(1, 64)], [F(1), F(1), F(1), F(1000)], [F(1, 64), F(1), F(1)],
                                                           [F(1), F(8), F(1, 8), F(2)]])
    v = [s]
    for _ in range(n - 1):
        v.append(v[-1] + r.choice(gaps))
    if style == "ratio" and r.random() < .3:     # geometric
        q = F(2)
        v = [s]
        for k in range(n - 1):
            v.append(v[-1] + q ** (k % (6 if mild else 12)))
    return lst([x * sc for x in v])


def dims_for(r, m, n, cap, long=True):
    lo = MINN[m]
    d = [lo] * n
    size = lo ** n
    for a in range(n):
        if size * 2 < cap and n <= 4 and r.random() < .6:
            size = size // d[a]
            d[a] = lo + r.randint(0, 3)
            size *= d[a]
    if long:
        a = r.randrange(n)
        ok = [k for k in LONG if size // d[a] * k <= cap]
        if ok:
            d[a] = r.choice(ok)
    elif r.random() < .3:
        a = r.randrange(n)
        d[a] = lo
    return d


def twins(r, g, axes):
    """Equal or nearly equal axes: same length and ends, other nodes in between."""
    for d in range(1, len(axes)):
        if r.random() < .6 and alen(axes[d]) == alen(axes[0]):
            c = coords(axes[0])
            how = r.choice(["same", "inner", "inner", "first", "last", "mirror"])
            if g == "regular":
                axes[d] = axes[0] if how == "same" else aff(len(c), c[0], (c[1] - c[0]) * r.choice([2, F(1, 2)]))
            elif how == "same" or len(c) < 3 and how != "last":
                axes[d] = axes[0]
            elif how == "inner":
                k = r.randrange(1, len(c) - 1)
                axes[d] = lst(c[:k] + [(c[k - 1] + c[k]) / 2] + c[k + 1:])
            elif how == "first":
                axes[d] = lst([c[0] - (c[1] - c[0])] + c[1:])
            elif how == "last":
                axes[d] = lst(c[:-1] + [c[-1] + (c[-1] - c[-2])])
            else:
                axes[d] = lst([c[0] + c[-1] - v for v in c[::-1]])


def sproblem(r, m, g, n, lin, num="rat", cap=3000, long=None, kind=None, style=None, dims=None, twin=None, decimal=False):
    """A varied problem."""
    if decimal and not num.startswith("rat") and r.random() < .3:
        style, twin = "decimal", False
    elif m == "nearest" and not num.startswith("rat") and style is None and r.random() < .3:
        style = "wide"
    elif m == "cubic" and g == "rectilinear" and style is None and r.random() < .2:
        style = "nearly"
    long = r.random() < .6 if long is None else long
    twin = r.random() < .25 if twin is None else twin     # axes that resemble each other
    k = MINN[m] + r.randint(0, 3)
    dims = dims or ([k] * n if twin and k ** n <= cap and r.random() < .6 else dims_for(r, m, n, cap, long))
    mild = num.startswith("rat") and (n >= 3 or (m == "cubic" and n >= 2))
    axes = [style_axis(r, g, k, style, num, mild) for k in dims]
    if twin:
        twins(r, g, axes)
    size = prod(dims)
    if kind is None:
        kind = "sep" if n > 4 else r.choice(["list", "lcg"]) if size <= 400 else "lcg"
    if kind == "list":
        if r.random() < .5 or (num.startswith("rat") and (m == "cubic" or n > 3)):
            vals = rand_list(r, size, r.choice([9, 9, 1000]))
        else:
            k = r.choice({"rat": [-66, 30], "f64": [0, 20, -20, 66, -66], "f32": [0, 20, -20, 40, -40]}[num.split("+")[0]])
            vals = vlist([F(r.randint(-4000, 4000), 1) * F(2) ** k for _ in range(size)])
    elif kind == "lcg":
        vals = lcg(r, size)
    else:
        vals = sep(r, dims, rank=r.choice([1, 2]))
    return problem(m, g, axes, vals, lin)


KINDS = ["node", "in", "in", "first", "last", "mid", "low", "high", "farlow", "farhigh", "firstnode", "lastnode",
         "epsnode", "epsnode", "epsmid", "epsedge", "vfar", "anycell", "anycell"]
EPS = {"rat": [8, 12, 20, 30], "f64": [10, 20, 30, 36, 40], "f32": [6, 10, 14, 17]}


def scoord(r, ax, kind=None, num="rat", eps=True):
    return rf(scoord_(r, ax, kind, num, eps), num)


def scoord_(r, ax, kind=None, num="rat", eps=True):
    kind = kind or r.choice(KINDS)
    base = num.split("+")[0]
    if not eps and kind.startswith("eps"):
        kind = "node"
    n = alen(ax)
    e = F(r.choice([-1, 1]), 2 ** r.choice(EPS[base]))
    if kind in ("epsnode", "epsmid"):
        i = r.randrange(n - 1)
        lo, hi = coord(ax, i), coord(ax, i + 1)
        if kind == "epsmid":
            return (lo + hi) / 2 + (hi - lo) * e
        if r.random() < .5 and i:
            lo, w = lo, min(hi - lo, lo - coord(ax, i - 1))
            return lo + w * e
        return (lo if e > 0 else hi) + (hi - lo) * e
    if kind == "epsedge":
        if r.random() < .5:
            return coord(ax, 0) + (coord(ax, 1) - coord(ax, 0)) * e
        return coord(ax, n - 1) + (coord(ax, n - 1) - coord(ax, n - 2)) * e
    if kind == "vfar":
        k = r.choice({"rat": [100, 10**4, 2**25, 2**25], "f64": [100, 1000, 10**6, 2**25, 2**33, 2**45],
                      "f32": [100, 1000, 10**6, 2**25, 2**33]}[base])
        if r.random() < .5:
            return coord(ax, 0) - (coord(ax, 1) - coord(ax, 0)) * k
        return coord(ax, n - 1) + (coord(ax, n - 1) - coord(ax, n - 2)) * k
    if kind == "anycell":
        i = r.randrange(n - 1)
        lo, hi = coord(ax, i), coord(ax, i + 1)
        return rf(lo + (hi - lo) * F(r.randint(1, 15), 16), num)
    return rf(rand_coord(r, ax, kind), num)


def spoint(r, p, kinds=None, num="rat"):
    axes = p["_axes"]
    n = len(axes)
    # exact arithmetic: at most one awkward coordinate
    one = r.randrange(n) if num.startswith("rat") and (n > 1 or p["m"] == "cubic") else None
    out = []
    for d, a in enumerate(axes):
        k = r.choice(kinds) if kinds else r.choice(KINDS)
        if one is not None and d != one and k in ("vfar", "epsnode", "epsmid", "epsedge"):
            k = "anycell" if k != "vfar" else "farhigh"
            if kinds and k not in kinds:
                k = r.choice([q for q in kinds if not q.startswith(("eps", "vfar"))] or ["in"])
        out.append(scoord(r, a, k, num))
    if n > 1 and alike(axes) and r.random() < .6:
        if kinds is None and r.random() < .5:    # where the axes differ
            b = r.choice([a for a in axes[1:]])
            ks = [k for k in range(1, min(alen(b), alen(axes[0])) - 1) if coord(b, k) != coord(axes[0], k)]
            if ks and len(ks) < 40:
                k = r.choice(ks)
                return [rf((coord(b, k) + coord(axes[0], k)) / 2, num)] * n
        return [out[one or 0]] * n
    return out


def alike(axes):
    """All coordinates in comparable ranges."""
    lo, hi = coord(axes[0], 0), coord(axes[0], alen(axes[0]) - 1)
    return all(coord(a, 0) in (lo, coord(axes[0], 1)) or coord(a, alen(a) - 1) == hi for a in axes[1:])


BATCHES = ["random", "pools", "pools", "mesh", "runs", "onevar", "sorted", "pingpong", "lastrep", "sweep", "sweep"]


def sbatch(r, p, k, kind=None, kinds=None, num="rat"):
    """k points with a structure."""
    kind = kind or r.choice(BATCHES)
    if kind == "sweep" and kinds and not {"in", "anycell"} & set(kinds):
        kind = "random"
    axes = p["_axes"]
    n = len(axes)
    pt = lambda: spoint(r, p, kinds, num)
    if k == 0:
        return []
    if kinds is None and n > 1 and r.random() < .35:
        # few coordinates, each of them used on every axis
        ends = [(coord(a, 0), coord(a, alen(a) - 1)) for a in axes]
        q = []
        for _ in range(r.choice([2, 2, 3, 5])):
            a = r.choice(axes)
            i = r.randrange(alen(a))
            q.append(coord(a, i) if r.random() < .3 or i == 0 else (coord(a, i) + coord(a, i - 1)) / 2)
        if all(lo - 2 * (hi - lo) <= v <= hi + 2 * (hi - lo) for lo, hi in ends for v in q):
            return [[r.choice(q) for _ in axes] for _ in range(k)]
    if kind == "pools":
        q = [pt() for _ in range(r.choice([2, 3, 4]))]
        return [[r.choice(q)[d] for d in range(n)] for _ in range(k)]
    if kind == "mesh":
        q = [pt() for _ in range(max(2, min(k, round(k ** (1 / n)) + 1)))]
        it = list(product(*[[x[d] for x in q] for d in range(n)])) if len(q) ** n <= 5000 else []
        out = [list(x) for x in it[:k]]
        return out + [pt() for _ in range(k - len(out))]
    if kind == "runs":
        out = []
        while len(out) < k:
            out += [pt()] * r.randint(1, 5)
        return out[:k]
    if kind == "sweep":                          # one point in each cell of an axis
        d = r.choice([n - 1, 0, max(range(n), key=lambda d: alen(axes[d]))])
        L = alen(axes[d])
        b = pt()
        i0 = 0 if k >= L - 1 else r.randrange(L - 1)
        out = []
        for q in range(k):
            i = (i0 + q) % (L - 1)
            x = list(b)
            c0, c1 = coord(axes[d], i), coord(axes[d], i + 1)
            x[d] = rf(c0 + (c1 - c0) * r.choice([F(1, 2), F(1, 4), F(3, 4), F(3, 8), F(7, 8)]), num)
            out.append(x)
        if r.random() < .4:
            r.shuffle(out)
        return out
    if kind == "onevar":
        d = r.randrange(n)
        b = pt()
        out = []
        for _ in range(k):
            x = list(b)
            x[d] = pt()[d]
            out.append(x)
        return out
    if kind == "sorted":
        d = r.randrange(n)
        out = [pt() for _ in range(min(k, 40))]
        out = [list(out[j % len(out)]) for j in range(k)]
        for x in out[40:]:
            x[d] = scoord(r, axes[d], r.choice(kinds) if kinds else None, num, eps=not num.startswith("rat"))
        return sorted(out, key=lambda x: x[d], reverse=r.random() < .4)
    if kind == "pingpong":
        a, b = pt(), pt()
        q = [a, b]
        if n > 1:
            d = r.randrange(n)
            c = list(a)
            c[d] = b[d]
            q = r.choice([[a, b], [a, c], [a, c, b], [a, b, c, b]])
        return [q[j % len(q)] for j in range(k)]
    if kind == "lastrep":                        # the last point equals an earlier one
        out = [pt() for _ in range(min(k, 60))]
        out = [out[j % len(out)] for j in range(k)]
        out[-1] = out[0]
        return out
    q = [pt() for _ in range(min(k, 150))]
    return [q[j] if j < len(q) else r.choice(q) for j in range(k)]


def cost(p):
    m, n = p["m"], len(p["_axes"])
    t = {"linear": 2, "nearest": 1, "cubic": 4}[m] ** n
    return t if p["vals"]["k"] != "sep" else 8 * n


def length(r, p, budget, longest=1025):
    """A batch length within the budget (number of terms the specification sums)."""
    m, n = p["m"], len(p["_axes"])
    impl = {"linear": 2, "nearest": 2, "cubic": 4}[m] ** n
    lim = max(2, min(longest, budget // max(cost(p), impl // 24, 6)))
    return r.choice([k for k in LENGTHS if k <= lim])


def pick_n(r, m, maxn=None):
    hi = min(MAXCALL[m], maxn or 8)
    return r.choice([n for n in (1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8) if n <= hi])


def impls(ms):
    """Every implementation of the methods, with its settings."""
    return [(m, g, lin, f) for m in ms for g in ("regular", "rectilinear") for lin in ((False, True) if m == "cubic" else (False,))
            for f in (("flat",) if m == "nearest" else ("flat", "rec"))]


def deal(r, ms, j, maxn=None):
    """Implementation number j in turn, with a number of dimensions it supports."""
    m, g, lin, f = impls(ms)[j % len(impls(ms))]
    hi = min(MAXFLAT[m] if f == "flat" else MAXCALL[m], maxn or 8)
    n = r.choice([n for n in (1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8) if n <= hi])
    return m, g, lin, n, f


def some(r, es, f, k=3):
    """k entry points, the first of family f."""
    own = [e for e in es if e[1] == f] or es
    first = r.choice(own)
    rest = [e for e in es if e != first]
    return [first] + r.sample(rest, min(len(rest), k - 1))


def bigentries(m, n, r):
    return [e for e in entries(m, n, r) if e[0] != "one"]


def stress_values(prop, seed, tier, ms, chk, nums, count, budget=20000, kinds=None, longest=1025, maxn=None):
    """Varied problems, one batch, through several entry points."""
    for num in nums:
        for j in range(count):
            r = rng(seed, prop, tier, "stress", num, j)
            m, g, lin, n, f = deal(r, ms, j, maxn)
            s = Session(f"{prop}-st-{num}-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, chk)
            p = s.prob(sproblem(r, m, g, n, lin, num, cap=r.choice([3000, 200000]), decimal=True))
            P = s.pr(p)
            es = bigentries(m, n, r)
            for e in some(r, es, f):
                evaluate(s, p, e, sbatch(r, P, length(r, P, budget, longest), kinds=kinds, num=num))
            e = ("one", f, n)
            evaluate(s, p, e, sbatch(r, P, 3, kinds=kinds, num=num))
            yield s


def almost_even(prop, seed, tier, ms, chk, nums, kinds=None):
    """Axes that are even but for one or two nodes, moved by less and less."""
    for num in nums:
        b = num.split("+")[0]
        for lin in ((False, True) if "cubic" in ms else (False,)):
            r = rng(seed, prop, tier, "even", num, lin)
            m = r.choice(ms)
            s = Session(f"{prop}-even-{num}-{'lin' if lin else 'nat'}", num, chk)
            for k in {"f32": range(4, 15), "f64": range(4, 44), "rat": range(4, 44)}[b]:
                n = r.choice([4, 5, 6, 9])
                h = r.choice([F(1), F(2), F(1, 2)])
                c0 = r.choice([F(0), F(-2), F(1)])
                c = [c0 + h * i for i in range(n)]
                for i in r.choice([[r.randrange(n)], [r.randrange(n)], [r.randrange(n), r.randrange(n)]]):
                    c[i] = rf(c[i] + r.choice([1, -1]) * h / 2**k, num)
                dims, axes = [n], [lst(c)]
                if r.random() < .3 and b != "rat":
                    d = r.randrange(2)
                    axes.insert(d, lst([F(i) for i in range(4)]))
                    dims.insert(d, 4)
                p = s.prob(problem(m, "rectilinear", axes, rand_list(r, prod(dims), 9), lin))
                q = [spoint(r, s.pr(p), kinds or ["in", "first", "last", "anycell", "low", "high"], num) for _ in range(8)]
                for f in ("flat", "rec") if m != "nearest" else ("flat",):
                    evaluate(s, p, r.choice([e for e in bigentries(m, len(dims), r) if e[1] == f]), q)
            yield s


def stress_same(prop, seed, tier, nums, count, budget=12000):
    """C08/C09: one long structured batch through every entry point, and point by point."""
    for num in nums:
        for j in range(count):
            r = rng(seed, prop, tier, "same", num, j)
            m, g, lin, n, f = deal(r, ("linear", "cubic", "nearest"), j)
            s = Session(f"{prop}-st-{num}-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, [])
            P = sproblem(r, m, "regular" if prop == "C08" else g, n, lin, num, twin=r.random() < .5, decimal=prop == "C09")
            p = s.prob(P)
            k = length(r, P, budget)
            pts = sbatch(r, P, k, num=num)
            fams = [f for f in ("flat", "rec") if (f == "flat" and n <= MAXFLAT[m]) or (f == "rec" and m != "nearest")]
            if not fams:
                continue
            hs = {f: s.new(p, f, n) for f in fams}
            h = hs[f]
            # every distinct point on its own
            seen = {}
            for x in pts:
                if tuple(x) not in seen and len(seen) < 60:
                    seen[tuple(x)] = (s.one(h, p, x), 1)
            on = []

            def against(ev):
                for q, x in enumerate(pts):
                    if tuple(x) in seen:
                        e0, j0 = seen[tuple(x)]
                        on.append((e0, j0, ev, q + 1))
                    else:
                        seen[tuple(x)] = (ev, q + 1)
            for f in fams:
                against(s.bat(hs[f], p, pts))
                if r.random() < .5:
                    against(s.bat(hs[f], p, pts, "nan"))
                against(r.choice([lambda: s.fn(p, f, pts), lambda: s.alc(p, f, pts)])())
            if m != "nearest":
                hm = s.new(p, "rec", r.choice([q for q in RECMD if q > n] or [n]))
                against(s.bat(hm, p, pts))
            if k <= 300:
                against(s.par(h, p, pts, r.choice([2, 3, 8])))
            s.same(p, p, on)
            if prop == "C08":
                q = s.prob(problem(m, "rectilinear", [lst(coords(a)) for a in P["_axes"]], P["vals"], lin))
                on2 = []
                for f in fams:
                    ev = s.bat(s.new(q, f, n), q, pts)
                    on2 += [(*seen[tuple(x)], ev, i + 1) for i, x in enumerate(pts)]
                ev = s.fn(q, r.choice(fams), pts)
                on2 += [(*seen[tuple(x)], ev, i + 1) for i, x in enumerate(pts)]
                s.same(p, q, on2)
            yield s


def stress_noalloc(seed, tier, nums, count, budget=60000):
    for num in nums:
        for j in range(count):
            r = rng(seed, "C19", tier, "stress", num, j)
            m, g, lin, n, f = deal(r, ("linear", "cubic", "nearest"), j)
            s = Session(f"C19-st-{num}-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, ["noalloc"])
            P = sproblem(r, m, g, n, lin, num, cap=r.choice([3000, 200000]))
            p = s.prob(P)
            for e in entries(m, n, r, full=r.random() < .3):
                if e[0] != "one":
                    k = r.choice([1, 5, 63, 64, 65, 100, 128, 200, 256, 257, 500, 512, 1000, 1024, 1025, 2048, 5000])
                    while k > max(3, budget // cost_impl(P)):
                        k //= 2
                    q = sbatch(r, P, min(k, 12), num=num)
                    evaluate(s, p, e, [q[i % len(q)] for i in range(k)])
            k = r.choice([100, 1000, 5000])
            q = sbatch(r, P, 8, num=num)
            s.cb(p, r.choice(["flat", "rec"]) if m != "nearest" else "flat", [q[i % len(q)] for i in range(k)], r.choice([0, 1]))
            yield s


def cost_impl(p):
    return {"linear": 2, "nearest": 2, "cubic": 4}[p["m"]] ** len(p["_axes"])


# ------------------------------------------------------------------ relations on varied problems
NUMS = ("rat", "f64", "f32")


def fams(m, n):
    return [f for f in ("flat", "rec") if (f == "flat" and n <= MAXFLAT[m]) or (f == "rec" and m != "nearest")]


def run(s, r, p, f, pts, num):
    """One batch through an interpolator or a convenience function of the family."""
    n = len(s.pr(p)["_axes"])
    ways = []
    if f == "flat" and n <= MAXFLAT[s.pr(p)["m"]]:
        ways += ["obj", "obj"]
    if f == "rec":
        ways += ["obj", "obj", "md"]
    ways += ["fn"]
    w = r.choice(ways)
    if w == "fn":
        return s.fn(p, f, pts)
    md = n if w == "obj" else r.choice([q for q in RECMD if q >= n])
    return s.bat(s.new(p, f, md), p, pts)


def small_list(r, num, size):
    return [r.randint(-9, 9) for _ in range(size)]


def nodes(seed, tier, nums, count):
    """C01: nodes of long and badly scaled axes, in batches."""
    for num in nums:
        for j in range(count):
            r = rng(seed, "C01", tier, "nodes", num, j)
            m, g, lin, n, f = deal(r, ("linear", "cubic", "nearest"), j)
            s = Session(f"C01-st-{num}-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, ["node"] if num == "rat" else ["node", "value"])
            P = sproblem(r, m, g, n, lin, num, cap=r.choice([3000, 200000]), decimal=True)
            p = s.prob(P)
            axes = P["_axes"]
            ends = [max(range(n), key=lambda d: alen(axes[d]))]
            es = bigentries(m, n, r)
            for e in some(r, es, f):
                k = length(r, P, 15000)
                pts = []
                how = r.choice(["any", "sweep", "ends", "line"])
                b = [r.randrange(alen(a)) for a in axes]
                for q in range(k):
                    if how == "any":
                        ix = [r.randrange(alen(a)) for a in axes]
                    elif how == "sweep":
                        ix = [(q + i) % alen(a) for i, a in zip(b, axes)]
                    elif how == "ends":
                        ix = [r.choice([0, 1, alen(a) - 2, alen(a) - 1]) for a in axes]
                    else:
                        ix = list(b)
                        d = ends[0]
                        ix[d] = (b[d] + q) % alen(axes[d])
                    pts.append([rf(coord(a, i), num) for a, i in zip(axes, ix)])
                evaluate(s, p, e, pts)
            yield s


def zoom(seed, tier, nums, count):
    """C06: nine points across one face, closer and closer to it."""
    for num in nums:
        base = num.split("+")[0]
        for j in range(count):
            r = rng(seed, "C06", tier, "zoom", num, j)
            m, g, lin, n, f = deal(r, ("linear", "cubic"), j, 4)
            s = Session(f"C06-zoom-{num}-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, [])
            dims = [MINN[m] + r.randint(0, 2) for _ in range(n)]
            # coordinates with few binary digits: the points below are exact in every arithmetic
            axes = []
            for k in dims:
                st = F(r.choice([0, 0, 1, -1, 2, -3]))
                if g == "regular":
                    axes.append(aff(k, st, r.choice([F(1), F(2), F(1, 2)])))
                else:
                    v = [st]
                    for _ in range(k - 1):
                        v.append(v[-1] + r.choice([F(1), F(2), F(1, 2)]))
                    axes.append(lst(v))
            p = s.prob(problem(m, g, axes, rand_list(r, prod(dims), 9), lin))
            hs = [s.new(p, f, n if f == "flat" else r.choice([q for q in RECMD if q >= n]))]
            a = r.randrange(n)
            k = r.choice([0, dims[a] - 1, r.randrange(dims[a])])
            x = [scoord(r, ax, r.choice(["node", "in", "anycell", "low", "high"]), "f32") for ax in axes]
            c = coord(axes[a], k)
            w = min([coord(axes[a], i + 1) - coord(axes[a], i) for i in (k - 1, k) if 0 <= i < dims[a] - 1])
            top = {"rat": 44 if m == "linear" else 30, "f64": 44, "f32": 16}[base]
            for b in range(3, top, 1 if base == "f32" else 2):
                h = w / 2 ** b
                pts = [x[:a] + [c + (i - 4) * h] + x[a + 1:] for i in range(9)]
                s.rel(k="cont", e=s.bat(r.choice(hs), p, pts), a=a + 1, h=J(h))
            yield s


def smooth(seed, tier, count):
    """C06 on long, uneven axes; nine points across one face."""
    for j in range(count):
        r = rng(seed, "C06", tier, "st", j)
        m, g, lin, n, f = deal(r, ("linear", "cubic"), j, 5)
        s = Session(f"C06-st-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", "rat", [])
        P = sproblem(r, m, g, n, lin, "rat", cap=3000)
        p = s.prob(P)
        axes = P["_axes"]
        hs = [s.new(p, f, n if f == "flat" else r.choice([q for q in RECMD if q >= n]))]
        for rep in range(6):
            a = r.randrange(n) if rep % 2 else max(range(n), key=lambda d: alen(axes[d]))
            L = alen(axes[a])
            k = r.choice([0, L - 1, 1, L - 2, r.randrange(L)])
            x = [rand_coord(r, ax) for ax in axes]
            c = coord(axes[a], k)
            w = min([coord(axes[a], i + 1) - coord(axes[a], i) for i in (k - 1, k) if 0 <= i < L - 1])
            h = w * r.choice([F(1, 4), F(1, 8), F(1, 64)] if n <= 2 else [F(1, 4), F(1, 8)])
            pts = [x[:a] + [c + (i - 4) * h] + x[a + 1:] for i in range(9)]
            s.rel(k="cont", e=s.bat(r.choice(hs), p, pts), a=a + 1, h=J(h))
        yield s


def polynomials(seed, tier, nums, count):
    for num in nums:
        for j in range(count):
            r = rng(seed, "C07", tier, "st", num, j)
            m, g, lin, n, f = deal(r, ("linear", "cubic"), j)
            deg = r.choice([1, 2]) if m == "cubic" else 1
            P = sproblem(r, m, g, n, lin, num, cap=100000, kind="sep", style=r.choice(["plain", "ratio", "scale"]))
            axes, dims = P["_axes"], [alen(a) for a in P["_axes"]]
            # polynomials in x / axis scale, so that the data stay moderate
            sc = [max(abs(coord(a, 0)), abs(coord(a, alen(a) - 1)), F(1)) for a in axes]
            one = lambda v: F(2) ** (-max(0, int(v).bit_length() - 1))
            poly = []
            for _ in range(r.choice([1, 2])):
                poly.append([[r.randint(-3, 3) * one(sc[d]) ** i for i in range(deg)] + [r.choice([-1, 1, 2]) * one(sc[d]) ** deg]
                             for d in range(n)])
            ev = lambda c, x: sum(F(ck) * x**i for i, ck in enumerate(c))
            P["vals"] = {"k": "sep", "dims": dims,
                         "terms": [[[J(ev(c, x)) for x in coords(a)] for c, a in zip(term, axes)] for term in poly]}
            s = Session(f"C07-st-{num}-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}-{deg}", num, [])
            p = s.prob(P)
            es = []
            en = bigentries(m, n, r)
            for e in some(r, en, f):
                k = length(r, P, 12000)
                es += evaluate(s, p, e, sbatch(r, P, min(k, 200), num=num))
            s.rel(k="poly", p1=p, poly=[[[J(c) for c in ax] for ax in term] for term in poly], es=es)
            yield s


def local(seed, tier, nums, count):
    from scen import foot
    for num in nums:
        for j in range(count):
            r = rng(seed, "C10", tier, "st", num, j)
            m, g, lin, n, f = deal(r, ("linear", "cubic", "nearest"), j, 7)
            s = Session(f"C10-st-{num}-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, [])
            P = sproblem(r, m, g, n, lin, num, cap=5000, style=r.choice(["plain", "plain", "ratio"]) if num == "rat" else "plain")
            p = s.prob(P)
            axes, base = P["_axes"], P["vals"]
            dims = [alen(a) for a in axes]
            kinds = [k for k in KINDS if k != "vfar"] if num == "rat" else \
                ["node", "in", "first", "last", "mid", "low", "high", "farlow", "farhigh", "firstnode", "lastnode", "anycell"]
            for rep in range(5):
                x = spoint(r, P, kinds, num)
                fb = [foot(m, a, c) for a, c in zip(axes, x)]
                out = r.choice(["nan", "nan", "inf", "-inf", 1000003])
                q = s.prob(problem(m, g, axes, {"k": "box", "base": base, "dims": dims, "lo": [a for a, _ in fb],
                                               "hi": [b for _, b in fb], "out": out}, lin))
                # the point alone and among points whose cells are spoilt
                k = r.choice([1, 1, 4, 70])
                at = r.randrange(k)
                around = sbatch(r, P, k, kinds=kinds, num=num)
                around[at] = x
                e0 = run(s, r, p, f, [x], num)
                e1 = run(s, r, q, f, around, num)
                s.rel(k="local", p1=p, p2=q, on=[[e0, 1, e1, at + 1]])
            yield s


SCALES = {"rat": [F(2) ** -66, F(2) ** -24, F(1000)], "f64": [F(2) ** k for k in (66, -66, 30, -30, -90)],
          "f32": [F(2) ** k for k in (30, -30, -40)]}


def combos(seed, tier, nums, count):
    for num in nums:
        for j in range(count):
            r = rng(seed, "C11", tier, "st", num, j)
            m, g, lin, n, f = deal(r, ("linear", "cubic"), j, 7)
            s = Session(f"C11-st-{num}-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, ["const", "range"])
            hows = [["tiny", "sum", "scale", "both", "delta", "tiny", "cancel"][j // 12 % 7], "tiny",
                    r.choice(["sum", "scale", "both", "delta", "cancel"])]
            for rep, how in enumerate(hows):
                P = sproblem(r, m, g, n, lin, num, cap=1500 if rep == 0 else 200)
                axes = P["_axes"]
                size = prod([alen(a) for a in axes])
                if size > 3000 or (rep > 0 and size > 600):
                    continue
                v1, v2 = small_list(r, num, size), small_list(r, num, size)
                if how == "delta":
                    v2 = [0] * size
                    v2[r.randrange(size)] = 1
                al, be = {"sum": (1, 1), "scale": (r.choice([0, -1, 7, F(1, 8), 1000]), 0),
                          "tiny": (r.choice(SCALES[num.split("+")[0]]), 0),
                          "delta": (1, r.choice([1, -5])), "cancel": (1, -1)}.get(how, (r.choice([-1, 2, F(1, 2)]), r.choice([3, -7])))
                ps = [s.prob(problem(m, g, axes, vlist(v), lin)) for v in (v1, v2, [al * a + be * b for a, b in zip(v1, v2)])]
                pts = sbatch(r, P, min(length(r, P, 4000), 200) if rep == 0 else 6, num=num)
                e = [run(s, r, q, f, pts, num) for q in ps]
                if rep == 0:
                    run(s, r, s.prob(problem(m, g, axes, const(size, r.choice([1, -7, 5])), lin)), f, pts, num)
                s.rel(k="comb", e1=e[0], e2=e[1], e3=e[2], al=J(al), be=J(be), n=len(pts))
            if s.d["ev"]:
                yield s


def axes_swapped(seed, tier, nums, count):
    from scen import permute, flat_index
    for num in nums:
        for j in range(count):
            r = rng(seed, "C12", tier, "st", num, j)
            m, g, lin, n, f = deal(r, ("linear", "cubic", "nearest"), j)
            n = max(n, 2)
            if n > MAXCALL[m]:
                continue
            s = Session(f"C12-st-{num}-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, [])
            for rep in range(3):
                n = n if rep == 0 else r.choice([2, 2, 3])
                P = sproblem(r, m, g, n, lin, num, cap=2000 if rep == 0 else 400, twin=rep > 0 or j // 14 % 2 == 0)
                axes, dims = P["_axes"], [alen(a) for a in P["_axes"]]
                size = prod(dims)
                vals = vlist(small_list(r, num, size)) if size <= 2000 else sep(r, dims)
                pi = r.sample(range(n), n)
                if pi == list(range(n)):
                    pi = pi[::-1]
                p1 = s.prob(problem(m, g, axes, vals, lin))
                p2 = s.prob(problem(m, g, [axes[k] for k in pi], permute(axes, dims, vals, pi), lin))
                pts = sbatch(r, P, min(length(r, P, 6000), 150) if rep == 0 else 8, num=num)
                e1, e2 = run(s, r, p1, f, pts, num), run(s, r, p2, f, [[x[k] for k in pi] for x in pts], num)
                s.rel(k="perm", p1=p1, p2=p2, pi=[k + 1 for k in pi], on=[[e1, i + 1, e2, i + 1] for i in range(len(pts))])
                if vals["k"] == "list" and n > 1 and rep < 2:
                    a = r.randrange(n)
                    for k in {0, dims[a] - 1, r.randrange(dims[a])}:
                        rd = dims[:a] + dims[a + 1:]
                        sl = [vals["v"][flat_index(dims, ix[:a] + (k,) + ix[a:])] for ix in product(*[range(d) for d in rd])]
                        p3 = s.prob(problem(m, g, axes[:a] + axes[a + 1:], vlist(sl), lin))
                        q = [x[:a] + [coord(axes[a], k)] + x[a + 1:] for x in pts[:30]]
                        e1, e2 = run(s, r, p1, f, q, num), run(s, r, p3, r.choice(fams(m, n - 1)), [x[:a] + x[a + 1:] for x in q], num)
                        s.rel(k="slice", p1=p1, p2=p3, a=a + 1, n=k, on=[[e1, i + 1, e2, i + 1] for i in range(len(q))])
            yield s


def moved(seed, tier, nums, count):
    from scen import flat_index
    for num in nums:
        for j in range(count):
            r = rng(seed, "C13", tier, "st", num, j)
            m, g, lin, n, f = deal(r, ("linear", "cubic", "nearest"), j, 7)
            s = Session(f"C13-st-{num}-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, [])
            P = sproblem(r, m, g, n, lin, num, cap=1500, kind="list", style=r.choice(["plain", "plain", "ratio"]) if num != "f32" else "plain")
            axes, dims = P["_axes"], [alen(a) for a in P["_axes"]]
            if prod(dims) > 3000:
                continue
            v = small_list(r, num, prod(dims))
            p1 = s.prob(problem(m, g, axes, vlist(v), lin))
            base = num.split("+")[0]
            # binary floating point: everything stays exactly representable
            exact = None if base == "rat" else ["node", "firstnode", "lastnode", "mid", "nearlow", "nearhigh", "low", "high",
                                                "farlow", "farhigh", "anycell", "anycell"]
            pts = sbatch(r, P, min(length(r, P, 4000), 80), kinds=exact, num=num)
            for rep in range(2):
                sc, sh = [F(1)] * n, [F(0)] * n
                for d in range(n):
                    if r.random() < .6:
                        sc[d] = r.choice({"rat": [F(2), F(1, 2), F(3), F(1, 64), F(1000)] + ([F(2) ** 40, F(2) ** -66] if m != "cubic" and n < 3 else []),
                                          "f64": [F(2) ** k for k in (1, -1, 10, -10, 20, -20, 30, -30, 40, -40, 80, -80)],
                                          "f32": [F(2) ** k for k in (1, -1, 10, -10, 20, -20, 30, -30, 36, -36)]}[base])
                    if r.random() < .4:
                        sc[d] = -sc[d]
                    if r.random() < .5:
                        sh[d] = r.choice([abs(sc[d]) * r.randint(-1000, 1000), -sc[d] * coord(axes[d], 0), -sc[d] * coord(axes[d], dims[d] - 1)])
                ax2 = []
                for a, c, o in zip(axes, sc, sh):
                    cs = sorted(c * x + o for x in coords(a))
                    ax2.append(aff(len(cs), cs[0], cs[1] - cs[0]) if g == "regular" else lst(cs))
                v2 = [v[flat_index(dims, [d - 1 - i if c < 0 else i for i, d, c in zip(ix, dims, sc)])]
                      for ix in product(*[range(d) for d in dims])]
                p2 = s.prob(problem(m, g, ax2, vlist(v2), lin))
                q = [[c * x + o for x, c, o in zip(pt, sc, sh)] for pt in pts]
                e1, e2 = run(s, r, p1, f, pts, num), run(s, r, p2, f, q, num)
                s.rel(k="affine", p1=p1, p2=p2, sc=[J(c) for c in sc], sh=[J(o) for o in sh],
                      on=[[e1, i + 1, e2, i + 1] for i in range(len(pts))])
            yield s


# ------------------------------------------------------------------ special coordinates in long batches
def specials(num):
    if num == "rat":
        return ["nan", "inf", "-inf", str(2**62), str(-2**62), str(2**63), str(-2**63), str(2**64), str(10**25), str(-10**25)]
    return ["nan", "inf", "-inf", "max", "min", "1@62", "-1@62", "1@63", "-1@63", "1@64", "-1@64", "1@70", "-1@70", "1@31", "-1@31",
            "1@32", "-1@32", "1@53", "9223372036854774784", "-9223372036854774784", "tiny", "-0"]


def special_batches(seed, tier, nums, count):
    for num in nums:
        for j in range(count):
            r = rng(seed, "C15", tier, "st", num, j)
            m, g, lin, n, f = deal(r, ("linear", "cubic", "nearest"), j)
            s = Session(f"C15-st-{num}-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, ["value"])
            P = sproblem(r, m, g, n, lin, num, cap=3000)
            p = s.prob(P)
            for rep in range(4):
                k = min(length(r, P, 3000), 260)
                q = [[J(c) for c in x] for x in sbatch(r, P, k, num=num)]
                good = [list(x) for x in q]
                where = r.choice([[0], [k - 1], [k // 2], sorted({r.randrange(k) for _ in range(3)}), [r.randrange(k)]])
                for i in where:
                    for d in r.choice([[r.randrange(n)], list(range(n)), [0], [n - 1]]):
                        q[i][d] = r.choice(specials(num))
                obs = [[x[d] for x in q] for d in range(n)]
                w = r.choice(["obj", "fn", "alc", "par"])
                if w in ("obj", "par") and (f == "rec" or n <= MAXFLAT[m]):
                    h = s.new(p, f, n)
                    if w == "par" and k <= 64:
                        s.ev(o="par", h=h, p=p, obs=obs, n=k, th=3, pre=s.PRE)
                    else:
                        s.ev(o="bat", h=h, p=p, obs=obs, n=k, pre=r.choice([s.PRE, "nan", 0]))
                    s.ev(o="bat", h=h, p=p, obs=[[x[d] for x in good[:20]] for d in range(n)], n=len(good[:20]), pre=s.PRE)
                    s.ev(o="one", h=h, p=p, x=q[where[0]])
                    s.ev(o="one", h=h, p=p, x=good[0])
                elif w == "alc":
                    s.ev(o="alc", p=p, a=f, obs=obs)
                else:
                    s.ev(o="fn", p=p, a=f, obs=obs, n=k, pre=s.PRE)
                s.ev(o="cb", p=p, a=f, obs=obs, n=n, atol=0, pre=False)
            yield s


def special_1d(seed, tier, nums, count):
    """C15 in one dimension: special coordinates among ordinary ones, and ordinary calls after them."""
    for num in nums:
        for j in range(count):
            r = rng(seed, "C15", tier, "st1", num, j)
            g = r.choice(["regular", "rectilinear"])
            n = r.choice([2, 3, 4, 5, 9, 33, 65, 257])
            s = Session(f"C15-st1-{num}-{j}-{g}-{n}", num, ["one"])
            a = style_axis(r, g, n, num=num)
            p = s.prob(problem("linear", g, [a], rand_list(r, n, 50)))
            s.ev(o="g1", h=1, p=p)
            for rep in range(8):
                k = r.choice([1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 65])
                xs = [J(x[0]) for x in sbatch(r, s.pr(p), k, num=num)]
                good = list(xs)
                for i in r.choice([[0], [k - 1], [k // 2], [r.randrange(k)], sorted({r.randrange(k) for _ in range(3)})]):
                    xs[i] = r.choice(specials(num))
                kd = r.choice(["left", "right", "nearest", "linear", "hold"])
                f = r.choice(["eval", "eval", "alc", "one"])
                s.ev(o="i1", h=1, p=p, k=kd, f=f, xs=xs, n=k, pre=r.choice([s.PRE, 0]))
                s.ev(o="i1", h=1, p=p, k=kd, f=r.choice(["eval", "alc", "one"]), xs=good, n=k, pre=s.PRE)
                s.ev(o="at", h=1, p=p, x=r.choice(specials(num)))
                s.ev(o="at", h=1, p=p, x=good[0])
                s.ev(o="i1", h=1, p=p, k=kd, f="eval", xs=good, n=k + r.choice([-1, 1]), pre=s.PRE)
            yield s


# ------------------------------------------------------------------ bounds checks
def bounds(seed, tier, nums, count):
    for num in nums:
        for j in range(count):
            r = rng(seed, "C16", tier, "st", num, j)
            g = r.choice(["regular", "rectilinear"])
            m = r.choice(["linear", "cubic", "nearest"])
            n = r.randint(1, 8)
            s = Session(f"C16-st-{num}-{j}-{m}-{g}-{n}", num, ["bounds"])
            for rep in range(6):
                axes = [style_axis(r, g, r.choice([2, 3, 4, 5, 8, 33, 65, 257, 1025]), num=num) for _ in range(n)]
                p = s.prob(problem(m, g, axes, vlist([])))
                w = coord(axes[0], 1) - coord(axes[0], 0)
                at = rf(r.choice([F(0), F(0), F(1, 1024), F(1), F(1000), w / 64, 3 * w, F(1, 10), w / 3]), num)
                k = r.choice([1, 2, 3, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300])
                hit = r.choice([set(), {r.randrange(n)}, {n - 1}, {0}, set(range(n)), {d for d in range(n) if r.random() < .5}])
                obs = []
                for d in range(n):
                    a = axes[d]
                    L = alen(a)
                    lo, hi = coord(a, 0), coord(a, L - 1)
                    # as close to the tolerance as the type resolves
                    near = (at + abs(lo) + abs(hi)) * F(1, 2**r.choice({"rat": [20, 40], "f64": [20, 30, 40, 44], "f32": [10, 16]}[num.split("+")[0]]))
                    q = [r.choice([lo + (hi - lo) * F(r.randint(0, 16), 16), lo, hi, lo - at / 2, hi + at / 2]
                                  + ([rf(lo - at + near, num), rf(hi + at - near, num)] if near < hi - lo else [])) for _ in range(k)]
                    if d in hit:
                        w0, w1 = coord(a, 1) - lo, hi - coord(a, L - 2)
                        up = r.random() < .5
                        eps = {"rat": F(1, 4096), "f64": F(1, 2**20), "f32": F(1, 256)}[num.split("+")[0]]
                        e = r.choice([near, (w1 if up else w0) * r.choice([eps, F(1, 8), F(1), F(100), F(10**6)])])
                        for i in r.choice([[0], [k - 1], [r.randrange(k)], range(k), [k // 2]]):
                            q[i] = rf(hi + at + e if up else lo - at - e, num)
                    obs.append([J(x) for x in q])
                s.ev(o="cb", p=p, a=r.choice(["flat", "rec"]) if m != "nearest" else "flat", obs=obs, n=n, atol=J(at),
                     pre=r.random() < .5)
            yield s


# ------------------------------------------------------------------ one dimension
def oned_stress(prop, seed, tier, nums, kinds, count, lookup):
    for num in nums:
        for j in range(count):
            r = rng(seed, prop, tier, "st", num, j)
            g = r.choice(["regular", "rectilinear"])
            n = r.choice([2, 3, 4, 5, 8, 9] + LONG)
            ax = style_axis(r, g, n, style="decimal" if num != "rat" and r.random() < .3 else None, num=num)
            s = Session(f"{prop}-st-{num}-{j}-{g}-{n}", num, ["one"])
            P = problem("linear", g, [ax], rand_list(r, n, 50) if n < 100 else lcg(r, n))
            p = s.prob(P)
            s.ev(o="g1", h=1, p=p)
            for k in kinds:
                L = r.choice([q for q in LENGTHS if q <= 520])
                pts = [x[0] for x in sbatch(r, P, L, num=num)]
                s.ev(o="i1", h=1, p=p, k=k, f=r.choice(["eval", "alc"]), xs=[J(x) for x in pts], n=len(pts), pre=s.PRE)
                s.ev(o="i1", h=1, p=p, k=k, f="one", xs=[J(x) for x in pts[:20]], n=len(pts[:20]), pre=s.PRE)
            if lookup:
                for x in [x[0] for x in sbatch(r, P, 25, num=num)]:
                    s.ev(o="at", h=1, p=p, x=J(x))
            yield s


# ------------------------------------------------------------------ one problem after another in the same memory
def same_memory(prop, seed, tier, nums, count):
    for num in nums:
        for j in range(count):
            r = rng(seed, prop, tier, "mem", num, j)
            m, g, lin, n, f = deal(r, ("linear", "cubic", "nearest"), j, maxn=5 if num == "rat" else None)
            s = Session(f"{prop}-mem-{num}-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, ["value"])
            s.d["arena"] = True
            P = sproblem(r, m, g, n, lin, num, cap=1500, kind="list" if n <= 3 else None)
            dims = [alen(a) for a in P["_axes"]]
            ps = [s.prob(P)]
            for q in range(3):
                how = r.choice(["vals", "axis", "axes", "all", "lin"])
                axes = list(P["_axes"])
                ds = [r.randrange(n)] if how == "axis" else range(n) if how in ("axes", "all") else []
                for d in ds:
                    c = coords(axes[d])
                    w = c[1] - c[0]
                    if r.random() < .5:      # same ends, other nodes between them
                        axes[d] = twin_of(r, g, axes[d])
                    else:
                        k = r.choice([1, -1, 3, F(1, 2)]) * w
                        axes[d] = aff(len(c), rf(c[0] + k, num), rf(w * r.choice([1, 2, F(1, 2)]), num)) if g == "regular" else lst([rf(x + k, num) for x in c])
                v = P["vals"]
                if how in ("vals", "all"):
                    v = rand_list(r, prod(dims)) if n <= 3 else sproblem(r, m, g, n, lin, num, cap=1500, dims=dims, kind="sep")["vals"]
                ps.append(s.prob(problem(m, g, axes, v, lin != (how == "lin" and m == "cubic"))))
            pts = sbatch(r, P, r.choice([1, 2, 5, 9, 33]), num=num)
            for rep in range(10):
                p = r.choice(ps)
                X = pts if r.random() < .6 else sbatch(r, s.pr(p), len(pts), num=num)
                e = r.choice(["new", "new", "fn", "alc", "cb"])
                if e == "new":
                    h = s.new(p, f, n)
                    for _ in range(r.randint(1, 2)):
                        s.bat(h, p, r.choice([X, X[::-1]]))
                    s.one(h, p, r.choice(X))
                elif e == "cb":
                    s.cb(p, f, X[:5], 0)
                else:
                    getattr(s, e)(p, f, X)
            yield s


def twin_of(r, g, a):
    b = [a, a]
    for _ in range(8):
        twins(r, g, b)
        if coords(b[1]) != coords(a):
            break
    return b[1]


def same_memory_1d(prop, seed, tier, nums, kinds, count, lookup):
    for num in nums:
        for j in range(count):
            r = rng(seed, prop, tier, "mem", num, j)
            g = r.choice(["regular", "rectilinear"])
            n = r.choice([2, 3, 5, 9, 33, 100])
            s = Session(f"{prop}-mem-{num}-{j}-{g}-{n}", num, ["one"])
            s.d["arena"] = True
            a = style_axis(r, g, n, num=num)
            ps = [s.prob(problem("linear", g, [b], rand_list(r, n, 50))) for b in (a, twin_of(r, g, a), a, twin_of(r, g, a))]
            pts = [x[0] for x in sbatch(r, s.pr(ps[0]), r.choice([2, 5, 20]), num=num)]
            for rep in range(10):
                p = r.choice(ps)
                s.ev(o="g1", h=1, p=p)
                k = r.choice(kinds)
                s.ev(o="i1", h=1, p=p, k=k, f=r.choice(["eval", "alc", "one"]), xs=[J(x) for x in pts], n=len(pts), pre=s.PRE)
                if lookup:
                    for x in pts[:4]:
                        s.ev(o="at", h=1, p=p, x=J(x))
            yield s


def malformed(r, P, num):
    """A problem made malformed in one way."""
    m, g = P["m"], P["g"]
    q = {k: (list(v) if isinstance(v, list) else v) for k, v in P.items()}
    axes = list(P["_axes"])
    n = len(axes)
    dims = [alen(a) for a in axes]
    d = r.choice([0, n - 1, r.randrange(n)])
    lo = MINN[m]
    how = r.choice(["vals", "vals", "short", "step", "step", "more", "fewer"] if g == "regular" else
                   ["vals", "vals", "short", "order", "order", "order", "more", "fewer"])
    if how == "vals":
        q["vals"] = lcg(r, r.choice([prod(dims) - 1, prod(dims) + 1, prod(dims) * 2, prod(dims) // 2, 0, prod(dims) + dims[-1]]), 101)
    elif how == "short":
        k = r.randrange(0, lo)
        dims[d] = k
        if g == "regular":
            q["dims"][d] = k
        else:
            q["grids"][d] = {"k": "list", "v": [J(x) for x in coords(axes[d])[:k]]}
        q["vals"] = lcg(r, prod(dims), 101)
    elif how == "step":
        q["steps"][d] = r.choice([0, "nan", J(-axes[d]["h"]), "-inf"] + (["-0"] if num != "rat" else []))
    elif how == "order":
        c = [J(x) for x in coords(axes[d])]
        c = r.choice([[c[0], c[0]] + c[2:], [c[1], c[0]] + c[2:], c[::-1], ["nan"] + c[1:], [c[0], "nan"] + c[2:], ["inf"] + c[1:], [c[0], "-inf"] + c[2:]])
        q["grids"][d] = {"k": "list", "v": c}
    elif how == "more":
        for f, x in (("dims", 1), ("starts", 0), ("steps", 1)) if g == "regular" else (("grids", {"k": "list", "v": list(range(lo))}),):
            if g != "regular" or f == r.choice(["dims", "starts", "steps"]):
                q[f].append(x)
        if g == "regular":
            q[r.choice(["starts", "steps"])].append(1)
    else:
        f = r.choice(["starts", "steps"]) if g == "regular" else "grids"
        q[f].pop()
    return q


def refused(seed, tier, nums, count):
    """C14: malformed problems after good ones of the same shape, in the same memory."""
    for num in nums:
        for j in range(count):
            r = rng(seed, "C14", tier, "mem", num, j)
            m, g, lin, n, f = deal(r, ("linear", "cubic", "nearest"), j, maxn=5)
            s = Session(f"C14-mem-{num}-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, ["value"])
            s.d["arena"] = r.random() < .7
            P = sproblem(r, m, g, n, lin, num, cap=1500, style="plain")
            if g == "rectilinear" and any(a["k"] != "list" for a in P["_axes"]):
                P = problem(m, g, [lst(coords(a)) for a in P["_axes"]], P["vals"], lin)
            ok = s.prob(P)
            pts = [spoint(r, P, ["in", "anycell", "node"], num) for _ in range(3)]
            for rep in range(4):
                h = s.new(ok, f, n)
                s.bat(h, ok, pts)
                for q in range(r.randint(1, 3)):
                    b = s.prob(malformed(r, P, num))
                    e = r.choice(["new", "new", "fn", "alc"])
                    if e == "new":
                        nd = len(s.pr(b)["grids" if g == "rectilinear" else "dims"])
                        fits = g != "regular" or len(s.pr(b)["starts"]) == len(s.pr(b)["steps"]) == nd
                        if f == "flat" and (not fits or not 1 <= nd <= MAXFLAT[m]):
                            e = "fn"
                        else:
                            s.new(b, f, nd if f == "flat" else r.choice([q for q in RECMD if q >= n]))
                    if e != "new":
                        getattr(s, e)(b, f, pts)
                if r.random() < .5:
                    s.fn(ok, f, pts)
            yield s
