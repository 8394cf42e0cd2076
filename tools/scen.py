"""Scenarios per property (the Rust library)."""
import random
from fractions import Fraction as F
from gen import *
import stress


def rng(seed, *k):
    return random.Random("/".join(map(str, (seed,) + k)))


def t(tier, quick, thorough):
    return thorough if tier == "thorough" else quick


INSIDE = ["node", "first", "last", "in", "in", "mid", "firstnode", "lastnode"]
INKINDS = ["node", "in", "first", "last", "mid", "firstnode", "lastnode", "epsnode", "epsmid", "anycell", "anycell"]
OUTKINDS = ["low", "high", "farlow", "farhigh", "nearlow", "nearhigh", "vfar", "epsedge", "node", "in", "anycell"]
OUTSIDE = ["low", "high", "farlow", "farhigh", "nearlow", "nearhigh"]


def npts(n, big):
    """Fewer points in high dimensions."""
    return max(2, big if n <= 4 else big // 2 if n <= 6 else big // 3)


def value_sessions(prop, seed, tier, ms, chk, num="rat", k=8, regimes=None, maxn=8, reps=1, force=None):
    """Every method, grid kind, dimension and entry point on random problems and points."""
    for m, g, lin, n in strata(ms, maxn):
        for rep in range(reps):
            r = rng(seed, prop, tier, num, m, g, lin, n, rep)
            s = Session(f"{prop}-{num}-{m}-{g}-{'lin' if lin else 'nat'}-{n}-{rep}", num, chk)
            p = s.prob(rand_problem(r, m, g, n, lin))
            pts = []
            for j in range(npts(n, k)):
                x = rand_point(r, s.pr(p), regimes)
                if force:
                    d = r.randrange(n)
                    x[d] = rand_coord(r, s.pr(p)["_axes"][d], r.choice(force))
                pts.append(x)
            for e in entries(m, n, r):
                big = n >= 7 and m == "cubic"
                q = pts if not big else r.sample(pts, min(len(pts), 2))
                q = q[:3] if e[0] == "one" else q
                evaluate(s, p, e, q)
            yield s


def combo_sessions(prop, seed, tier, ms, chk, k=None):
    """Two- and three-dimensional problems: every combination of positions along the axes."""
    regs = ["low", "firstnode", "first", "node", "in", "last", "lastnode", "high"]
    for m, g, lin in methods(ms):
        for n in (1, 2, 3):
            r = rng(seed, prop, tier, "combo", m, g, lin, n)
            lo = MINN[m]
            s = Session(f"{prop}-combo-{m}-{g}-{'lin' if lin else 'nat'}-{n}", "rat", chk)
            p = s.prob(rand_problem(r, m, g, n, lin, dims=[lo + r.randint(1, 3) for _ in range(n)]))
            cs = list(product(regs, repeat=n))
            if n == 3:
                cs = r.sample(cs, t(tier, 60, 512))
            pts = [[rand_coord(r, a, c) for a, c in zip(s.pr(p)["_axes"], cc)] for cc in cs]
            for e in [("bat", "flat", n)] + ([("bat", "rec", n)] if m != "nearest" else []):
                evaluate(s, p, e, pts)
            yield s


def large_sessions(prop, seed, tier, ms, chk, num="rat"):
    """Large grids in closed form."""
    shapes = [(1, [140003]), (2, [263, 257]), (3, [37, 41, 47]), (2, [4, 20011]), (2, [20011, 4])]
    if tier == "thorough":
        shapes += [(1, [300007]), (3, [101, 11, 97]), (4, [17, 13, 11, 19]), (5, [5, 7, 6, 8, 9]), (6, [4, 5, 6, 5, 4, 7])]
    for m, g, lin in methods(ms):
        for n, dims in shapes:
            r = rng(seed, prop, tier, num, "large", m, g, lin, n, dims)
            axes = []
            for d in dims:
                st = r.randint(-50, 50)
                axes.append(aff(d, st, r.choice([1, 2, F(1, 2)])) if g == "regular" or r.random() < .3
                            else alt(d, st, r.choice([1, 2]), r.choice([1, 3, F(1, 2)])))
            s = Session(f"{prop}-large-{num}-{m}-{g}-{'lin' if lin else 'nat'}-{'x'.join(map(str, dims))}", num, chk)
            p = s.prob(problem(m, g, axes, lcg(r, prod(dims)), lin))
            pts = rand_points(r, s.pr(p), t(tier, 8, 24))
            for e in [("bat", "flat", n)] * (n <= MAXFLAT[m]) + [("bat", "rec", n)] * (m != "nearest") + [("fn", "flat", n)]:
                evaluate(s, p, e, pts)
            yield s


def longbatch_sessions(prop, seed, tier, ms, chk):
    """Batches long enough to notice per-position effects."""
    for m, g, lin in methods(ms):
        for n in (1, 2):
            r = rng(seed, prop, tier, "long", m, g, lin, n)
            s = Session(f"{prop}-long-{m}-{g}-{'lin' if lin else 'nat'}-{n}", "rat", chk)
            p = s.prob(rand_problem(r, m, g, n, lin))
            pts = rand_points(r, s.pr(p), t(tier, 150, 700) // n)
            for e in [("bat", "flat", n), ("fn", "flat", n)] + ([("bat", "rec", n)] if m != "nearest" else []):
                evaluate(s, p, e, pts)
            yield s


# ------------------------------------------------------------------ C01
def c01(seed, tier):
    chk = ["node"]
    for m, g, lin, n in strata():
        for rep in range(t(tier, 1, 4)):
            r = rng(seed, "C01", tier, m, g, lin, n, rep)
            s = Session(f"C01-{m}-{g}-{'lin' if lin else 'nat'}-{n}-{rep}", "rat", chk)
            dims = rand_dims(r, m, n)
            p = s.prob(rand_problem(r, m, g, n, lin, dims))
            ax = s.pr(p)["_axes"]
            k = prod(dims)
            every = list(product(*[range(d) for d in dims])) if k <= 150 else None
            lim = 150 if n <= 3 else 20 if n <= 5 else t(tier, 6, 12)
            ixs = every if every and k <= lim else \
                [tuple(r.choice([0, d - 1, r.randrange(d), 1, d - 2]) for d in dims) for _ in range(lim)]
            pts = [[coord(a, i) for a, i in zip(ax, ix)] for ix in ixs]
            for j, e in enumerate(entries(m, n, r)):
                big = n >= 7 and m == "cubic"
                q = pts[:3] if e[0] == "one" else pts if j < 1 else r.sample(pts, min(len(pts), 12))
                evaluate(s, p, e, r.sample(q, 2) if big else q)
            yield s
    for s in large_nodes("C01", seed, tier, chk, "rat"):
        yield s
    for s in large_nodes("C01", seed, tier, chk, "f64"):
        yield s
    yield from stress.nodes(seed, tier, stress.NUMS, t(tier, 28, 168))


def large_nodes(prop, seed, tier, chk, num):
    shapes = [[140003], [263, 257], [4, 20011], [37, 41, 47]]
    for m, g, lin in methods():
        if lin and tier == "quick":
            continue
        for dims in shapes:
            r = rng(seed, prop, tier, num, "largenodes", m, g, lin, dims)
            axes = [aff(d, r.randint(-50, 50), r.choice([1, 2, F(1, 2)])) if g == "regular"
                    else alt(d, r.randint(-50, 50), r.choice([1, 2]), r.choice([1, 3, F(1, 2)])) for d in dims]
            s = Session(f"{prop}-large-{num}-{m}-{g}-{'lin' if lin else 'nat'}-{'x'.join(map(str, dims))}", num, chk)
            p = s.prob(problem(m, g, axes, lcg(r, prod(dims)), lin))
            n = len(dims)
            ixs = [[r.choice([0, d - 1, d - 2, r.randrange(d), r.randrange(d)]) for d in dims] for _ in range(t(tier, 10, 40))]
            pts = [[coord(a, i) for a, i in zip(axes, ix)] for ix in ixs]
            for e in [("bat", "flat", n)] + ([("bat", "rec", n)] if m != "nearest" else []):
                evaluate(s, p, e, pts)
            yield s


# ------------------------------------------------------------------ C02-C05
def c02(seed, tier):
    ms, chk = ("linear",), ["value"]
    yield from value_sessions("C02", seed, tier, ms, chk, k=t(tier, 16, 40), reps=t(tier, 2, 8))
    yield from combo_sessions("C02", seed, tier, ms, chk)
    yield from large_sessions("C02", seed, tier, ms, chk)
    yield from large_sessions("C02", seed, tier, ms, chk, "f64")
    yield from longbatch_sessions("C02", seed, tier, ms, chk)
    yield from stress.stress_values("C02", seed, tier, ms, chk, stress.NUMS, t(tier, 24, 200))
    yield from stress.almost_even("C02", seed, tier, ms, chk, stress.NUMS)


def c03(seed, tier):
    ms, chk = ("nearest",), ["value"]
    yield from value_sessions("C03", seed, tier, ms, chk, k=t(tier, 40, 100), reps=t(tier, 3, 12))
    yield from value_sessions("C03t", seed, tier, ms, chk, k=t(tier, 40, 100), reps=t(tier, 2, 6), regimes=["mid", "mid", "in", "high", "low"])
    yield from combo_sessions("C03", seed, tier, ms, chk)
    yield from large_sessions("C03", seed, tier, ms, chk)
    yield from large_sessions("C03", seed, tier, ms, chk, "f64")
    yield from longbatch_sessions("C03", seed, tier, ms, chk)
    yield from stress.stress_values("C03", seed, tier, ms, chk, stress.NUMS, t(tier, 24, 200))


def c04(seed, tier):
    ms, chk = ("cubic",), ["inside"]
    yield from value_sessions("C04", seed, tier, ms, chk, k=t(tier, 10, 24), reps=t(tier, 1, 5), regimes=INSIDE)
    yield from value_sessions("C04b", seed, tier, ms, chk, k=t(tier, 12, 30), reps=t(tier, 2, 8), regimes=INSIDE, maxn=4)
    yield from combo_sessions("C04", seed, tier, ms, chk)
    yield from large_sessions("C04", seed, tier, ms, chk)
    yield from large_sessions("C04", seed, tier, ms, chk, "f64")
    yield from longbatch_sessions("C04", seed, tier, ms, chk)
    yield from stress.stress_values("C04", seed, tier, ms, chk, stress.NUMS, t(tier, 24, 200), kinds=INKINDS)
    yield from stress.almost_even("C04", seed, tier, ms, chk, stress.NUMS, kinds=INKINDS)


def c05(seed, tier):
    ms, chk = ("cubic",), ["outside"]
    yield from value_sessions("C05", seed, tier, ms, chk, k=t(tier, 10, 24), reps=t(tier, 1, 5), force=OUTSIDE)
    yield from value_sessions("C05b", seed, tier, ms, chk, k=t(tier, 12, 30), reps=t(tier, 2, 8), force=OUTSIDE, maxn=4)
    yield from combo_sessions("C05", seed, tier, ms, chk)
    yield from large_sessions("C05", seed, tier, ms, chk)
    yield from large_sessions("C05", seed, tier, ms, chk, "f64")
    yield from stress.stress_values("C05", seed, tier, ms, chk, stress.NUMS, t(tier, 24, 200), kinds=OUTKINDS)
    yield from stress.almost_even("C05", seed, tier, ms, chk, stress.NUMS, kinds=OUTKINDS)


# ------------------------------------------------------------------ C06
def c06(seed, tier):
    """Nine equally spaced points across a cell face or the edge of the grid."""
    for m, g, lin, n in strata(("linear", "cubic")):
        if n > t(tier, 6 if m == "linear" else 5, 8):
            continue
        r = rng(seed, "C06", tier, m, g, lin, n)
        s = Session(f"C06-{m}-{g}-{'lin' if lin else 'nat'}-{n}", "rat", [])
        p = s.prob(rand_problem(r, m, g, n, lin, [MINN[m] + r.randint(0, 2) for _ in range(n)] if n <= 4 else None))
        axes = s.pr(p)["_axes"]
        hs = []
        if n <= MAXFLAT[m]:
            hs.append(s.new(p, "flat", n))
        hs.append(s.new(p, "rec", n))
        for a in range(n):
            ks = list(range(alen(axes[a])))
            if n >= 3:
                ks = sorted(set([0, alen(axes[a]) - 1, r.choice(ks)] if n <= 4 else [r.choice([0, alen(axes[a]) - 1]), r.choice(ks)]))
            for k in ks:
                for rep in range(t(tier, 2 if n <= 3 else 1, 6 if n <= 4 else 2)):
                    x = rand_point(r, s.pr(p))
                    c = coord(axes[a], k)
                    w = min([coord(axes[a], j + 1) - coord(axes[a], j) for j in (k - 1, k) if 0 <= j < alen(axes[a]) - 1])
                    h = w * r.choice([F(1, 4), F(1, 5), F(1, 8)])
                    pts = [x[:a] + [c + (j - 4) * h] + x[a + 1:] for j in range(9)]
                    for hd in (hs if rep == 0 else [r.choice(hs)]):
                        e = s.bat(hd, p, pts)
                        s.rel(k="cont", e=e, a=a + 1, h=J(h))
        yield s
    yield from stress.smooth(seed, tier, t(tier, 40, 400))
    yield from stress.zoom(seed, tier, stress.NUMS, t(tier, 24, 240))


# ------------------------------------------------------------------ C07
def c07(seed, tier):
    for m, g, lin, n in strata(("linear", "cubic")):
        for deg in (1, 2) if m == "cubic" else (1,):
            for rep in range(t(tier, 1 if n > 4 else 2, 4)):
                r = rng(seed, "C07", tier, m, g, lin, n, deg, rep)
                dims = rand_dims(r, m, n)
                axes = [rand_axis(r, g, k) for k in dims]
                poly = []
                for _ in range(r.choice([1, 2])):
                    poly.append([[r.randint(-2, 2) for _ in range(deg)] + [r.choice([-1, 1, 2])] for _ in range(n)])
                ev = lambda c, x: sum(F(ck) * x**i for i, ck in enumerate(c))
                vals = {"k": "sep", "dims": dims,
                        "terms": [[[J(ev(c, x)) for x in coords(a)] for c, a in zip(term, axes)] for term in poly]}
                s = Session(f"C07-{m}-{g}-{'lin' if lin else 'nat'}-{n}-{deg}-{rep}", "rat", [])
                p = s.prob(problem(m, g, axes, vals, lin))
                pts = rand_points(r, s.pr(p), npts(n, t(tier, 12, 24)))
                if deg == 2 and lin:
                    pts += rand_points(r, s.pr(p), npts(n, 6), INSIDE)
                es = []
                for e in entries(m, n, r):
                    if e[0] == "one":
                        continue
                    es += evaluate(s, p, e, r.sample(pts, 2) if n >= 7 and m == "cubic" else pts)
                s.rel(k="poly", p1=p, poly=poly, es=es)
                yield s
    yield from stress.polynomials(seed, tier, stress.NUMS, t(tier, 24, 240))


# ------------------------------------------------------------------ C08
def c08(seed, tier):
    for num in ("rat", "f64"):
        for m, _, lin, n in [x for x in strata() if x[1] == "regular"]:
            if num == "f64" and tier == "quick" and n > 6:
                continue
            for rep in range(t(tier, 1, 3)):
                r = rng(seed, "C08", tier, num, m, lin, n, rep)
                dims = rand_dims(r, m, n)
                axes = [rand_axis(r, "regular", k) for k in dims]
                vals = rand_vals(r, dims, "sep" if n > 4 else None)
                s = Session(f"C08-{num}-{m}-{'lin' if lin else 'nat'}-{n}-{rep}", num, [])
                p1 = s.prob(problem(m, "regular", axes, vals, lin))
                p2 = s.prob(problem(m, "rectilinear", [lst(coords(a)) for a in axes], vals, lin))
                k = npts(n, t(tier, 12, 24))
                if m == "cubic" and n >= 7:
                    k = 2
                pts = rand_points(r, s.pr(p1), k)
                base, on1, on2 = None, [], []
                for p in (p1, p2):
                    for e in entries(m, n, r, full=n <= 3 or tier == "thorough"):
                        one = e[0] == "one"
                        q = pts[:2] if one else pts
                        evs = evaluate(s, p, e, q)
                        prs = [(ev, 1, j + 1) for j, ev in enumerate(evs)] if one else [(evs[0], j + 1, j + 1) for j in range(len(q))]
                        if base is None:
                            base = evs[0]
                        for ev, j, j0 in prs:
                            (on1 if p == p1 else on2).append((base, j0, ev, j))
                s.same(p1, p1, on1)
                s.same(p1, p2, on2)
                yield s
    yield from stress.stress_same("C08", seed, tier, stress.NUMS, t(tier, 15, 150))


# ------------------------------------------------------------------ C09
def c09(seed, tier):
    for num in ("rat", "f64"):
        for m, g, lin, n in strata():
            if n > t(tier, 4 if m != "linear" else 8, 8):
                continue
            if num == "f64" and n > 3 and tier == "quick":
                continue
            r = rng(seed, "C09", tier, num, m, g, lin, n)
            s = Session(f"C09-{num}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, [])
            kind = "sep" if n > 4 else None
            p = s.prob(rand_problem(r, m, g, n, lin, kind=kind))
            other = s.prob(rand_problem(r, m, g, n, lin, kind=kind))
            pts = rand_points(r, s.pr(p), 8 if n <= 4 else 4)
            opts = rand_points(r, s.pr(other), 3)
            ways = [("obj", "flat", n)] * (n <= MAXFLAT[m]) + [("fn", "flat", n)] * (n <= MAXCALL[m])
            if m != "nearest":
                ways += [("obj", "rec", n), ("fn", "rec", n)]
            for kind, fam, md in ways:
                if kind == "obj":
                    h, ho = s.new(p, fam, md), s.new(other, fam, md)
                    run = lambda q, pre=Session.PRE: s.bat(h, p, q, pre)
                    noise = lambda q: s.bat(ho, other, q)
                else:
                    run = lambda q, pre=Session.PRE: s.fn(p, fam, q, pre)
                    noise = lambda q: s.fn(other, fam, q)
                on = []
                e0 = run(pts)
                # any order, subsets, repetitions
                for rep in range(t(tier, 3, 8)):
                    idx = [r.randrange(len(pts)) for _ in range(r.randint(1, 2 * len(pts)))] if rep else \
                        r.sample(range(len(pts)), len(pts))
                    if r.random() < .7:
                        noise(opts)
                    e = run([pts[i] for i in idx], r.choice([Session.PRE, "nan", "inf", 0]))
                    on += [(e0, i + 1, e, j + 1) for j, i in enumerate(idx)]
                # other points around one of them; far-away and non-finite neighbours
                i = r.randrange(len(pts))
                q = rand_points(r, s.pr(p), 3) + [pts[i]] + rand_points(r, s.pr(p), 2, ["farlow", "farhigh"])
                on.append((e0, i + 1, run(q, "nan"), 4))
                if kind == "obj":
                    for i in r.sample(range(len(pts)), 2):
                        on.append((e0, i + 1, s.one(h, p, pts[i]), 1))
                    e = s.par(h, p, pts, 4)
                    on += [(e0, j + 1, e, j + 1) for j in range(len(pts))]
                    h2 = s.new(p, fam, md)
                    e = s.bat(h2, p, pts)
                    on += [(e0, j + 1, e, j + 1) for j in range(len(pts))]
                s.same(p, p, on)
            yield s
    for s in longbatch_same(seed, tier):
        yield s
    yield from stress.stress_same("C09", seed, tier, stress.NUMS, t(tier, 28, 280))
    yield from stress.same_memory("C09", seed, tier, stress.NUMS, t(tier, 28, 280))


def longbatch_same(seed, tier):
    for m, g, lin in methods():
        r = rng(seed, "C09", tier, "long", m, g, lin)
        n = r.choice([1, 2])
        s = Session(f"C09-long-{m}-{g}-{'lin' if lin else 'nat'}", "rat", [])
        p = s.prob(rand_problem(r, m, g, n, lin))
        base = rand_points(r, s.pr(p), 7)
        for fam in ["flat"] + (["rec"] if m != "nearest" else []):
            h = s.new(p, fam, n)
            e0 = s.bat(h, p, base)
            k = t(tier, 200, 1500)
            e = s.bat(h, p, [base[j % 7] for j in range(k)])
            s.same(p, p, [(e0, j % 7 + 1, e, j + 1) for j in range(k)])
        yield s


# ------------------------------------------------------------------ C10
def foot(m, ax, x):
    """A box that contains every node that may matter (the specification checks that it does)."""
    cs = coords(ax)
    n = len(cs)
    i = max([k for k in range(n - 1) if cs[k] <= x] or [0])
    lo, hi = (max(0, i - 1), min(n - 1, i + 2)) if m == "cubic" else (i, i + 1)
    if cs[i] == x:
        lo = max(0, lo - 1)
    if cs[i + 1] == x:
        hi = min(n - 1, hi + 1)
    return lo, hi


def c10(seed, tier):
    for m, g, lin, n in strata():
        if n > t(tier, 4 if m == "cubic" else 6, 8):
            continue
        r = rng(seed, "C10", tier, m, g, lin, n)
        s = Session(f"C10-{m}-{g}-{'lin' if lin else 'nat'}-{n}", "rat", [])
        dims = [MINN[m] + (r.randint(3, 5) if n <= 2 else r.randint(1, 3) if n <= 4 else r.randint(0, 1)) for _ in range(n)]
        axes = [rand_axis(r, g, k) for k in dims]
        base = rand_vals(r, dims, "list" if prod(dims) <= 600 else "sep")
        p = s.prob(problem(m, g, axes, base, lin))
        hs0 = {f: s.new(p, f, n) for f in (["flat"] if n <= MAXFLAT[m] else []) + (["rec"] if m != "nearest" else [])}
        for rep in range(t(tier, 8 if n <= 4 else 4, 30)):
            x = rand_point(r, s.pr(p))
            fb = [foot(m, a, c) for a, c in zip(axes, x)]
            out = r.choice(["nan", "nan", "inf", "-inf", 1000003])
            q = s.prob(problem(m, g, axes, {"k": "box", "base": base, "dims": dims, "lo": [a for a, _ in fb],
                                           "hi": [b for _, b in fb], "out": out}, lin))
            for f, h0 in hs0.items():
                e0 = s.bat(h0, p, [x])
                e1 = s.bat(s.new(q, f, n), q, [x])
                s.rel(k="local", p1=p, p2=q, on=[[e0, 1, e1, 1]])
        yield s
    # changing single values outside the footprint, in small grids
    for m, g, lin in methods():
        r = rng(seed, "C10", tier, "single", m, g, lin)
        n = 2
        s = Session(f"C10-single-{m}-{g}-{'lin' if lin else 'nat'}", "rat", [])
        dims = [MINN[m] + 3, MINN[m] + 2]
        axes = [rand_axis(r, g, k) for k in dims]
        v = [r.randint(-9, 9) for _ in range(prod(dims))]
        p = s.prob(problem(m, g, axes, vlist(v), lin))
        h0 = s.new(p, "flat", n)
        for rep in range(t(tier, 10, 40)):
            x = rand_point(r, s.pr(p))
            fb = [foot(m, a, c) for a, c in zip(axes, x)]
            k = r.choice([k for k in range(len(v)) if not all(b[0] <= i <= b[1] for i, b in zip((k // dims[1], k % dims[1]), fb))])
            w = list(v)
            w[k] = r.choice(["nan", 77777, "inf"])
            q = s.prob(problem(m, g, axes, vlist(w), lin))
            e0, e1 = s.bat(h0, p, [x]), s.fn(q, "flat", [x])
            s.rel(k="local", p1=p, p2=q, on=[[e0, 1, e1, 1]])
        yield s
    yield from stress.local(seed, tier, stress.NUMS, t(tier, 28, 252))


# ------------------------------------------------------------------ C11
def c11(seed, tier):
    for m, g, lin, n in strata():
        if m != "nearest" and n <= t(tier, 6 if m == "linear" else 4, 8):
            r = rng(seed, "C11", tier, m, g, lin, n)
            s = Session(f"C11-{m}-{g}-{'lin' if lin else 'nat'}-{n}", "rat", [])
            dims = [MINN[m] + (r.randint(0, 2) if n <= 3 else 0) for _ in range(n)]
            axes = [rand_axis(r, g, k) for k in dims]
            v1 = [r.randint(-9, 9) for _ in range(prod(dims))]
            v2 = [r.randint(-9, 9) for _ in range(prod(dims))]
            ps = {}
            for al, be in [(1, 1), (r.choice([-1, -2]), r.choice([3, F(1, 2)])), (r.choice([0, 1000]), 1)]:
                v3 = [al * a + be * b for a, b in zip(v1, v2)]
                ps[(al, be)] = s.prob(problem(m, g, axes, vlist(v3), lin))
            p1, p2 = s.prob(problem(m, g, axes, vlist(v1), lin)), s.prob(problem(m, g, axes, vlist(v2), lin))
            pts = rand_points(r, s.pr(p1), npts(n, t(tier, 12, 24)))
            for fam in (["flat"] if n <= MAXFLAT[m] else []) + ["rec"]:
                e1, e2 = [s.bat(s.new(q, fam, n), q, pts) for q in (p1, p2)]
                for (al, be), p3 in ps.items():
                    e3 = s.bat(s.new(p3, fam, n), p3, pts)
                    s.rel(k="comb", e1=e1, e2=e2, e3=e3, al=J(al), be=J(be), n=len(pts))
            yield s
        # constants everywhere, range inside
        r = rng(seed, "C11", tier, "const", m, g, lin, n)
        for num in ("rat", "f64") if n <= 4 else ("rat",):
            s = Session(f"C11-const-{num}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, ["const", "range"])
            dims = rand_dims(r, m, n)
            axes = [rand_axis(r, g, k) for k in dims]
            p = s.prob(problem(m, g, axes, const(prod(dims), r.choice([1, -7, 5])), lin))
            q = s.prob(problem(m, g, axes, rand_vals(r, dims), lin))
            big = m == "cubic" and n >= 7
            pts = rand_points(r, s.pr(p), 2 if big else npts(n, t(tier, 12, 24)))
            ins = rand_points(r, s.pr(p), npts(n, t(tier, 12, 24)), INSIDE)
            for e in entries(m, n, r):
                if e[0] in ("one", "alc"):
                    continue
                evaluate(s, p, e, pts)
                if m != "cubic":
                    evaluate(s, q, e, ins)
            yield s
    yield from stress.combos(seed, tier, stress.NUMS, t(tier, 36, 252))


# ------------------------------------------------------------------ C12
def permute(axes, dims, vals, pi):
    n = len(pi)
    pd = [dims[k] for k in pi]
    if vals["k"] == "sep":
        return {"k": "sep", "dims": pd, "terms": [[term[k] for k in pi] for term in vals["terms"]]}
    out = []
    for ix in product(*[range(d) for d in pd]):
        src = [0] * n
        for d in range(n):
            src[pi[d]] = ix[d]
        k = 0
        for d in range(n):
            k = k * dims[d] + src[d]
        out.append(vals["v"][k])
    return {"k": "list", "v": out}


def flat_index(dims, ix):
    k = 0
    for d, i in zip(dims, ix):
        k = k * d + i
    return k


def c12(seed, tier):
    for m, g, lin, n in strata():
        if n < 2:
            continue
        for rep in range(t(tier, 2 if n <= 4 else 1, 4)):
            r = rng(seed, "C12", tier, m, g, lin, n, rep)
            s = Session(f"C12-{m}-{g}-{'lin' if lin else 'nat'}-{n}-{rep}", "rat", [])
            lo = MINN[m]
            dims = [lo + r.randint(0, 3) for _ in range(n)] if n <= 3 else rand_dims(r, m, n)
            axes = [rand_axis(r, g, k) for k in dims]
            vals = rand_list(r, prod(dims)) if prod(dims) <= 400 else sep(r, dims)
            pi = r.sample(range(n), n)
            while pi == list(range(n)):
                pi = r.sample(range(n), n)
            p1 = s.prob(problem(m, g, axes, vals, lin))
            p2 = s.prob(problem(m, g, [axes[k] for k in pi], permute(axes, dims, vals, pi), lin))
            pts = rand_points(r, s.pr(p1), 2 if m == "cubic" and n >= 7 else npts(n, t(tier, 10, 20)))
            ppts = [[x[k] for k in pi] for x in pts]
            for e in [e for e in entries(m, n, r) if e[0] in ("bat", "fn")]:
                if m == "cubic" and n >= 7 and e[0] == "fn" and e[1] == "rec":
                    continue
                e1, e2 = evaluate(s, p1, e, pts)[0], evaluate(s, p2, e, ppts)[0]
                s.rel(k="perm", p1=p1, p2=p2, pi=[k + 1 for k in pi], on=[[e1, j + 1, e2, j + 1] for j in range(len(pts))])
            yield s
            if vals["k"] != "list":
                continue
            # slices at every axis, and the extruded problem
            s = Session(f"C12-slice-{m}-{g}-{'lin' if lin else 'nat'}-{n}-{rep}", "rat", [])
            p1 = s.prob(problem(m, g, axes, vals, lin))
            for a in range(n):
                k = r.choice([0, dims[a] - 1, r.randrange(dims[a])])
                rd = dims[:a] + dims[a + 1:]
                sl = [vals["v"][flat_index(dims, ix[:a] + (k,) + ix[a:])] for ix in product(*[range(d) for d in rd])]
                p2 = s.prob(problem(m, g, axes[:a] + axes[a + 1:], {"k": "list", "v": sl}, lin))
                pts = [x[:a] + [coord(axes[a], k)] + x[a + 1:] for x in rand_points(r, s.pr(p1), 6 if n <= 4 else 3)]
                spts = [x[:a] + x[a + 1:] for x in pts]
                fams = [f for f in ("flat", "rec") if (f == "flat" and n <= MAXFLAT[m]) or (f == "rec" and m != "nearest")]
                for f in fams:
                    e1, e2 = s.bat(s.new(p1, f, n), p1, pts), s.bat(s.new(p2, f, n - 1), p2, spts)
                    s.rel(k="slice", p1=p1, p2=p2, a=a + 1, n=k, on=[[e1, j + 1, e2, j + 1] for j in range(len(pts))])
                # p3: p2 extended along a new axis without variation
                nd = MINN[m] + r.randint(0, 1)
                xd = rd[:a] + [nd] + rd[a:]
                xv = [sl[flat_index(rd, ix[:a] + ix[a + 1:])] for ix in product(*[range(d) for d in xd])]
                if len(xv) > 700:
                    continue
                p3 = s.prob(problem(m, g, axes[:a] + [rand_axis(r, g, nd)] + axes[a + 1:], {"k": "list", "v": xv}, lin))
                pts = rand_points(r, s.pr(p3), 6 if n <= 4 else 3)
                for f in fams:
                    e1 = s.bat(s.new(p3, f, n), p3, pts)
                    e2 = s.bat(s.new(p2, f, n - 1), p2, [x[:a] + x[a + 1:] for x in pts])
                    s.rel(k="extrude", p1=p3, p2=p2, a=a + 1, on=[[e1, j + 1, e2, j + 1] for j in range(len(pts))])
            yield s
    yield from stress.axes_swapped(seed, tier, stress.NUMS, t(tier, 28, 252))


# ------------------------------------------------------------------ C13
def c13(seed, tier):
    for m, g, lin, n in strata():
        if n > t(tier, 4 if m == "cubic" else 6, 8):
            continue
        for rep in range(t(tier, 2, 4)):
            r = rng(seed, "C13", tier, m, g, lin, n, rep)
            s = Session(f"C13-{m}-{g}-{'lin' if lin else 'nat'}-{n}-{rep}", "rat", [])
            dims = [MINN[m] + r.randint(0, 3 if n <= 2 else 1) for _ in range(n)] if n <= 5 else rand_dims(r, m, n)
            axes = [rand_axis(r, g, k) for k in dims]
            v = [r.randint(-9, 9) for _ in range(prod(dims))]
            p1 = s.prob(problem(m, g, axes, vlist(v), lin))
            pts = rand_points(r, s.pr(p1), npts(n, t(tier, 12, 24)))
            for kind in ("shift", "scale", "mirror", "all"):
                sc, sh = [F(1)] * n, [F(0)] * n
                for d in range(n):
                    if kind in ("shift", "all"):
                        sh[d] = F(r.randint(-1000, 1000), r.choice([1, 2]))
                    if kind in ("scale", "all"):
                        sc[d] = r.choice([F(2), F(1, 2), F(3), F(7), F(1, 64), F(1000)])
                    if kind in ("mirror", "all") and r.random() < .7:
                        sc[d] = -sc[d]
                ax2 = []
                for a, c, o in zip(axes, sc, sh):
                    cs = sorted(c * x + o for x in coords(a))
                    ax2.append(aff(len(cs), cs[0], cs[1] - cs[0]) if g == "regular" else lst(cs))
                v2 = []
                for ix in product(*[range(d) for d in dims]):
                    v2.append(v[flat_index(dims, [d - 1 - i if c < 0 else i for i, d, c in zip(ix, dims, sc)])])
                p2 = s.prob(problem(m, g, ax2, vlist(v2), lin))
                q = [[c * x + o for x, c, o in zip(pt, sc, sh)] for pt in pts]
                for f in (["flat"] if n <= MAXFLAT[m] else []) + (["rec"] if m != "nearest" else []):
                    e1, e2 = s.bat(s.new(p1, f, n), p1, pts), s.bat(s.new(p2, f, n), p2, q)
                    s.rel(k="affine", p1=p1, p2=p2, sc=[J(c) for c in sc], sh=[J(o) for o in sh],
                          on=[[e1, j + 1, e2, j + 1] for j in range(len(pts))])
            yield s
    yield from stress.moved(seed, tier, stress.NUMS, t(tier, 28, 252))


# ------------------------------------------------------------------ C14
def raw_problem(m, g, dims, starts, steps, grids, vals, lin):
    p = {"m": m, "g": g, "lin": lin, "vals": vals, "_axes": [0] * (len(dims) if g == "regular" else len(grids))}
    if g == "regular":
        p.update(dims=dims, starts=starts, steps=steps)
    else:
        p.update(grids=grids)
    return p


def c14(seed, tier):
    yield from stress.refused(seed, tier, stress.NUMS, t(tier, 28, 280))
    chk = ["value"]
    for m, g, lin in methods():
        for n in range(0, MAXCALL[m] + 3):
            r = rng(seed, "C14", tier, m, g, lin, n)
            s = Session(f"C14-{m}-{g}-{'lin' if lin else 'nat'}-{n}", "rat", chk)
            lo = MINN[m]
            big = n > (4 if m == "cubic" else 8)

            def call_all(p, obs, no, mds=None):
                """All entry points that can express this call."""
                nd = len(s.pr(p)["_axes"])
                reg = s.pr(p)["g"] == "regular"
                fits = not reg or len(s.pr(p)["starts"]) == len(s.pr(p)["steps"]) == nd
                hs = []
                if 1 <= nd <= MAXFLAT[m] and fits:
                    hs.append((s.new(p, "flat", nd), nd))
                if m != "nearest":
                    for md in sorted(set(mds or [max(1, min(8, nd)), r.choice([1, 2, 3, 8, 11])])):
                        hs.append((s.new(p, "rec", md), None))
                good = s.pr(p).get("_ok", False) and nd > 0
                for h, need in hs:
                    md = s.d["ev"][[e.get("h") if e["o"] == "new" else None for e in s.d["ev"]].index(h)]["md"]
                    if good and (need is not None or nd <= md) and (need is None or len(obs) == need):
                        s.ev(o="bat", h=h, p=p, obs=obs, n=no, pre=s.PRE)
                for fam in ("flat", "rec") if m != "nearest" else ("flat",):
                    s.ev(o="fn", p=p, a=fam, obs=obs, n=no, pre=s.PRE)
                    if r.random() < .5:
                        s.ev(o="alc", p=p, a=fam, obs=obs)

            dims = [lo + (r.randint(0, 1) if not big else 0) for _ in range(n)]
            if big and prod(dims) > 70000:
                vals = {"k": "lcg", "n": prod(dims), "a": 1, "b": 2, "c": 3, "p": 7, "off": 3}
            else:
                vals = lcg(r, prod(dims), 101) if prod(dims) > 300 else rand_list(r, prod(dims))
            nv = prod(dims)
            if nv > 2_000_000:
                continue
            starts, steps = [r.randint(-3, 3) for _ in range(n)], [r.choice([1, 2, "1/2"]) for _ in range(n)]
            grids = [{"k": "list", "v": [starts[d] + k * (k + 1) for k in range(dims[d])]} for d in range(n)]
            base = (dims, starts, steps, grids, vals)
            ok = s.prob(raw_problem(m, g, *base, lin))
            s.pr(ok)["_ok"] = True
            k = 2 if n <= 6 else 1
            obs = [[r.choice([0, 1, "1/2", "5/2", -2, 30]) for _ in range(k)] for _ in range(n)]
            evalcost = (2 if m != "cubic" else 4) ** n
            call_all(ok, obs, k if n else r.choice([0, 1]), mds=[md for md in RECMD] if n <= 3 else None)
            call_all(ok, [[] for _ in range(n)], 0)                       # empty batch
            # inputs and output of different length
            bad_obs = [(obs, k + 1), (obs, k - 1), ([[] for _ in range(n)], 1), (obs + [obs[0] if n else [1]], k), (obs[:-1], k)] if n else [([], 1), ([[1]], 1)]
            if n:
                for d in sorted({0, n - 1, r.randrange(n)}):
                    o2 = [list(x) for x in obs]
                    o2[d] = o2[d] + [1]
                    bad_obs.append((o2, k))
                    o2 = [list(x) for x in obs]
                    o2[d] = o2[d][:-1]
                    bad_obs.append((o2, k))
            bad_obs.append(([], 0))
            for o2, no in bad_obs:
                call_all(ok, o2, no)
                h = None
            # malformed problems
            muts = [("vals", -1), ("vals", 1), ("vals", None)]
            if g == "regular":
                muts += [(f, c) for f in ("starts", "steps", "dims") for c in (-1, 1)]
                muts += [("step", v) for v in (0, -1, "nan", "-1/2")]
            else:
                muts += [("flatgrid", 0), ("descgrid", 0), ("grids", -1), ("grids", 1), ("nangrid", 0)]
            muts += [("short", v) for v in range(0, lo)]
            for what, v in muts:
                for d in (sorted({0, n - 1, r.randrange(n)}) if what in ("step", "short", "flatgrid", "descgrid", "nangrid") and n else [0]):
                    D, ST, SP, G, VA = list(dims), list(starts), list(steps), [dict(x, v=list(x["v"])) for x in grids], vals
                    if n == 0 and what not in ("vals", "starts", "steps"):
                        continue
                    if what == "vals":
                        cnt = {-1: nv - 1, 1: nv + 1, None: 0}[v]
                        VA = lcg(r, cnt, 101)
                    elif what in ("starts", "steps", "dims"):
                        L = {"starts": ST, "steps": SP, "dims": D}[what]
                        L.append(lo) if v > 0 else L and L.pop()
                        if what == "dims":
                            VA = lcg(r, prod(D), 101)
                    elif what == "step":
                        SP[d] = v
                    elif what == "short":
                        D[d] = v
                        G[d]["v"] = G[d]["v"][:v]
                        VA = lcg(r, prod(D), 101)
                    elif what == "flatgrid":
                        G[d]["v"][1] = G[d]["v"][0]
                    elif what == "descgrid":
                        G[d]["v"][1] = G[d]["v"][0] - 1
                    elif what == "nangrid":
                        G[d]["v"][r.choice([0, 1])] = "nan"
                    elif what == "grids":
                        if v > 0:
                            G.append({"k": "list", "v": list(range(lo))})
                        else:
                            G.pop()
                    p = s.prob(raw_problem(m, g, D, ST, SP, G, VA, lin))
                    call_all(p, obs, k)
            yield s
        # number of points not representable
        s = Session(f"C14-huge-{m}-{g}-{'lin' if lin else 'nat'}", "rat", chk)
        if g == "regular":
            for D in ([str(2**63), 4], [str(2**32), str(2**32)], [str(2**62), 4, 8], [4, str(2**63)], [str(2**64 - 1), 5]):
                p = s.prob(raw_problem(m, g, D, [0] * len(D), [1] * len(D), [], vlist([]), lin))
                s.new(p, "flat", len(D))
                if m != "nearest":
                    s.new(p, "rec", len(D))
                    s.new(p, "rec", 8)
                s.ev(o="fn", p=p, a="flat", obs=[[1]] * len(D), n=1, pre=s.PRE)
            yield s
        # bounds checks
        for n in range(0, 9):
            r = rng(seed, "C14", tier, "cb", m, g, lin, n)
            if lin:
                continue
            s = Session(f"C14-cb-{m}-{g}-{n}", "rat", [])
            axes = [rand_axis(r, g, MINN[m]) for _ in range(n)]
            pp = problem(m, g, axes, vlist([]), lin)
            p = s.prob(pp)
            obs = [[1, 2]] * n
            qs = [(p, obs, n), (p, obs, n + 1), (p, obs, max(0, n - 1)), (p, obs + [[1]], n), (p, obs[:-1], n), (p, [[]] * n, n)]
            if n:
                for f in (("starts", "steps", "dims") if g == "regular" else ("grids",)):
                    q = {k: (list(v) if isinstance(v, list) else v) for k, v in pp.items()}
                    q[f] = q[f][:-1]
                    qs.append((s.prob(q), obs, n))
                    q = {k: (list(v) if isinstance(v, list) else v) for k, v in pp.items()}
                    q[f] = q[f] + [q[f][0]]
                    qs.append((s.prob(q), obs, n))
                q = {k: (list(v) if isinstance(v, list) else v) for k, v in pp.items()}
                d = r.randrange(n)
                if g == "regular":
                    q["dims"][d] = 0
                else:
                    q["grids"][d] = {"k": "list", "v": []}
                qs.append((s.prob(q), obs, n))
            for fam in ("flat", "rec") if m != "nearest" else ("flat",):
                for q, o2, no in qs:
                    s.ev(o="cb", p=q, a=fam, obs=o2, n=no, atol=0, pre=False)
            yield s


# ------------------------------------------------------------------ C15
def c15(seed, tier):
    for num in ("rat", "f64", "f32"):
        specials = ["nan", "inf", "-inf"]
        if num != "rat":
            specials += ["max", "min", "1@62", "-1@62", "1@63", "-1@63", "1@64", "-1@64", "1@70", "-1@70", "1@31", "-1@31", "1@32", "1@53",
                         "9223372036854774784", "-9223372036854774784", "tiny", "-0"]
        else:
            specials += [str(2**62), str(-2**62), str(2**63), str(-2**63), str(2**63 - 1), str(-2**63 + 1), str(2**64), str(10**25), str(-10**25)]
        for m, g, lin, n in strata():
            if tier == "quick" and (n > 6 or (m == "cubic" and n > 5)):
                continue
            r = rng(seed, "C15", tier, num, m, g, lin, n)
            s = Session(f"C15-{num}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, ["value"])
            dims = [MINN[m] + r.randint(0, 1) for _ in range(n)] if n <= 4 else [MINN[m]] * n
            axes = [rand_axis(r, g, k) for k in dims]
            if g == "regular":   # easy steps, so that the special coordinates hit the extreme cell numbers
                axes = [aff(a["n"], r.choice([0, a["s"]]), r.choice([1, 1, 2, F(1, 2)])) for a in axes]
            p = s.prob(problem(m, g, axes, rand_vals(r, dims), lin))
            ways = [("flat", n)] * (n <= MAXFLAT[m]) + ([("rec", n)] if m != "nearest" else [])
            good = rand_points(r, s.pr(p), 3)
            for fam, md in ways:
                h = s.new(p, fam, md)
                sp = specials if n <= 2 else r.sample(specials, 5) if tier == "quick" else specials
                for v in sp:
                    d = r.randrange(n)
                    bad = [J(c) for c in r.choice(good)]
                    bad[d] = v
                    if r.random() < .3:
                        bad[r.randrange(n)] = r.choice(specials)
                    s.ev(o="one", h=h, p=p, x=bad)
                    k = r.randrange(4)
                    q = [[J(c) for c in x] for x in good]
                    q.insert(k, bad)
                    s.ev(o="bat", h=h, p=p, obs=[[x[d] for x in q] for d in range(n)], n=len(q), pre=s.PRE)
                    s.bat(h, p, good)        # unaffected afterwards
                q = [[r.choice(specials) for _ in range(n)] for _ in range(3)]
                for x in q:
                    s.ev(o="one", h=h, p=p, x=x)
                if n <= MAXCALL[m]:
                    s.ev(o="fn", p=p, a=fam, obs=[[x[d] for x in [[J(c) for c in good[0]], q[0]]] for d in range(n)], n=2, pre=s.PRE)
            for v in specials:
                s.ev(o="cb", p=p, a=r.choice(["flat", "rec"]) if m != "nearest" else "flat",
                     obs=[[J(good[0][d]), v] for d in range(n)], n=n, atol=0, pre=False)
            yield s
        for g in ("regular", "rectilinear"):
            r = rng(seed, "C15", tier, num, "1d", g)
            s = Session(f"C15-{num}-1d-{g}", num, ["one"])
            ax = aff(5, 0, 1) if g == "regular" else lst([0, 1, 3, 4, 6])
            p = s.prob(problem("linear", g, [ax], vlist([3, -1, 4, 1, -5])))
            s.ev(o="g1", h=1, p=p)
            for k in ("left", "right", "nearest", "linear", "hold"):
                for f in ("eval", "alc", "one"):
                    for v in specials:
                        s.ev(o="i1", h=1, p=p, k=k, f=f, xs=[v], n=1, pre=s.PRE)
                    s.ev(o="i1", h=1, p=p, k=k, f=f, xs=["1/2", "7/2"], n=2, pre=s.PRE)
            for v in specials:
                s.ev(o="at", h=1, p=p, x=v)
            yield s
    yield from stress.special_batches(seed, tier, stress.NUMS, t(tier, 28, 168))
    yield from stress.special_1d(seed, tier, stress.NUMS, t(tier, 12, 100))


# ------------------------------------------------------------------ C16
def c16(seed, tier):
    for num in ("rat", "f64"):
        for m, g, lin in methods():
            if lin:
                continue
            for fam in ("flat", "rec") if m != "nearest" else ("flat",):
                for n in range(1, 9):
                    r = rng(seed, "C16", tier, num, m, g, fam, n)
                    s = Session(f"C16-{num}-{m}-{g}-{fam}-{n}", num, ["bounds"])
                    for rep in range(t(tier, 3, 12)):
                        ns = [r.choice([2, 3, 5, 1, 50]) for _ in range(n)]
                        axes = []
                        for k in ns:
                            if g == "regular":
                                axes.append(aff(k, r.randint(-9, 9), r.choice([1, 2, F(1, 2), F(1, 4)])))
                            else:
                                a = rand_axis(r, g, max(k, 2))
                                axes.append(a if k > 1 else lst(a["v"][:1]))
                        p = s.prob(problem(m, g, axes, vlist([])))
                        for at in (F(0), F(1, 8), F(2)):
                            for kind in ("inside", "below", "above", "mixed", "edge", "many", "empty", "both"):
                                k = {"many": t(tier, 30, 300), "empty": 0}.get(kind, r.randint(1, 4))
                                hit = {r.randrange(n)} if kind in ("below", "above", "both") else \
                                    {d for d in range(n) if r.random() < .5} if kind in ("mixed", "many") else set()
                                obs = []
                                for d in range(n):
                                    lo, hi = coord(axes[d], 0), coord(axes[d], alen(axes[d]) - 1)
                                    q = [lo + (hi - lo) * F(r.randint(1, 7), 8) for _ in range(k)]
                                    if kind == "edge" and k:
                                        q = [r.choice([lo - at + F(1, 64), hi + at - F(1, 64), (lo + hi) / 2, lo - at * F(1, 2), hi + at * F(1, 2)])
                                             for _ in range(k)]
                                    if d in hit and k:
                                        e = r.choice([F(1, 64), F(1), F(100)])
                                        up = kind == "above" or (kind in ("mixed", "many") and r.random() < .5)
                                        q[r.randrange(k)] = hi + at + e if up else lo - at - e
                                        if kind == "both":
                                            q.append(hi + at + e)
                                            q = q[1:] if len(q) > 2 else q
                                    obs.append([J(x) for x in q])
                                s.ev(o="cb", p=p, a=fam, obs=obs, n=n, atol=J(at), pre=r.random() < .5)
                    yield s
    yield from stress.bounds(seed, tier, stress.NUMS, t(tier, 20, 200))


# ------------------------------------------------------------------ C17, C18
def oned(prop, seed, tier, kinds, lookup):
    for num in ("rat", "f64"):
        for g in ("regular", "rectilinear"):
            sizes = [2, 3, 5, 9] + ([1000, 20011] if num == "rat" else [1000])
            for n in sizes:
                for rep in range(t(tier, 4, 20) if n < 100 else t(tier, 1, 3)):
                    r = rng(seed, prop, tier, num, g, n, rep)
                    s = Session(f"{prop}-{num}-{g}-{n}-{rep}", num, ["one"])
                    if n < 100:
                        ax = rand_axis(r, g, n)
                    else:
                        ax = aff(n, r.randint(-9, 9), r.choice([1, F(1, 2)])) if g == "regular" else alt(n, r.randint(-9, 9), 1, r.choice([1, 2, F(1, 2)]))
                    p = s.prob(problem("linear", g, [ax], rand_list(r, n, 50) if n < 100 else lcg(r, n)))
                    s.ev(o="g1", h=1, p=p)
                    cs = coords(ax)
                    pts = []
                    cells = range(n - 1) if n < 100 else [0, 1, n - 3, n - 2] + [r.randrange(n - 1) for _ in range(12)]
                    for i in cells:
                        w = cs[i + 1] - cs[i]
                        pts += [cs[i] + w * f for f in (F(1, 4), F(1, 2), F(3, 4), F(1, 64), F(63, 64))] + [cs[i]]
                    w0, w1 = cs[1] - cs[0], cs[-1] - cs[-2]
                    pts += [cs[-1]] + [cs[0] - w0 * f for f in (F(1, 64), F(1, 2), F(1), F(9, 4), F(50))] + \
                        [cs[-1] + w1 * f for f in (F(1, 64), F(1, 2), F(1), F(9, 4), F(50))]
                    if num == "f64" and prop == "C17":
                        pts += [F(2**55), -F(2**55)]
                    r.shuffle(pts)
                    for k in kinds:
                        for f in ("eval", "alc", "one"):
                            q = pts if f == "eval" else r.sample(pts, min(len(pts), 12))
                            s.ev(o="i1", h=1, p=p, k=k, f=f, xs=[J(x) for x in q], n=len(q), pre=s.PRE)
                        s.ev(o="i1", h=1, p=p, k=k, f="eval", xs=[], n=0, pre=0)
                    if lookup:
                        for x in pts[:60]:
                            s.ev(o="at", h=1, p=p, x=J(x))
                        for k in kinds:
                            for a, b in ((2, 1), (1, 2), (0, 1), (1, 0), (3, 4)):
                                s.ev(o="i1", h=1, p=p, k=k, f="eval", xs=[J(x) for x in (pts * 2)[:a]], n=b, pre=s.PRE)
                    yield s
    if lookup:
        s = Session(f"{prop}-short", "rat", [])
        h = 0
        for n in range(0, 4):
            for g in ("regular", "rectilinear"):
                for k in range(0, 4) if g == "rectilinear" else [n]:
                    p = {"m": "linear", "g": g, "lin": False, "vals": vlist(list(range(k))), "starts": [0], "steps": [1], "dims": [k],
                         "grids": [{"k": "list", "v": list(range(n))}], "_axes": [0]}
                    h += 1
                    s.ev(o="g1", h=h, p=s.prob(p))
        yield s


def c17(seed, tier):
    yield from oned("C17", seed, tier, ["left", "right", "nearest"], False)
    yield from stress.oned_stress("C17", seed, tier, stress.NUMS, ["left", "right", "nearest"], t(tier, 25, 250), False)
    yield from stress.same_memory_1d("C17", seed, tier, stress.NUMS, ["left", "right", "nearest"], t(tier, 12, 120), False)


def c18(seed, tier):
    yield from oned("C18", seed, tier, ["linear", "hold"], True)
    yield from stress.oned_stress("C18", seed, tier, stress.NUMS, ["linear", "hold"], t(tier, 25, 250), True)
    yield from stress.same_memory_1d("C18", seed, tier, stress.NUMS, ["linear", "hold"], t(tier, 12, 120), True)


# ------------------------------------------------------------------ C19
def c19(seed, tier):
    chk = ["noalloc"]
    for num in ("f64", "f32"):
        for m, g, lin, n in strata():
            if num == "f32" and tier == "quick" and n not in (1, 3, 6):
                continue
            r = rng(seed, "C19", tier, num, m, g, lin, n)
            s = Session(f"C19-{num}-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, chk)
            dims = rand_dims(r, m, n)
            p = s.prob(rand_problem(r, m, g, n, lin, dims))
            pts = rand_points(r, s.pr(p), 2 if n >= 7 else 12)
            for e in entries(m, n, r, full=True):
                evaluate(s, p, e, pts if e[0] != "one" else pts[:2])
            # errors
            bad = [["nan"] * n]
            obs = [["nan", 1] for _ in range(n)]
            for fam in ("flat", "rec") if m != "nearest" else ("flat",):
                s.ev(o="fn", p=p, a=fam, obs=obs, n=2, pre=0)
                s.ev(o="fn", p=p, a=fam, obs=obs, n=3, pre=0)
                s.ev(o="fn", p=p, a=fam, obs=obs[:-1], n=2, pre=0)
                s.ev(o="cb", p=p, a=fam, obs=obs, n=n, atol=0, pre=False)
                s.ev(o="cb", p=p, a=fam, obs=[[0] * 40] * n, n=n, atol=1, pre=False)
                s.ev(o="cb", p=p, a=fam, obs=obs, n=n + 1, atol=0, pre=False)
                if m != "nearest":
                    s.new(p, "rec", 1 if n > 1 else 2)
            q = dict(s.pr(p))
            q["vals"] = vlist([])
            q = s.prob(q)
            if n <= MAXFLAT[m]:
                s.new(q, "flat", n)
            if m != "nearest":
                s.new(q, "rec", n)
            # many points
            if n <= 3:
                big = rand_points(r, s.pr(p), 30)
                h = s.new(p, "flat", n)
                s.bat(h, p, [big[j % 30] for j in range(t(tier, 300, 3000))])
            yield s
        for g in ("regular", "rectilinear"):
            s = Session(f"C19-{num}-1d-{g}", num, chk)
            for n in (2, 100, 5000):
                p = s.prob(problem("linear", g, [aff(n, 0, 1)], {"k": "lcg", "n": n, "a": 3, "b": 5, "c": 1, "p": 101, "off": 50}))
                s.ev(o="g1", h=n, p=p)
                for k in ("left", "right", "nearest", "linear", "hold"):
                    for f in ("eval", "alc", "one"):
                        s.ev(o="i1", h=n, p=p, k=k, f=f, xs=["1/2", -3, 7, 1] * 5, n=20, pre=0)
                    s.ev(o="i1", h=n, p=p, k=k, f="eval", xs=[1, 2], n=1, pre=0)
                    s.ev(o="i1", h=n, p=p, k=k, f="eval", xs=["nan"], n=1, pre=0)
                s.ev(o="at", h=n, p=p, x="1/2")
                s.ev(o="at", h=n, p=p, x="nan")
            yield s
    # large problems, every method
    for s in large_sessions("C19", seed, tier, ("linear", "cubic", "nearest"), chk, "f64"):
        yield s
    yield from stress.stress_noalloc(seed, tier, ("f64", "f32"), t(tier, 28, 224))


# ------------------------------------------------------------------ C20
def c20(seed, tier):
    chk = ["value"]
    for num in ("f64", "f32", "f64+fma", "f32+fma", "rat+fma"):
        q = tier == "quick"
        yield from value_sessions("C20-" + num, seed, tier, ("linear", "cubic", "nearest"), chk, num, k=6 if q else 16,
                                  maxn=(6 if q else 8), reps=1 if q else 3)
        yield from offset_sessions(num, seed, tier, chk)
        if num != "rat+fma" or not q:
            yield from large_sessions("C20-" + num, seed, tier, ("linear", "cubic", "nearest"), chk, num)
        yield from stress.stress_values("C20", seed, tier, ("linear", "cubic", "nearest"), chk, [num], t(tier, 15, 150))


def offset_sessions(num, seed, tier, chk):
    """Grids far away from the origin, tiny and huge steps, non-dyadic data."""
    for m, g, lin in methods():
        for n in (1, 2, 3):
            r = rng(seed, "C20", tier, num, "offset", m, g, lin, n)
            s = Session(f"C20-{num}-offset-{m}-{g}-{'lin' if lin else 'nat'}-{n}", num, chk)
            for rep in range(t(tier, 2, 6)):
                dims = [MINN[m] + r.randint(0, 3) for _ in range(n)]
                axes = []
                for d in dims:
                    st = r.choice([F(0), F(1000), F(-100000), F(1, 3), F(10**6)])
                    h = r.choice([F(1), F(1, 3), F(1, 10), F(1, 1024), F(1000), F(7, 5)])
                    if num.startswith("f32") and abs(st) > 2000 * h:
                        st = 100 * h
                    a = aff(d, st, h)
                    axes.append(a if g == "regular" else lst([x + h * F(r.randint(-2, 2), 9) for x in coords(a)]))
                v = [F(r.randint(-10**6, 10**6), r.choice([1, 7, 1000, 3])) for _ in range(prod(dims))]
                p = s.prob(problem(m, g, axes, vlist(v), lin))
                pts = rand_points(r, s.pr(p), 8)
                for e in entries(m, n, r):
                    if e[0] != "alc":
                        evaluate(s, p, e, pts if e[0] != "one" else pts[:2])
            yield s


# ------------------------------------------------------------------ C26
def c26(seed, tier):
    for num in ("rat", "f64", "f32"):
        r = rng(seed, "C26", tier, num)
        s = Session(f"C26-lin-{num}", num, ["value"])
        for n in [0, 1, 2, 3, 4, 5, 7, 10, 33, 100] + ([1000] if num == "rat" else []):
            for a, b in [(0, 1), (1, 0), (-3, 7), (F(1, 2), F(5, 2)), (5, 5), (1000, 1001), (-7, -2)]:
                s.ev(o="linspace", x=J(a), y=J(b), n=n)
        yield s
        # ends that are not dyadic, far from zero, or so close together that points coincide
        import stress
        s = Session(f"C26-lin-st-{num}", num, ["value"])
        base = num.split("+")[0]
        for j in range(t(tier, 60, 1000)):
            a = r.choice([F(0), F(r.randint(-99, 99), r.choice([1, 7, 10, 3])), F(r.choice([-1, 1]) * r.choice([1000, 10**6, 2**20]))])
            w = r.choice([F(1), F(1, 10), F(7, 3), F(1000), F(1, 1000), F(1, 2**10), F(1, 2**20), F(1, 2**40), F(2)**30])
            if base != "rat" and j % 3 == 0:
                a = stress.rf(r.choice([F(1), F(1000), F(-10**6), F(1, 3), F(-7, 10)]), num)
                w = abs(a) * F(r.randint(0, 40), 2**(52 if base == "f64" else 23))
            b = stress.rf(a + r.choice([-1, 1]) * w, num)
            a = stress.rf(a, num)
            s.ev(o="linspace", x=J(a), y=J(b), n=r.choice([2, 3, 4, 5, 6, 7, 9, 11, 16, 17, 49, 64, 65, 100, 101, 255, 256, 257]))
        if num != "f32":
            s.ev(o="linspace", x=J(F(1, 8)), y=J(F(7)), n=66000)
        yield s
        for shape in ([], [0], [2, 0, 3], [1], [3], [2, 3], [3, 2], [2, 3, 4], [4, 1, 2], [2, 2, 2, 2], [3, 5, 2, 4], [2] * 6, [2, 3, 2, 3, 2, 2], [2] * 8, [1, 1, 1]):
            s = Session(f"C26-mesh-{num}-{'x'.join(map(str, shape))}", num, ["value"])
            for rep in range(2):
                gs = [coords(rand_axis(r, "rectilinear", k)) for k in shape]
                s.ev(o="mesh", grids=[[J(x) for x in g] for g in gs])
                # data generated from the mesh, read back at its own coordinates
                n = len(shape)
                for m in ("linear", "cubic", "nearest"):
                    if not n or min(shape) < MINN[m] or n > MAXCALL[m]:
                        continue
                    pts = list(product(*gs))
                    vals = [r.randint(-99, 99) for _ in pts]
                    p = s.prob(problem(m, "rectilinear", [lst(x) for x in gs], vlist(vals)))
                    q = pts if len(pts) <= 70 else r.sample(pts, 70)
                    s.fn(p, "flat", q)
            yield s
        if num == "rat":
            for m in ("linear", "cubic", "nearest"):
                shape = [5, 4, 6]
                gs = [coords(rand_axis(r, "rectilinear", k)) for k in shape]
                s = Session(f"C26-read-{m}", num, ["value"])
                s.ev(o="mesh", grids=[[J(x) for x in g] for g in gs])
                p = s.prob(problem(m, "rectilinear", [lst(x) for x in gs], rand_list(r, 120)))
                s.fn(p, "flat", list(product(*gs)))
                yield s
