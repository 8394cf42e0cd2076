"""Scenarios for the Python package (see spec/PyLib.tla)."""
import json
import random
from fractions import Fraction as F
import stress
from gen import J, MAXCALL, MINN, coords, methods, prod, rand_axis, rand_coord, rand_dims, rand_points, rand_problem

INS = ["node", "first", "last", "in", "mid", "firstnode", "lastnode"]


def rng(seed, *k):
    return random.Random("/".join(map(str, (seed,) + k)))


def t(tier, quick, thorough):
    return thorough if tier == "thorough" else quick


def other(dt):
    return "f32" if dt == "f64" else "f64"


RET = 10**6          # names of returned arrays and their memory


class Py:
    def __init__(self, sid):
        self.d = {"sid": sid, "num": "py", "p": [], "ev": [], "rel": []}
        self.nb = self.na = self.nh = self.nd = 0
        self.info = {}

    def ev(self, **e):
        self.d["ev"].append(e)
        return len(self.d["ev"])

    def same_state(self, e, h):
        """Object h is in the state that was read in event e, to the bit."""
        self.d["rel"].append({"k": "state", "e1": e, "e2": self.ev(o="cstate", h=h)})

    def result(self, e):
        """The array evaluation e returned."""
        return RET + e

    def json(self):
        for i, e in enumerate(self.d["ev"]):
            if e["o"] in ("ceval", "help") and not e["out"]:
                e["ret"] = RET + i + 1
        return json.dumps(self.d, separators=(",", ":"))

    def buf(self, v, dt):
        self.nb += 1
        self.ev(o="buf", b=self.nb, dt=dt, v=[J(x) for x in v])
        return self.nb

    def view(self, b, off, shape, strides, ro=False):
        self.na += 1
        self.ev(o="arr", a=self.na, b=b, off=off, shape=list(shape), strides=list(strides), ro=ro)
        self.info[self.na] = (b, off, list(shape), list(strides))
        return self.na

    def a(self, v, dt, lay="C", shape=None, ro=False, r=None):
        """An array with content v (C order)."""
        v = list(v)
        n = len(v)
        shape = [n] if shape is None else list(shape)
        cs, k = [], 1
        for d in reversed(shape):
            cs.insert(0, k)
            k *= d
        pad = [77] * 3
        if lay == "C" or n == 0:
            return self.view(self.buf(v, dt), 0, shape, cs, ro)
        if lay == "off":
            return self.view(self.buf(pad + v + pad, dt), 3, shape, cs, ro)
        if lay == "strided":
            w = []
            for x in v:
                w += [x, 55]
            return self.view(self.buf(pad + w, dt), 3, shape, [2 * c for c in cs], ro)
        if lay == "rev":
            return self.view(self.buf(v[::-1], dt), n - 1, shape, [-c for c in cs], ro)
        if lay == "F":
            fs, k = [], 1
            for d in shape:
                fs.append(k)
                k *= d
            w = [0] * n
            for i, x in enumerate(v):
                j, rem = 0, i
                for d in range(len(shape)):
                    q, rem = divmod(rem, cs[d])
                    j += q * fs[d]
                w[j] = x
            return self.view(self.buf(w, dt), 0, shape, fs, ro)
        raise ValueError(lay)

    def poke(self, a, k, v):
        b, off, shape, strides = self.info[a]
        i = 0
        for d in range(len(shape) - 1, -1, -1):
            i += (k % shape[d]) * strides[d]
            k //= shape[d]
        self.ev(o="poke", b=b, i=off + i, v=J(v))

    # ---- problems as arrays
    def arrays(self, p, dt, lays=("C",), r=None, valshape=False, shape=None):
        L = (lambda: r.choice(lays)) if r else (lambda: "C")
        m = {"m": p["m"], "g": p["g"], "lin": p["lin"], "dims": p.get("dims", []), "starts": 0, "steps": 0, "grids": []}
        if p["g"] == "regular":
            m["starts"] = self.a(p["starts"], dt, L())
            m["steps"] = self.a(p["steps"], dt, L())
        else:
            m["grids"] = [self.a(["-0" if c == 0 and x.get("neg") else c for c in coords(x)], dt, L()) for x in p["_axes"]]
        m["vals"] = self.a(p["vals"]["v"], dt, L(), shape=[len(coords(x)) for x in p["_axes"]] if valshape else None)
        return m

    def obs(self, pts, n, dt, lays=("C",), r=None, shape=None):
        L = (lambda: r.choice(lays)) if r else (lambda: "C")
        return [self.a([x[d] for x in pts], dt, L(), shape=shape) for d in range(n)]

    def raw(self, m, dt, obs, out, f=None, atol=0, drop=0, npdims=False, **k):
        e = dict(o="raw", f=f or m["m"], g=m["g"], dt=dt, dims=m["dims"], starts=m["starts"], steps=m["steps"], grids=m["grids"],
                 vals=m["vals"], lin=m["lin"], obs=obs, out=out, atol=J(atol), drop=drop, npdims=npdims)
        e.update(k)
        return self.ev(**e)

    def cnew(self, m, via="new", types=None, dt="f64", **k):
        self.nh += 1
        na = 3 if m["g"] == "regular" else len(m["grids"]) + 1
        e = dict(o="cnew", h=self.nh, m=m["m"], g=m["g"], via=via, dims=m["dims"], starts=m["starts"], steps=m["steps"],
                 grids=m["grids"], vals=m["vals"], lin=m["lin"], types=types or [dt] * na)
        e.update(k)
        self.ev(**e)
        return self.nh

    def ceval(self, h, obs, out=0, unchecked=False):
        return self.ev(o="ceval", h=h, obs=obs, out=out, unchecked=unchecked)


def rlist(r, m, g, n, lin=False, dims=None):
    return rand_problem(r, m, g, n, lin, dims or small_dims(r, m, n), "list")


def small_dims(r, m, n):
    d = rand_dims(r, m, n)
    if n >= 5:
        d = [MINN[m]] * n
        d[r.randrange(n)] += 1
    return d


# ------------------------------------------------------------------ C21
def c21(seed, tier):
    for m, g, lin in methods():
        for dt in ("f64", "f32"):
            for n in range(1, MAXCALL[m] + 1):
                if m == "cubic" and n > t(tier, 6, 7):
                    continue
                r = rng(seed, "C21", tier, m, g, lin, dt, n)
                s = Py(f"C21-{m}-{g}-{'lin' if lin else 'nat'}-{dt}-{n}")
                p = rlist(r, m, g, n, lin)
                a = s.arrays(p, dt, ("C", "off"), r)
                big = n >= 5
                for rep in range(1 if big else t(tier, 3, 8)):
                    k = r.randint(1, 3) if big else r.choice([0, 1, 2, 7, 19])
                    pts = rand_points(r, p, k)
                    obs = s.obs(pts, n, dt, ("C", "off"), r)
                    out = s.a([r.randint(-99, 99) for _ in range(k)], dt, r.choice(["C", "off"]))
                    s.raw(a, dt, obs, out, npdims=r.random() < .5)
                    if k and not big:
                        # other data in the same arrays, then the first call again
                        j = r.randrange(len(p["vals"]["v"]))
                        s.poke(a["vals"], j, r.randint(-50, 50))
                        s.raw(a, dt, obs, out)
                        s.poke(obs[r.randrange(n)], r.randrange(k), rand_coord(r, p["_axes"][0]))
                        s.raw(a, dt, obs, out)
                    at = r.choice([F(0), F(1, 4), F(3)])
                    flags = s.a([r.randint(0, 1) for _ in range(n)], "bool")
                    s.raw(a, dt, obs, flags, f="cb", atol=at)
                    ins = s.obs(rand_points(r, p, 3, INS), n, dt)
                    s.raw(a, dt, ins, flags, f="cb", atol=at + F(1, 8))
                    d = r.randrange(n)
                    s.poke(ins[d], r.randrange(3), r.choice([-1, 1]) * 1000)
                    s.raw(a, dt, ins, flags, f="cb", atol=at)
                yield s
        # the two data types and several problems alternating on one interpreter
        r = rng(seed, "C21", tier, m, g, lin, "mix")
        s = Py(f"C21-mix-{m}-{g}-{'lin' if lin else 'nat'}")
        probs = []
        for dt in ("f64", "f32"):
            for n in (1, 2, 3):
                p = rlist(r, m, g, n, lin)
                a = s.arrays(p, dt)
                pts = rand_points(r, p, 5)
                probs.append((p, a, dt, s.obs(pts, n, dt), s.a([0] * 5, dt)))
        for _ in range(t(tier, 14, 60)):
            p, a, dt, obs, out = r.choice(probs)
            s.raw(a, dt, obs, out)
            if r.random() < .3:
                s.poke(a["vals"], r.randrange(len(p["vals"]["v"])), r.randint(-9, 9))
        yield s
    yield from stress_raw(seed, tier, t(tier, 40, 400))
    yield from stress_flags(seed, tier, t(tier, 32, 300))


# ------------------------------------------------------------------ C25
def c25(seed, tier):
    for m, g, lin in methods():
        for dt in ("f64", "f32"):
            for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
                r = rng(seed, "C25", tier, m, g, lin, dt, n)
                s = Py(f"C25-{m}-{g}-{'lin' if lin else 'nat'}-{dt}-{n}")
                p = rlist(r, m, g, n, lin)
                k = 3
                pts = rand_points(r, p, k)
                a = s.arrays(p, dt)
                obs = s.obs(pts, n, dt)
                out = s.a([5, 6, 7], dt)
                flags = s.a([1, 0] * n, "bool", shape=[2 * n])
                fl = s.view(s.info[flags][0], 0, [n], [1])
                s.raw(a, dt, obs, out)

                def both(b, o, kk=None, f=True):
                    """The evaluation and the bounds check with these arguments."""
                    s.raw(b, dt, o, out)
                    if f:
                        s.raw(b, dt, o, fl, f="cb")

                def variants(v):
                    """Wrong kinds of an array with content v, and read-only (which is fine)."""
                    v = list(v)
                    w = [x if isinstance(x, (int, F)) else x for x in v]
                    i = [r.randint(1, 9) for _ in v]
                    yield s.a(w, other(dt))
                    yield s.a(i, "i64")
                    yield s.a(i, "list")
                    yield s.a([1] * len(v), "bool")
                    yield s.a(w, "f16" if all(isinstance(x, int) for x in w) else "c128")
                    yield s.a(w, dt, "strided")
                    yield s.a(w, dt, "rev")
                    yield s.a(w, dt, shape=[1, len(v)])
                    yield s.a(w, dt, shape=[len(v), 1])
                    yield s.a(w, dt, ro=True)
                    yield s.a(w + w[-1:], dt)
                    yield s.a(w[:-1], dt)
                    yield s.a([], dt)
                names = ["starts", "steps", "vals"] if g == "regular" else ["vals"]
                for nm in names:
                    v = p["vals"]["v"] if nm == "vals" else p[nm]
                    for x in variants(v):
                        both({**a, nm: x}, obs, f=nm != "vals")
                if g == "rectilinear":
                    d = r.randrange(n)
                    for x in variants(coords(p["_axes"][d])):
                        both({**a, "grids": a["grids"][:d] + [x] + a["grids"][d + 1:]}, obs)
                    gg = a["grids"]
                    for z in ([], gg + gg[:1], gg[:-1], gg * 3, gg * 9, [gg[0]] * 8, [gg[0]] * 9):
                        both({**a, "grids": z}, obs)
                else:
                    for z in ([], a["dims"] + [2], a["dims"][:-1], [-x for x in a["dims"]], a["dims"][:-1] + [-1], a["dims"][:-1] + [0],
                              [4] * 9, a["dims"][:-1] + [str(2**64)], a["dims"][:-1] + [str(2**63)], a["dims"][:-1] + [str(2**62)], [x + 1 for x in a["dims"]]):
                        both({**a, "dims": z}, obs)
                d = r.randrange(n)
                for x in variants([q[d] for q in pts]):
                    both(a, obs[:d] + [x] + obs[d + 1:])
                for z in ([], obs + obs[:1], obs[:-1], obs * 9, [obs[0]] * 8, [obs[0]] * 9):
                    both(a, z)
                # outputs
                for x in list(variants([4, 5, 6])):
                    s.raw(a, dt, obs, x)
                ob = s.a([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13][: 3 + 3 * n + 2], dt)
                bb = s.info[ob][0]
                iv = s.view(bb, 0, [3], [1])
                for off in (0, 1, 2, 3, 4):      # from shared to adjacent memory
                    s.raw(a, dt, obs[:-1] + [iv], s.view(bb, off, [3], [1]))
                s.raw(a, dt, obs, obs[r.randrange(n)])
                vb = s.info[a["vals"]][0]
                nv = len(p["vals"]["v"])
                if nv >= 3:
                    s.raw(a, dt, obs, s.view(vb, nv - 3, [3], [1]))
                if g == "rectilinear":
                    s.raw(a, dt, obs, s.view(s.info[a["grids"][0]][0], 0, [2], [1]))
                    s.raw(a, dt, [s.view(s.info[o][0], 0, [2], [1]) for o in obs], s.view(s.info[a["grids"][0]][0], 0, [2], [1]))
                # flags
                for x in (s.a([0] * n, dt), s.a([0] * n, "i64"), s.a([0] * (n + 1), "bool"), s.a([0] * max(0, n - 1), "bool"), s.a([1] * n, "bool", "strided"),
                          s.a([1] * n, "bool", ro=True), s.a([1] * n, "bool", shape=[1, n]), s.a([0] * n, "list")):
                    s.raw(a, dt, obs, x, f="cb")
                for drop in (1, 2, 3):
                    s.raw(a, dt, obs, out, drop=drop)
                    s.raw(a, dt, obs, fl, f="cb", drop=drop)
                # non-finite coordinates
                for v in ("nan", "inf", "-inf"):
                    z = list(obs)
                    z[d] = s.a([pts[0][d], v, pts[2][d]], dt)
                    both(a, z)
                s.raw(a, dt, obs, out)           # still fine
                yield s
    yield from stress_refused(seed, tier, t(tier, 30, 300))


# ------------------------------------------------------------------ C22
LAYS = ["C", "C", "off", "strided", "rev", "F"]


def helper(s, p, a, dt, obs, out=0, **k):
    e = dict(o="help", grids=a["grids"], vals=a["vals"], obs=obs, out=out, method=p["m"], lin=p["lin"], assume=False, check=False,
             atol=J(F(1, 2**26)))
    e.update(k)
    return s.ev(**e)


def c22(seed, tier):
    for m, g, lin in methods():
        for dt in ("f64", "f32"):
            for n in range(1, MAXCALL[m] + 1):
                if m == "cubic" and n > t(tier, 5, 7):
                    continue
                r = rng(seed, "C22", tier, m, g, lin, dt, n)
                s = Py(f"C22-{m}-{g}-{'lin' if lin else 'nat'}-{dt}-{n}")
                for rep in range(1 if n >= 5 else t(tier, 4, 10)):
                    p = rlist(r, m, g, n, lin)
                    if g == "rectilinear" and r.random() < .4:
                        # even except on one axis, or except for one late node
                        ax = [{"k": "list", "v": [F(i) for i in range(len(coords(x)))]} for x in p["_axes"]]
                        d = r.randrange(n)
                        ax[d]["v"][-1] += F(1, 2)
                        p["_axes"] = ax
                    gridshape = r.random() < .3
                    a = {"grids": [s.a(coords(x), dt, r.choice(LAYS), shape=[1, len(coords(x)), 1] if gridshape else None) for x in p["_axes"]]}
                    dims = [len(coords(x)) for x in p["_axes"]]
                    vshape = r.choice([dims, [prod(dims)], dims + [1]])
                    a["vals"] = s.a(p["vals"]["v"], dt, r.choice(LAYS), shape=vshape)
                    shape = r.choice([[], [1], [5], [2, 3], [3, 2], [2, 1, 2], [0], [2, 2, 2]]) if n < 5 else r.choice([[2], [1, 3]])
                    k = prod(shape)
                    pts = rand_points(r, p, k)
                    obs = s.obs(pts, n, dt, LAYS, r, shape)
                    helper(s, p, a, dt, obs)
                    out = s.a([9] * k, dt, r.choice(LAYS), shape=shape)
                    helper(s, p, a, dt, obs, out)
                    helper(s, p, a, dt, obs, assume=r.random() < .5, omit=["check_bounds", "bounds_atol"])
                    helper(s, p, a, dt, obs, out, assume=True)
                    helper(s, p, a, dt, obs, check=True)
                    inside = s.obs(rand_points(r, p, k, INS), n, dt, LAYS, r, shape)
                    helper(s, p, a, dt, inside, r.choice([0, out]), check=True)
                    if k:
                        # a single violation, on one axis, by more or less than the tolerance
                        d, j = r.randrange(n), r.randrange(k)
                        lo, hi = coords(p["_axes"][d])[0], coords(p["_axes"][d])[-1]
                        for at, e in ((F(1), F(1, 2)), (F(1), F(3, 2)), (F(0), F(1, 8))):
                            s.poke(inside[d], j, r.choice([lo - e, hi + e]))
                            helper(s, p, a, dt, inside, r.choice([0, out]), check=True, atol=J(at), assume=r.random() < .3)
                            helper(s, p, a, dt, inside, r.choice([0, out]), check=False, atol=J(at))
                    # uneven axes treated as even when the caller says so
                    # inputs of another type, size, or number
                    helper(s, p, a, dt, obs, out=0, method=r.choice(["spline", "Linear", "", "quadratic"]))
                    if rep == 0:
                        helper(s, p, a, dt, obs[:-1] + [s.a([1] * k, other(dt), shape=shape)])
                        helper(s, p, {**a, "vals": s.a([1] * prod(dims), r.choice(["i64", "f16", "bool", "i32"]), shape=dims)}, dt, obs)
                        helper(s, p, {**a, "vals": s.a([1] * prod(dims), other(dt), shape=dims)}, dt, obs)
                        helper(s, p, {**a, "vals": s.a([1] * (prod(dims) - 1), dt)}, dt, obs)
                        helper(s, p, {**a, "grids": a["grids"][:-1] + [s.a([0, 1, 2, 3, 4], other(dt))]}, dt, obs)
                        helper(s, p, {**a, "grids": a["grids"] + a["grids"][:1]}, dt, obs)
                        helper(s, p, a, dt, obs + obs[:1])
                        helper(s, p, a, dt, obs[:-1])
                        helper(s, p, a, dt, obs, s.a([1] * (k + 1), dt))
                        helper(s, p, a, dt, obs, s.a([1] * k, other(dt), shape=shape))
                        helper(s, p, a, dt, obs, s.a([1] * k, "i64", shape=shape))
                    helper(s, p, a, dt, obs, out)
                yield s
    yield from stress_help(seed, tier, t(tier, 60, 500))


# ------------------------------------------------------------------ C23
def c23(seed, tier):
    for m, g, lin in methods():
        for dt in ("f64", "f32"):
            for n in range(1, MAXCALL[m] + 1):
                if m == "cubic" and n > t(tier, 5, 7):
                    continue
                r = rng(seed, "C23", tier, m, g, lin, dt, n)
                s = Py(f"C23-{m}-{g}-{'lin' if lin else 'nat'}-{dt}-{n}")
                history(s, r, m, g, lin, dt, n, t(tier, 10, 30) if n < 5 else 4)
                yield s
            r = rng(seed, "C23", tier, m, g, lin, dt, "bad")
            s = Py(f"C23-bad-{m}-{g}-{'lin' if lin else 'nat'}-{dt}")
            for n in (1, 2, 3):
                malformed(s, r, rlist(r, m, g, n, lin), dt)
            yield s
    # too many dimensions
    for m, g, lin in methods():
        if lin:
            continue
        s = Py(f"C23-many-{m}-{g}")
        for n in ([0, 6, 7] if m == "nearest" else [0, 8, 9]) if m != "cubic" else [0, 9]:
            dims = [2] * n if m != "cubic" else ([4] * n if n < 9 else [2] * n)
            mm = {"m": m, "g": g, "lin": False, "dims": dims if g == "regular" else [],
                  "starts": s.a([0] * n, "f64") if g == "regular" else 0, "steps": s.a([1] * n, "f64") if g == "regular" else 0,
                  "grids": [s.a(list(range(d)), "f64") for d in dims] if g == "rectilinear" else [],
                  "vals": s.a([i % 7 for i in range(prod(dims))], "f64")}
            h = s.cnew(mm)
            s.ev(o="cstate", h=h)
            s.cnew(mm, via="ctor")
        yield s
    yield from stress_objects(seed, tier, t(tier, 30, 300))


def history(s, r, m, g, lin, dt, n, steps):
    """A random history over several interpolators, with the arrays they were built from changing."""
    objs = []

    def build():
        p = rlist(r, m, g, n, lin)
        via = r.choice(["new", "new", "ctor"])
        lays = LAYS if via == "new" else ["C", "off", "strided", "rev"]
        a = s.arrays(p, dt, lays if g == "regular" or via == "ctor" else ["C", "off", "strided", "rev"], r, valshape=via == "new" and r.random() < .6)
        if via == "new" and g == "regular" and r.random() < .3:     # cast to the type of the values
            a["starts"] = s.a(p["starts"], other(dt), shape=[n, 1])
        h = s.cnew(a, via=via, dt=dt, deflin=lin and r.random() < .5)
        objs.append((h, p, a))
        return h
    build()
    for _ in range(steps):
        h, p, a = r.choice(objs)
        op = r.choice(["build", "poke", "poke", "eval", "eval", "evalout", "cb", "set", "state", "bad", "again"])
        k = r.choice([1, 4]) if n < 5 else 1
        if op == "build":
            build()
        elif op == "poke":
            for nm in ("vals", "starts", "steps"):
                if a[nm]:
                    z = s.info[a[nm]][2]
                    s.poke(a[nm], r.randrange(prod(z)), r.randint(1, 50))
            if a["grids"]:
                q = r.choice(a["grids"])
                s.poke(q, r.randrange(prod(s.info[q][2])), r.randint(-50, 50))
        elif op in ("eval", "evalout", "again"):
            pts = rand_points(r, p, k)
            obs = s.obs(pts, n, dt, ("C", "off"), r)
            out = s.a([1] * k, dt, r.choice(["C", "off"])) if op == "evalout" else 0
            e1 = s.ceval(h, obs, out, r.random() < .3)
            if not out and r.random() < .5:         # the caller writes to what it was given, or goes on with it
                if r.random() < .5:
                    s.ev(o="poke", b=s.result(e1), i=r.randrange(k), v=J(r.randint(-50, 50)))
                z = s.result(e1)
                s.ceval(h, obs[:-1] + [z] if r.random() < .7 else [z] * n, 0, r.random() < .3)
            if op == "again":
                other_h = r.choice(objs)
                s.ceval(other_h[0], s.obs(rand_points(r, other_h[1], 2), n, dt))
                e2 = s.ceval(h, obs, 0)
                s.d["rel"].append({"k": "id", "e1": e1, "e2": e2})
            s.raw({"m": m, "g": g, "lin": lin, "dims": p.get("dims", []), **snapshot(s, p, dt)}, dt, obs, s.a([0] * k, dt)) if r.random() < .3 else None
        elif op == "cb":
            s.ev(o="ccb", h=h, obs=s.obs(rand_points(r, p, k, r.choice([None, INS])), n, dt, LAYS, r), atol=J(r.choice([F(0), F(1, 4), F(2)])))
        elif op == "set":
            f = (["dims", "starts", "steps", "vals"] if g == "regular" else ["grids", "vals"]) + ["vals.data", "vals.dtype", "new", "del"] + \
                (["linearize_extrapolation"] if m == "cubic" else [])
            s.ev(o="cset", h=h, field=r.choice(f))
        elif op == "state":
            s.ev(o="cstate", h=h)
        elif op == "bad":
            pts = rand_points(r, p, 3)
            obs = s.obs(pts, n, dt)
            w = r.randrange(6)
            if w == 0:
                s.ceval(h, obs[:-1] + [s.a([1, 2, 3], other(dt))])
            elif w == 1:
                s.ceval(h, obs + obs[:1])
            elif w == 2:
                s.ceval(h, obs, s.a([1, 2], dt))
            elif w == 3:
                s.ceval(h, obs[:-1] + [s.a([1, 2, 3], dt, "strided")])
            elif w == 4:
                s.ceval(h, obs, obs[0])
            else:
                s.ev(o="ccb", h=h, obs=obs[:-1] if n > 1 else obs + obs, atol=0)
    for h, p, a in objs:
        s.ev(o="cstate", h=h)
        s.ceval(h, s.obs(rand_points(r, p, 2), n, dt))


def snapshot(s, p, dt):
    a = s.arrays(p, dt)
    return {k: a[k] for k in ("starts", "steps", "grids", "vals")}


def malformed(s, r, p, dt):
    n, g, m = len(p["_axes"]), p["g"], p["m"]
    a = s.arrays(p, dt)
    v = p["vals"]["v"]

    def go(**k):
        b = {**a, **k}
        for via in ("new", "ctor"):
            h = s.cnew(b, via=via, dt=dt)
            s.ev(o="cstate", h=h)
    go()
    go(vals=s.a(v[:-1], dt))
    go(vals=s.a(v + [1], dt))
    go(vals=s.a([], dt))
    d = r.randrange(n)
    lo = MINN[m]
    if g == "regular":
        for nm in ("starts", "steps"):
            go(**{nm: s.a(p[nm] + [1], dt)})
            go(**{nm: s.a(p[nm][:-1], dt)})
            go(**{nm: s.a(p[nm], dt, shape=[1, n])})
            na = s.cnew(a, via="ctor", types=[other(dt) if x == nm else dt for x in ("starts", "steps", "vals")])
            s.ev(o="cstate", h=na)
        for x in (0, -1, "nan", "-inf"):
            q = list(p["steps"])
            q[d] = x
            go(steps=s.a(q, dt))
        for D in (a["dims"] + [1], a["dims"][:-1], [], [-x for x in a["dims"]], a["dims"][:-1] + [0]):
            go(dims=D)
        for k in range(0, lo):
            D = list(a["dims"])
            D[d] = k
            go(dims=D, vals=s.a([1] * prod(D), dt))
        if n == 2:
            go(dims=[a["dims"][1], a["dims"][0]])
            go(dims=[1, prod(a["dims"])])
    else:
        gs = a["grids"]
        c = coords(p["_axes"][d])

        def grid(x, lay="C", **k):
            return gs[:d] + [s.a(x, dt, lay, **k)] + gs[d + 1:]
        go(grids=gs[:-1])
        go(grids=gs + [s.a([0, 1], dt)])
        for j in range(len(c) - 1):
            q = list(c)
            q[j + 1] = q[j]
            go(grids=grid(q))
            q = list(c)
            q[j], q[j + 1] = q[j + 1], q[j]
            go(grids=grid(q))
        q = list(c)
        q[r.randrange(len(c))] = "nan"
        go(grids=grid(q))
        go(grids=grid(c[::-1]))
        go(grids=grid(c, shape=[len(c), 1]))
        go(grids=grid(c, shape=[1, len(c)]))
        for k in range(0, lo):
            D = [len(coords(x)) for x in p["_axes"]]
            D[d] = k
            go(grids=grid(c[:k]), vals=s.a([1] * prod(D), dt))
        ty = [dt] * (n + 1)
        ty[r.randrange(n)] = other(dt)
        h = s.cnew(a, via="ctor", types=ty)
        s.ev(o="cstate", h=h)
    h = s.cnew(a, via="ctor", types=[other(dt) if i == (2 if g == "regular" else n) else dt for i in range(3 if g == "regular" else n + 1)])
    s.ev(o="cstate", h=h)
    h = s.cnew({**a, "vals": s.a(v, dt, shape=[1, len(v)])}, via="ctor", dt=dt)
    s.ev(o="cstate", h=h)


# ------------------------------------------------------------------ C24
HOWS = ["json", "dict", "pyjson", "jsondict", "copy", "mcopy", "pickle"]


def arr(v, dt, form="str"):
    return {"dt": dt, "form": form, "v": [J(0 if x == "-0" else x) for x in v]}


def doc_of(p, dt, **k):
    d = {"junk": False, "text": "", "has": ["dims", "starts", "steps", "vals"] if p["g"] == "regular" else ["grids", "vals"],
         "dims": p.get("dims", []), "starts": arr(p.get("starts", []), dt), "steps": arr(p.get("steps", []), dt),
         "grids": [] if p["g"] == "regular" else [arr(coords(x), dt) for x in p["_axes"]], "vals": arr(p["vals"]["v"], dt), "lin": p["lin"]}
    if p["m"] == "cubic":
        d["has"] = d["has"] + ["linearize_extrapolation"]
    d.update(k)
    return d


def signed_zeros(r, p):
    """Negative zeros among the values and, where there is a zero, on the axes."""
    neg = lambda v: ["-0" if x in (0, "0") and r.random() < .7 else x for x in v]
    v = list(p["vals"]["v"])
    for _ in range(r.choice([0, 1, 2, len(v)])):
        v[r.randrange(len(v))] = "-0"
    p["vals"] = {"k": "list", "v": v}
    if p["g"] == "regular":
        p["starts"] = neg(p["starts"])
    else:
        for x in p["_axes"]:
            if x["k"] == "list":
                x["neg"] = r.random() < .7


def c24(seed, tier):
    for m, g, lin in methods():
        for dt in ("f64", "f32"):
            for n in (1, 2, 3, 4, 6) if m != "cubic" else (1, 2, 3):
                r = rng(seed, "C24", tier, m, g, lin, dt, n)
                s = Py(f"C24-{m}-{g}-{'lin' if lin else 'nat'}-{dt}-{n}")
                p = rlist(r, m, g, n, lin)
                # values that need every digit
                if n <= 3:
                    p["vals"] = {"k": "list", "v": [J(x if r.random() < .3 else F(r.randint(-10**7, 10**7), r.choice([3, 7, 1000, 10**9]))) for x in p["vals"]["v"]]}
                    if g == "regular":
                        p["starts"] = [J(F(r.randint(-9, 9), r.choice([1, 3, 10]))) for _ in range(n)]
                        p["steps"] = [J(F(r.randint(1, 9), r.choice([1, 3, 10]))) for _ in range(n)]
                    elif r.random() < .7:
                        for x in p["_axes"]:
                            x["v"] = [y + F(1, r.choice([3, 7, 10])) for y in x["v"]]
                            x["v"].sort()
                signed_zeros(r, p)
                a = s.arrays(p, dt, ("C", "strided"), r)
                h = s.cnew(a, dt=dt)
                st0 = s.ev(o="cstate", h=h)
                obs = s.obs([[rand_coord(r, x) + F(1, 7) for x in p["_axes"]] for _ in range(4)], n, dt)
                e0 = s.ceval(h, obs)
                hows = HOWS if n <= 2 else r.sample(HOWS, 3)
                for how in hows:
                    s.nd += 1
                    s.ev(o="cdump", h=h, d=s.nd, how=how)
                    s.poke(a["vals"], 0, r.randint(-9, 9))
                    s.nh += 1
                    h2 = s.nh
                    s.ev(o="cload", h=h2, d=s.nd, m=m, g=g)
                    s.same_state(st0, h2)
                    s.d["rel"].append({"k": "id", "e1": e0, "e2": s.ceval(h2, obs)})
                    # second round trip, by another way
                    how2 = r.choice(HOWS)
                    s.nd += 1
                    s.ev(o="cdump", h=h2, d=s.nd, how=how2)
                    s.nh += 1
                    s.ev(o="cload", h=s.nh, d=s.nd, m=m, g=g)
                    s.same_state(st0, s.nh)
                    s.d["rel"].append({"k": "id", "e1": e0, "e2": s.ceval(s.nh, obs)})
                s.ev(o="cstate", h=h)
                # special values
                q = dict(p, vals={"k": "list", "v": list(p["vals"]["v"])})
                for v in ("nan", "inf", "-inf", "1@-140", "1@-1070" if dt == "f64" else "1@-149", str(10**30), F(1, 3)):
                    q["vals"]["v"][r.randrange(len(q["vals"]["v"]))] = v
                h = s.cnew(s.arrays(q, dt), dt=dt)
                st0 = s.ev(o="cstate", h=h)
                for how in ("json", "dict", "pickle"):
                    s.nd += 1
                    s.ev(o="cdump", h=h, d=s.nd, how=how)
                    s.nh += 1
                    s.ev(o="cload", h=s.nh, d=s.nd, m=m, g=g)
                    s.same_state(st0, s.nh)
                yield s
            # other classes, and documents somebody edited
            r = rng(seed, "C24", tier, m, g, lin, dt, "docs")
            s = Py(f"C24-docs-{m}-{g}-{'lin' if lin else 'nat'}-{dt}")
            for n in (1, 2):
                p = rlist(r, m, g, n, lin)
                h = s.cnew(s.arrays(p, dt), dt=dt)
                s.nd += 1
                s.ev(o="cdump", h=h, d=s.nd, how="json")
                src = s.nd
                for m2, g2, l2 in methods():
                    if not l2:
                        s.nh += 1
                        s.ev(o="cload", h=s.nh, d=src, m=m2, g=g2)
                        s.ev(o="cstate", h=s.nh)

                def load(**k):
                    s.nd += 1
                    s.ev(o="doc", d=s.nd, doc=doc_of(p, dt, **k))
                    s.nh += 1
                    s.ev(o="cload", h=s.nh, d=s.nd, m=m, g=g)
                    s.ev(o="cstate", h=s.nh)
                load()
                base = doc_of(p, dt)
                for f in base["has"]:
                    load(has=[x for x in base["has"] if x != f])
                load(has=base["has"] + ["extra"])
                load(has=base["has"] + (["starts"] if g == "rectilinear" else ["grids"]))
                v = p["vals"]["v"]
                for form in ("text", "number", "nested", "none", "words", "cut", "dict", "null"):
                    load(vals=arr(v, dt, form))
                    if g == "regular":
                        load(starts=arr(p["starts"], dt, form))
                        load(steps=arr(p["steps"], dt, form))
                    else:
                        load(grids=base["grids"][:-1] + [{**base["grids"][-1], "form": form}])
                for ty in (other(dt), "none", "float16", "i64", ""):
                    load(vals=arr(v, ty))
                    if g == "regular":
                        load(starts=arr(p["starts"], ty))
                        load(steps=arr(p["steps"], ty))
                    else:
                        load(grids=base["grids"][:-1] + [{**base["grids"][-1], "dt": ty}])
                load(vals=arr(v[:-1], dt))
                load(vals=arr(v + [1], dt))
                load(vals=arr([], dt))
                if g == "regular":
                    for x in (0, -1, "nan"):
                        load(steps=arr(p["steps"][:-1] + [x], dt))
                    for D in ([], base["dims"] + [1], base["dims"][:-1], [-x for x in base["dims"]], [x + 1 for x in base["dims"]]):
                        load(dims=D)
                    load(dims=base["dims"][:-1] + [1], vals=arr([1] * prod(base["dims"][:-1]), dt))
                    load(starts=arr(p["starts"] + [0], dt))
                    load(steps=arr(p["steps"][:-1], dt))
                else:
                    c = coords(p["_axes"][-1])
                    for q in (c[::-1], c[:1] + c[:-1], c[:-1], c + [c[-1] + 1], ["nan"] + c[1:], c[:-1] + c[-2:-1], []):
                        load(grids=base["grids"][:-1] + [arr(q, dt)])
                    load(grids=base["grids"][:-1])
                    load(grids=[])
                    load(grids=base["grids"] + [arr([0, 1], dt)])
            for text in ("", "{", "[]", "null", "3", '"x"', "{}", '{"dims": 1}', "spam"):
                s.nd += 1
                s.ev(o="doc", d=s.nd, doc={"junk": True, "text": text})
                s.nh += 1
                s.ev(o="cload", h=s.nh, d=s.nd, m=m, g=g)
            yield s
    yield from stress_dumps(seed, tier, t(tier, 40, 300))


# ------------------------------------------------------------------ varied problems
CLASSES = [(m, g, lin) for m in ("linear", "cubic", "nearest") for g in ("regular", "rectilinear") for lin in ((False, True) if m == "cubic" else (False,))]


def vary(r, dt, j, cap=1500, maxn=None, style=None, decimal=True):
    """A varied problem of every class in turn."""
    m, g, lin = CLASSES[j % len(CLASSES)]
    hi = min(maxn or 8, MAXCALL[m])
    n = r.choice([n for n in (1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8) if n <= hi])
    return m, g, lin, n, stress.sproblem(r, m, g, n, lin, dt, cap=cap, kind="list", style=style, decimal=decimal)


def both_dt(j):
    return ("f64", "f32")[(j // len(CLASSES)) % 2]


def stress_raw(seed, tier, count):
    for j in range(count):
        r = rng(seed, "C21", tier, "st", j)
        dt = both_dt(j)
        m, g, lin, n, p = vary(r, dt, j, maxn=7)
        if m == "cubic" and n > 6:
            continue
        s = Py(f"C21-st-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{dt}-{n}")
        a = s.arrays(p, dt, ("C", "off"), r)
        outs = {}
        for rep in range(3):
            k = min(stress.length(r, p, 6000), 700)
            pts = stress.sbatch(r, p, k, num=dt)
            obs = s.obs(pts, n, dt, ("C", "off"), r)
            out = outs.get(k) or s.a([r.randint(-99, 99) for _ in range(k)], dt, r.choice(["C", "off"]))
            outs[k] = out
            s.raw(a, dt, obs, out, npdims=r.random() < .5)
            flags = s.a([r.randint(0, 1) for _ in range(n)], "bool")
            s.raw(a, dt, obs, flags, f="cb", atol=r.choice([F(0), F(1, 4), F(3)]))
            # one more point, or one fewer, than the output takes
            if k > 1:
                d = r.randrange(n)
                b, off, shape, strides = s.info[obs[d]]
                s.raw(a, dt, obs[:d] + [s.view(b, off, [k - 1], [1])] + obs[d + 1:], out)
            if r.random() < .4:
                s.poke(a["vals"], r.randrange(len(p["vals"]["v"])), r.randint(-50, 50))
                s.raw(a, dt, obs, out)
        yield s


def stress_flags(seed, tier, count):
    """Bounds checks on axes of every scale, with points a little inside and outside the tolerance."""
    for j in range(count):
        r = rng(seed, "C21", tier, "cb", j)
        dt = both_dt(j)
        m, g, _ = CLASSES[j % len(CLASSES)]
        n = r.choice([1, 1, 2, 3, 5, 8])
        n = min(n, MAXCALL[m])
        s = Py(f"C21-cb-{j}-{m}-{g}-{dt}-{n}")
        for rep in range(4):
            axes = [stress.style_axis(r, g, r.choice([MINN[m], 4, 5, 9, 33]), r.choice(["scale", "scale", "plain", "ratio"]), dt) for _ in range(n)]
            p = {"m": m, "g": g, "lin": False, "_axes": axes, "vals": {"k": "list", "v": [0]}, "dims": [len(coords(x)) for x in axes],
                 "starts": [coords(x)[0] for x in axes], "steps": [coords(x)[1] - coords(x)[0] for x in axes]}
            a = s.arrays(p, dt)
            fl = s.a([r.randint(0, 1) for _ in range(n)], "bool")
            k = r.choice([1, 3, 8, 17, 64, 65])
            for w in range(4):
                d = r.randrange(n)
                c = coords(axes[d])
                at = stress.rf(r.choice([F(0), (c[1] - c[0]) / 64, 3 * (c[1] - c[0]), F(1, 10), (c[1] - c[0]) / 3]), dt)
                o = [[x[0] + (x[-1] - x[0]) * F(r.randint(0, 16), 16) for _ in range(k)] for x in map(coords, axes)]
                if r.random() < .7:
                    e = at * r.choice([F(7, 8), F(9, 8), F(5, 4)]) if at else (c[1] - c[0]) * r.choice([F(1, 64), F(1, 256), F(3)])
                    if r.random() < .5:         # as close to the tolerance as the type resolves
                        e = at + (at + abs(c[0]) + abs(c[-1])) * F(r.choice([-1, 1]), 2**r.choice([20, 30, 40] if dt == "f64" else [10, 16]))
                    o[d][r.randrange(k)] = stress.rf(c[-1] + e if r.random() < .5 else c[0] - e, dt)
                s.raw(a, dt, [s.a(x, dt) for x in o], fl, f="cb", atol=at)
        yield s


def nearly_even(r, dt, n):
    """Evenly spaced but for a small displacement of some node."""
    h = r.choice([F(1), F(1, 2), F(3), F(1, 4)])
    c0 = F(r.randint(-4, 4))
    c = [c0 + h * i for i in range(n)]
    k = r.choice([0, 1, n - 1, n - 2, r.randrange(n)])
    e = r.choice([6, 8, 10, 13, 16, 20, 24, 28] if dt == "f64" else [4, 6, 8, 10])
    how = r.random()
    if how < .6:
        c[k] += h * r.choice([-1, 1]) * F(1, 2**e)
    elif how < .8:                     # the error grows along the axis
        c = [x + h * F(i * i, n * n) * F(1, 2**e) for i, x in enumerate(c)]
    else:                              # two halves with different spacing
        c = [x + (h * (i - k) * F(1, 2**e) if i > k else 0) for i, x in enumerate(c)]
    return {"k": "list", "v": c}


def stress_help(seed, tier, count):
    for j in range(count):
        r = rng(seed, "C22", tier, "st", j)
        dt = both_dt(j)
        m, g, lin, n, p = vary(r, dt, j, cap=1200, maxn=6, style=r.choice(["plain", "ratio", "scale"]), decimal=False)
        if m == "cubic" and n > 5:
            continue
        s = Py(f"C22-st-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{dt}-{n}")
        axes = p["_axes"]
        if r.random() < .5:
            # all axes even but one, which nearly is
            axes = [{"k": "list", "v": [F(i) * r.choice([F(1), F(1, 2)]) for i in range(len(coords(x)))]} for x in axes]
            axes = [{"k": "list", "v": [F(i) for i in range(len(coords(x)))]} for x in axes]
            d = r.randrange(n)
            axes[d] = nearly_even(r, dt, len(coords(axes[d])))
        p["_axes"] = axes
        dims = [len(coords(x)) for x in axes]
        a = {"grids": [s.a(coords(x), dt, r.choice(LAYS)) for x in axes], "vals": s.a(p["vals"]["v"], dt, r.choice(LAYS), shape=dims)}
        for rep in range(2):
            k = min(stress.length(r, p, 4000), 520)
            shape = [k] if r.random() < .5 else r.choice([[k, 1], [1, k], [2, k // 2] if k % 2 == 0 else [k, 1, 1]])
            pts = stress.sbatch(r, p, k, num=dt)
            obs = s.obs(pts, n, dt, LAYS, r, shape)
            out = s.a([9] * k, dt, r.choice(LAYS), shape=shape)
            helper(s, p, a, dt, obs, r.choice([0, out]))
            helper(s, p, a, dt, obs, r.choice([0, out]), check=True, atol=J(r.choice([F(0), F(1), F(1, 2**26)])))
            if r.random() < .5:
                helper(s, p, a, dt, obs, out, omit=r.choice([["linearize_extrapolation"] if lin else ["assume_regular"], ["check_bounds", "bounds_atol"]]))
            inside = s.obs(rand_points(r, p, min(k, 60), INS), n, dt, LAYS, r)
            helper(s, p, a, dt, inside, check=True)
            at = r.choice([F(0), F(1)])
            d, i = r.randrange(n), r.randrange(min(k, 60))
            lo, hi = coords(axes[d])[0], coords(axes[d])[-1]
            w = (hi - lo) / (dims[d] - 1)
            s.poke(inside[d], i, r.choice([lo - at - w / 8, hi + at + w / 8]))
            helper(s, p, a, dt, inside, check=True, atol=J(at))
        yield s


def stress_objects(seed, tier, count):
    for j in range(count):
        r = rng(seed, "C23", tier, "st", j)
        dt = both_dt(j)
        m, g, lin, n, p = vary(r, dt, j, maxn=6)
        if m == "cubic" and n > 5:
            continue
        s = Py(f"C23-st-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{dt}-{n}")
        via = r.choice(["new", "ctor"])
        a = s.arrays(p, dt, ("C", "off", "strided", "rev") if n > 1 else LAYS, r, valshape=via == "new" and r.random() < .6)
        h = s.cnew(a, via=via, dt=dt)
        k = min(stress.length(r, p, 4000), 520)
        pts = stress.sbatch(r, p, k, num=dt)
        obs = s.obs(pts, n, dt, ("C", "off"), r)
        e1 = s.ceval(h, obs, 0, r.random() < .3)
        # other points, the same number of them
        e3 = s.ceval(h, s.obs(stress.sbatch(r, p, k, num=dt), n, dt), 0, r.random() < .5)
        s.ev(o="poke", b=s.result(e3), i=r.randrange(k), v=J(r.randint(-50, 50)))
        # change everything it was built from, in one place and everywhere
        for nm in ("vals", "starts", "steps"):
            if a[nm]:
                z = prod(s.info[a[nm]][2])
                for q in sorted({0, z - 1, r.randrange(z)}):
                    s.poke(a[nm], q, r.randint(1, 50))
        for q in a["grids"]:
            z = prod(s.info[q][2])
            for i in sorted({0, z - 1, r.randrange(z)}):
                s.poke(q, i, r.randint(-500, 500))
        out = s.a([1] * k, dt, r.choice(["C", "off"]))
        e2 = s.ceval(h, obs, out)
        s.d["rel"].append({"k": "id", "e1": e1, "e2": e2})
        # a second object of another problem in between, then parts of the batch
        m2, g2, lin2, n2, p2 = vary(r, dt, r.randrange(99), maxn=3)
        h2 = s.cnew(s.arrays(p2, dt), dt=dt)
        s.ceval(h2, s.obs(stress.sbatch(r, p2, 7, num=dt), n2, dt))
        s.ceval(h, [s.view(*s.info[o][:2], [max(1, k // 2)], [1]) for o in obs])
        s.ev(o="ccb", h=h, obs=obs, atol=J(r.choice([F(0), F(1, 4), F(2)])))
        s.ev(o="ccb", h=h, obs=s.obs(rand_points(r, p, 9, INS), n, dt), atol=J(F(1, 4)))
        s.ev(o="cstate", h=h)
        s.d["rel"].append({"k": "id", "e1": e1, "e2": s.ceval(h, obs, 0, True)})
        s.d["rel"].append({"k": "id", "e1": e1, "e2": s.ceval(h, obs, s.result(e3))})
        yield s


def stress_dumps(seed, tier, count):
    """Serialization of large and awkward data (beyond what numpy prints in full)."""
    for j in range(count):
        r = rng(seed, "C24", tier, "st", j)
        dt = both_dt(j)
        m, g, lin, n, p = vary(r, dt, j, cap=r.choice([300, 1500, 4000]), maxn=5)
        s = Py(f"C24-st-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{dt}-{n}")
        size = len(p["vals"]["v"])

        def awkward():
            w = r.random()
            if w < .4:
                return F(r.randint(-10**7, 10**7), r.choice([3, 7, 1000, 10**9]))
            if w < .6:
                return F(r.getrandbits(53 if dt == "f64" else 24) | 1) * F(2) ** r.randint(-80, 40)
            if w < .65:
                return r.choice(["nan", "inf", "-inf", "1@-140", "1@-1070" if dt == "f64" else "1@-149", "1@120"])
            return r.randint(-99, 99)
        p["vals"] = {"k": "list", "v": [J(awkward()) for _ in range(size)]} if r.random() < .6 else p["vals"]
        if r.random() < .2:             # whole numbers, also beyond the exactly counted
            p["vals"] = {"k": "list", "v": [J(F(r.randint(-9, 9)) * 2 ** r.choice([0, 0, 0, 31, 53, 63, 64, 70, 100])) for _ in range(size)]}
        signed_zeros(r, p)
        fin = all(not isinstance(x, str) or x[-1] not in "nf" for x in p["vals"]["v"])
        a = s.arrays(p, dt, ("C", "strided"), r)
        h = s.cnew(a, dt=dt)
        st0 = s.ev(o="cstate", h=h)
        obs = s.obs(stress.sbatch(r, p, 12, num=dt), n, dt)
        e0 = s.ceval(h, obs) if fin and "@" not in "".join(map(str, p["vals"]["v"])) else 0
        for how in r.sample(HOWS, 3):
            s.nd += 1
            s.ev(o="cdump", h=h, d=s.nd, how=how)
            s.nh += 1
            h2 = s.nh
            s.ev(o="cload", h=h2, d=s.nd, m=m, g=g)
            s.same_state(st0, h2)
            s.nd += 1
            s.ev(o="cdump", h=h2, d=s.nd, how=r.choice(HOWS))
            s.nh += 1
            s.ev(o="cload", h=s.nh, d=s.nd, m=m, g=g)
            s.same_state(st0, s.nh)
            if e0:
                s.d["rel"].append({"k": "id", "e1": e0, "e2": s.ceval(h2, obs)})
                s.d["rel"].append({"k": "id", "e1": e0, "e2": s.ceval(s.nh, obs)})
        yield s


def stress_refused(seed, tier, count):
    """Large well-formed calls with one thing wrong, and the same call put right afterwards."""
    for j in range(count):
        r = rng(seed, "C25", tier, "st", j)
        dt = both_dt(j)
        m, g, lin, n, p = vary(r, dt, j, maxn=6)
        if m == "cubic" and n > 5:
            continue
        s = Py(f"C25-st-{j}-{m}-{g}-{'lin' if lin else 'nat'}-{dt}-{n}")
        k = max(2, min(stress.length(r, p, 4000), 300))
        pts = stress.sbatch(r, p, k, num=dt)
        a, obs = s.arrays(p, dt), s.obs(pts, n, dt)
        out = s.a([r.randint(-9, 9) for _ in range(k)], dt)
        v, d = p["vals"]["v"], r.randrange(n)
        col = [x[d] for x in pts]
        wrong = [
            (obs, s.a([0] * k, other(dt))), (obs, s.a([0] * k, dt, "strided")), (obs, s.a([0] * k, dt, "rev")),
            (obs, s.a([0] * k, dt, ro=True)), (obs, s.a([0] * (k + 1), dt)), (obs, s.a([0] * (k - 1), dt)), (obs, obs[d]),
            (obs, s.a([0] * k, dt, shape=[k, 1])),
        ] + [(obs[:d] + [x] + obs[d + 1:], out) for x in (
            s.a(col, other(dt)), s.a(col, dt, "strided"), s.a(col, dt, "rev"), s.a(col[:-1], dt), s.a(col + col[:1], dt),
            s.a(col, dt, shape=[k, 1]), s.a(col, dt, ro=True), s.a(col[:1], dt))]
        for o, w in r.sample(wrong, 6):
            s.raw(a, dt, o, w)
        for nm in (["starts", "steps", "vals"] if g == "regular" else ["vals"]):
            w = v if nm == "vals" else p[nm]
            for x in r.sample([s.a(w[:-1], dt), s.a(list(w) + [1], dt), s.a(w, dt, "strided"), s.a(w, other(dt)), s.a(w, dt, shape=[len(w), 1]),
                               s.a(w, dt, ro=True), s.a(w[: len(w) // 2], dt), s.a(list(w) * 2, dt)], 3):
                s.raw({**a, nm: x}, dt, obs, out)
        # output and observations cut from one buffer, overlapping by one element or not at all
        both = s.a([r.randint(0, 3) for _ in range(2 * k + 2)], dt)
        b = s.info[both][0]
        iv = s.view(b, 0, [k], [1])
        for off in (k - 1, k, k + 1):
            s.raw(a, dt, obs[:d] + [iv] + obs[d + 1:], s.view(b, off, [k], [1]))
        fl = s.a([r.randint(0, 1) for _ in range(n)], "bool")
        s.raw(a, dt, obs[:-1], fl, f="cb")
        s.raw(a, dt, obs, s.a([0] * (n + 1), "bool"), f="cb")
        s.raw(a, dt, obs, fl, f="cb")
        s.raw(a, dt, obs, out)
        yield s
