"""The design models: configurations, and the sessions exported from them."""
import json
import random
import re
import struct
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction as F
from itertools import product

import common as C
import gen


def cfg(module, invs="", **k):
    """Configuration text for a model."""
    spec = "SPECIFICATION Spec" if module in ("MCCalls", "MCFlat", "MCPy") else "INIT Init\nNEXT Next"
    props = k.pop("props", "")
    if "nxt" in k:
        spec = "INIT Init\nNEXT " + k.pop("nxt")
    out = ["CHECK_DEADLOCK FALSE", spec]
    for c, v in k.items():
        out.append(f"CONSTANT {c} {v if str(v).startswith('<-') else '= ' + str(v)}")
    if invs:
        out.append("INVARIANTS " + invs)
    if props:
        out.append("PROPERTIES " + props)
    return "\n".join(out) + "\n"


def ms(*names):
    return "{" + ", ".join(f'"{x}"' for x in names) + "}"


def axis(invs, deep=False):
    return "MCAxis", cfg("MCAxis", "CellRight " + invs, Deep=str(deep).upper())


def interp(invs, methods=("linear", "nearest", "cubic"), deep=False):
    return "MCInterp", cfg("MCInterp", "WellFormed " + invs, Deep=str(deep).upper(), Methods=ms(*methods))


def flat(methods, deep=False):
    return "MCFlat", cfg("MCFlat", "Inside Covers RowsRight EndsWithValue RestoredIndices", Deep=str(deep).upper(), Methods=ms(*methods))


def calls(invs="ObjectsOk OutRight Answers Refusals", handles=1):
    return "MCCalls", cfg("MCCalls", invs, Record="FALSE", MaxOps=0, Handles=handles, Few="TRUE", props="ObjectsKept Ends")


def oned(invs, deep=False):
    return "MCOneD", cfg("MCOneD", invs + " GridAccepted", Deep=str(deep).upper(), Record="FALSE")


def bounds(deep=False):
    return "MCBounds", cfg("MCBounds", "FlagsRight Decides Reordered Accepted", Deep=str(deep).upper(), Record="FALSE")


def helpers(deep=False):
    return "MCHelpers", cfg("MCHelpers", "LinRight LinEnds LinEven LinBack MeshRight MeshComplete MeshReads", Deep=str(deep).upper(), Record="FALSE")


def rounding(e=24, deep=False):
    return "MCRound", cfg("MCRound", "WithinTolerance Meaningful RoundsOnce", Deep=str(deep).upper(), E=e, Room="<- Room8")


def rational():
    return "RationalCheck", cfg("RationalCheck", "Both One_ Text")


def simulate(module, text, num, depth, seed):
    """Random behaviours of a model, as the lines it prints."""
    r = C.tlc(module, text, workers=1, args=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)))
    if r["code"] != 0:
        raise C.ToolError(f"simulating {module} fails:\n" + r["out"][-4000:])
    found = re.findall(r'^("(?:SESSION|PROBLEMS|POOL) .*")$', r["out"], re.M)
    return [json.loads(x).split(" ", 1) for x in found]


def export(module, text):
    """Everything a model prints with `Printed`, in a fixed order."""
    r = C.tlc(module, text, workers=1)
    if r["code"] != 0:
        raise C.ToolError(f"exporting from {module} fails:\n" + r["out"][-4000:])
    return [json.loads(json.loads(x)[8:]) for x in sorted(set(re.findall(r'^("SESSION .*")$', r["out"], re.M)))]


def exact(x, num):
    """The number of this type closest to x (a string or a number)."""
    x = F(x)
    return x if num == "rat" else F(struct.unpack("f", struct.pack("f", float(x)))[0])


def fits(num, xs):
    return num == "rat" or all(exact(x, num) == F(x) for x in xs)


def axis_nums(a):
    return [a[k] for k in ("s", "h", "h1", "h2") if k in a] + list(a.get("v", []))


def model_values(prop, chk, methods=("linear", "nearest", "cubic"), nums=("rat", "f64", "f32"), entries=None, place=None):
    """Every problem and point of MCAxis and MCInterp, on the library."""
    def make(seed, tier):
        deep = str(tier == "thorough").upper()
        cases = []
        for c in export("MCAxis", cfg("MCAxis", "Printed", Deep=deep, nxt="Halt")):
            base = {"m": c["m"], "lin": c["lin"], "vals": {"k": "list", "v": c["vals"]}}
            if c["ax"]["k"] == "aff":
                cases.append(({**base, "g": "regular", "dims": [c["ax"]["n"]], "starts": [c["ax"]["s"]], "steps": [c["ax"]["h"]]}, [c["xs"]],
                              axis_nums(c["ax"]) + [F(c["ax"]["s"]) + i * F(c["ax"]["h"]) for i in range(c["ax"]["n"])]))
            cases.append(({**base, "g": "rectilinear", "grids": [c["ax"]]}, [c["xs"]],
                          gen.coords({k: [F(v) for v in w] if k == "v" else w if k in ("k", "n") else F(w) for k, w in c["ax"].items()})))
        for c in export("MCInterp", cfg("MCInterp", "Printed", Deep=deep, Methods=ms(*methods), nxt="Halt")):
            p = c["p"]
            for f in (("grids",) if p["g"] == "regular" else ("dims", "starts", "steps")):
                del p[f]
            cases.append((p, c["xs"], [x for f in ("starts", "steps") for x in p.get(f, [])] + [x for a in p.get("grids", []) for x in axis_nums(a)]))
        out = []
        for i, (p, xs, ns) in enumerate(cases):
            if p["m"] not in methods:
                continue
            n = len(xs)
            for num in nums:
                if not fits(num, ns):
                    continue
                r = random.Random(f"{seed}/{prop}/{num}/{i}")
                pts = [list(x) for x in product(*[[exact(c, num) for c in d] for d in xs])]
                r.shuffle(pts)
                s = gen.Session(f"{prop}-model-{num}-{i}", num, chk)
                k = s.prob({**p, "_axes": [None] * n})
                for e in gen.entries(p["m"], n, r) if entries is None else entries(p["m"], n, r):
                    gen.evaluate(s, k, e, pts[:4] if e[0] == "one" else pts)
                out.append((num, s.json()))
        return out
    return make


def model_oned(prop, kinds, lookup, nums=("rat", "f64", "f32")):
    """Every grid and position of MCOneD."""
    def make(seed, tier):
        out = []
        for i, c in enumerate(export("MCOneD", cfg("MCOneD", "Printed", Deep=str(tier == "thorough").upper(), Record="TRUE", nxt="Halt"))):
            p = c["p"]
            ns = p["starts"] + p["steps"] + [x for a in p["grids"] for x in axis_nums(a)]
            if p["g"] == "rectilinear":
                ns += gen.coords({k: [F(v) for v in w] if k == "v" else w if k in ("k", "n") else F(w) for k, w in p["grids"][0].items()})
            for f in (("grids",) if p["g"] == "regular" else ("dims", "starts", "steps")):
                del p[f]
            for num in nums:
                if not fits(num, ns):
                    continue
                xs = [gen.J(exact(x, num)) for x in c["xs"]]
                s = gen.Session(f"{prop}-model-{num}-{i}", num, ["one"])
                k = s.prob({**p, "_axes": [None]})
                s.ev(o="g1", h=1, p=k)
                for kind in kinds:
                    s.ev(o="i1", h=1, p=k, k=kind, f="eval", xs=xs, n=len(xs), pre=s.PRE)
                    s.ev(o="i1", h=1, p=k, k=kind, f="alc", xs=xs[::-1], n=len(xs), pre=s.PRE)
                    s.ev(o="i1", h=1, p=k, k=kind, f="one", xs=xs[::2], n=len(xs[::2]), pre=s.PRE)
                for x in xs if lookup else []:
                    s.ev(o="at", h=1, p=k, x=x)
                out.append((num, s.json()))
        return out
    return make


def model_bounds(prop, nums=("rat", "f64", "f32"), per=250):
    """Every placement of points of MCBounds (a random part of them when quick)."""
    def make(seed, tier):
        r = random.Random(f"{seed}/{prop}")
        cases = export("MCBounds", cfg("MCBounds", "Printed", Deep="FALSE", Record="TRUE"))
        if tier != "thorough":
            cases = r.sample(cases, min(len(cases), 15000))
        out = []
        for j in range(0, len(cases), per):
            num = nums[(j // per) % len(nums)]
            s = gen.Session(f"{prop}-model-{num}-{j}", num, ["bounds"])
            at = {}
            for c in cases[j:j + per]:
                p = c["p"]
                for f in (("grids",) if p["g"] == "regular" else ("dims", "starts", "steps")):
                    del p[f]
                key = json.dumps(p)
                if key not in at:
                    at[key] = s.prob({**p, "_axes": c["obs"]})
                n = len(c["obs"])
                obs = [[x if num != "rat" or x[-1].isdigit() else "0" for x in d] for d in c["obs"]]
                s.ev(o="cb", p=at[key], a=r.choice(["flat", "rec"]) if n <= 4 else "rec", obs=obs, n=n, atol=c["atol"], pre=c["pre"])
            out.append((num, s.json()))
        return out
    return make


def model_helpers(prop, nums=("rat", "f64", "f32")):
    def make(seed, tier):
        cases = export("MCHelpers", cfg("MCHelpers", "Printed", Deep=str(tier == "thorough").upper(), Record="TRUE", nxt="Halt"))
        out = []
        for num in nums:
            s = gen.Session(f"{prop}-model-{num}", num, ["value"])
            for c in cases:
                if "grids" in c:
                    s.ev(o="mesh", grids=c["grids"])
                else:
                    s.ev(o="linspace", x=gen.J(exact(c["x"], num)), y=gen.J(exact(c["y"], num)), n=c["n"])
            out.append((num, s.json()))
        return out
    return make


E = {"rat": 0, "f64": 53, "f32": 24}


def call_histories(prop, chk, quick, thorough, nums=("rat", "f64", "f32"), ops=8):
    """Sessions that replay behaviours of MCCalls on the library."""
    def make(seed, tier):
        num = thorough if tier == "thorough" else quick
        text = cfg("MCCalls", "", Record="TRUE", MaxOps=ops, Handles=3, Few="FALSE")
        lines = simulate("MCCalls", text, num, 60 * ops, seed)
        probs = json.loads(next(x for k, x in lines if k == "PROBLEMS"))
        for p in probs:
            for f in (("grids",) if p["g"] == "regular" else ("dims", "starts", "steps")):
                del p[f]
        out = []
        for i, x in enumerate(x for k, x in lines if k == "SESSION"):
            ev = json.loads(x)
            used = sorted({e["p"] for e in ev})
            for e in ev:
                e["p"] = used.index(e["p"]) + 1
            n = nums[i % len(nums)]
            out.append((n, json.dumps({"sid": f"{prop}-history-{n}-{i}", "num": n, "e": E[n.split("+")[0]], "chk": chk,
                                       "p": [probs[u - 1] for u in used], "ev": ev, "rel": []})))
        return out
    return make


def pyworld(ops=3):
    return "MCPy", cfg("MCPy", "ObjectsOk RoundTrip", Record="FALSE", MaxOps=ops, Handles=2, props="Snapshots Kept OnlyOut DocsStay")


def py_histories(prop, quick, thorough, ops=30):
    """Sessions that replay behaviours of MCPy on the Python package."""
    def make(seed, tier):
        num = thorough if tier == "thorough" else quick
        text = cfg("MCPy", "", Record="TRUE", MaxOps=ops, Handles=3)
        with ThreadPoolExecutor(4) as ex:
            lines = [x for part in ex.map(lambda k: simulate("MCPy", text, num // 4, ops + 2, f"{seed}{k}{prop[1:]}"), range(4)) for x in part]
        pool = json.loads(next(x for k, x in lines if k == "POOL"))
        head = [{"o": "buf", "b": i + 1, **b} for i, b in enumerate(pool["bufs"])] + \
            [{"o": "arr", "a": i + 1, **a} for i, a in enumerate(pool["arrs"])]

        def named(ev):          # results that are returned, not written, become memory of the caller's
            for k, e in enumerate(ev):
                if e["o"] in ("ceval", "help") and not e["out"]:
                    e["ret"] = 10**6 + k
            return ev
        return [("py", json.dumps({"sid": f"{prop}-history-{i}", "num": "py", "p": [], "ev": head + named(json.loads(x)), "rel": []}))
                for i, x in enumerate(x for k, x in lines if k == "SESSION")]
    return make
