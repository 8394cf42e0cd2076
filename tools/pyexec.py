"""Executes scenario sessions (JSON lines) against the real Python package and records, after
every operation, its outcome and every buffer that changed. It decides nothing."""
import copy
import hashlib
import json
import pickle
import sys
import traceback
from fractions import Fraction as F

import numpy as np
import interpn
from interpn import raw
from interpn.serialization import ArrayF32, ArrayF64

DT = {"f64": np.float64, "f32": np.float32, "bool": np.bool_, "i64": np.int64, "f16": np.float16, "i32": np.int32, "c128": np.complex128}
NAME = {np.dtype(v): k for k, v in DT.items()}
CLS = {("linear", "regular"): interpn.MultilinearRegular, ("linear", "rectilinear"): interpn.MultilinearRectilinear,
       ("cubic", "regular"): interpn.MulticubicRegular, ("cubic", "rectilinear"): interpn.MulticubicRectilinear,
       ("nearest", "regular"): interpn.NearestRegular, ("nearest", "rectilinear"): interpn.NearestRectilinear}
WRAP = {"f64": ArrayF64, "f32": ArrayF32}


class Executor(Exception):
    pass


def num(v, dt="f64"):
    if isinstance(v, int):
        return v
    if v in ("nan", "inf", "-inf"):
        return float(v)
    if v == "-0":
        return -0.0
    if "@" in v:
        m, e = v.split("@")
        q = F(int(m)) * F(2) ** int(e)
    else:
        q = F(v)
    return int(q) if dt in ("i64", "i32") else float(q)


def show(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (complex, np.complexfloating)):
        return show(float(x.real))
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    n, d = x.as_integer_ratio()
    if d == 1 and abs(n) < 2**31:
        return n
    e = -(d.bit_length() - 1)
    if d == 1:
        while n % 2 == 0:
            n //= 2
            e += 1
    return f"{n}@{e}"


def shows(a):
    return [show(x) for x in np.asarray(a).ravel()]


def exact(a):
    """Fingerprint of an array, down to the signs of its zeros (but one NaN is as good as another)."""
    a = np.array(a)
    a[a != a] = np.nan
    return a.dtype.str + hashlib.sha256(a.tobytes()).hexdigest()[:24]


class Session:
    def __init__(self):
        self.bufs, self.arrs, self.objs, self.docs, self.shadow = {}, {}, {}, {}, {}

    def arr(self, a):
        return self.arrs[a]

    def arrl(self, l):
        return [self.arrs[a] for a in l]

    def settle(self):
        """Buffers that changed since the last operation."""
        chg = []
        for b, x in self.bufs.items():
            if isinstance(x, list):
                continue
            now = x.tobytes()
            if now != self.shadow[b]:
                self.shadow[b] = now
                chg.append([b, shows(x)])
        return chg

    def result(self, r, out=None):
        return {"shape": list(r.shape), "dt": NAME.get(r.dtype, str(r.dtype)), "v": shows(r),
                "same": r is out, "fresh": not any(isinstance(x, np.ndarray) and np.may_share_memory(r, x) for x in self.bufs.values())}

    def dims(self, ev):
        d = [int(num(x, "i64")) for x in ev["dims"]]
        return np.array(d, dtype=np.int64) if ev.get("npdims") else d

    def do(self, ev):
        o = ev["o"]
        if o == "buf":
            dt = ev["dt"]
            if dt == "list":
                self.bufs[ev["b"]] = [float(num(x)) for x in ev["v"]]
            else:
                x = np.array([num(v, dt) for v in ev["v"]], dtype=DT[dt])
                self.bufs[ev["b"]] = x
                self.shadow[ev["b"]] = x.tobytes()
                ev["v"] = shows(x)
        elif o == "arr":
            x = self.bufs[ev["b"]]
            if isinstance(x, list):
                self.arrs[ev["a"]] = x
            else:
                # (a view whose base is the buffer, so that numpy's borrow checks see shared memory)
                a = np.ndarray(tuple(ev["shape"]), x.dtype, buffer=x, offset=ev["off"] * x.itemsize if x.size else 0,
                               strides=tuple(s * x.itemsize for s in ev["strides"]))
                if ev["ro"]:
                    a.flags.writeable = False
                self.arrs[ev["a"]] = a
        elif o == "poke":
            if ev["b"] not in self.bufs:
                return
            x = self.bufs[ev["b"]]
            x.flat[ev["i"]] = num(ev["v"])
            ev["v"] = show(x.flat[ev["i"]])
            self.shadow[ev["b"]] = x.tobytes()
        elif o == "doc":
            d = ev["doc"]
            if d["junk"]:
                self.docs[ev["d"]] = ("text", d["text"])
            else:
                def arr(a):
                    v = [float(num(x)) for x in a["v"]]
                    f = a["form"]
                    data = {"str": lambda: json.dumps(v), "list": lambda: v, "text": lambda: "spam", "number": lambda: 3.5,
                            "nested": lambda: json.dumps([v]), "none": lambda: None, "words": lambda: json.dumps(["a"] * len(v)),
                            "cut": lambda: json.dumps(v)[:-1], "dict": lambda: {"x": 1}, "null": lambda: "null"}[f]()
                    t = {"f64": "float64", "f32": "float32"}.get(a["dt"], a["dt"])
                    return {"data": data, "dtype": t} if a["dt"] != "none" else {"data": data}
                x = {}
                for k in d["has"]:
                    x[k] = d["dims"] if k == "dims" else d["lin"] if k == "linearize_extrapolation" else \
                        [arr(g) for g in d["grids"]] if k == "grids" else arr(d[k]) if k in ("starts", "steps", "vals") else 1
                self.docs[ev["d"]] = ("text", json.dumps(x))
        elif o in ("raw", "help", "cnew", "ceval", "ccb", "cset", "cstate", "cdump", "cload"):
            if "h" in ev and o not in ("cnew", "cload") and ev["h"] not in self.objs or \
                    o == "ceval" and any(a and a not in self.arrs for a in ev["obs"] + [ev["out"]]):
                ev["r"], ev["chg"] = "skip", []
                return
            f = getattr(self, o)
            args = self.prepare(o, ev)
            try:
                r = f(ev, *args)
                ev["r"] = "ok"
            except Executor:
                raise
            except Exception as e:
                ev["r"], ev["exc"] = "exc", type(e).__name__ + ": " + str(e)[:120]
                r = None
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                ev["r"], ev["exc"] = "panic", type(e).__name__ + ": " + str(e)[:120]
                r = None
            ev["chg"] = self.settle()
            if ev["r"] == "ok" and o in ("help", "ceval"):
                ev["res"] = self.result(r, self.arrs.get(ev["out"]))
                if ev["ret"] and ev["res"]["fresh"]:      # from now on the caller's memory
                    self.bufs[ev["ret"]] = self.arrs[ev["ret"]] = r
                    self.shadow[ev["ret"]] = r.tobytes()
        else:
            raise Executor("unknown operation " + o)

    def prepare(self, o, ev):
        if o == "raw":
            f = "check_bounds" if ev["f"] == "cb" else "interpn_" + ev["f"]
            fn = getattr(raw, f"{f}_{ev['g']}_{ev['dt']}")
            a = [self.dims(ev), self.arr(ev["starts"]), self.arr(ev["steps"])] if ev["g"] == "regular" else [self.arrl(ev["grids"])]
            if ev["f"] != "cb":
                a.append(self.arr(ev["vals"]))
            if ev["f"] == "cubic":
                a.append(ev["lin"])
            a.append(self.arrl(ev["obs"]))
            if ev["f"] == "cb":
                a.append(float(num(ev["atol"])))
            a.append(self.arr(ev["out"]))
            if ev["drop"]:
                a = a[:-ev["drop"]]
            return fn, a
        if o == "help":
            kw = {"method": ev["method"], "linearize_extrapolation": ev["lin"], "assume_regular": ev["assume"],
                  "check_bounds": ev["check"], "bounds_atol": float(num(ev["atol"]))}
            for k in ev.get("omit", []):
                kw.pop(k)
            if ev["out"]:
                kw["out"] = self.arr(ev["out"])
            return (self.arrl(ev["obs"]), self.arrl(ev["grids"]), self.arr(ev["vals"])), kw
        if o == "cnew":
            if ev["g"] == "regular":
                kw = {"dims": [int(x) for x in ev["dims"]], "starts": self.arr(ev["starts"]), "steps": self.arr(ev["steps"]), "vals": self.arr(ev["vals"])}
            else:
                kw = {"grids": self.arrl(ev["grids"]), "vals": self.arr(ev["vals"])}
            if ev["m"] == "cubic" and not (ev["via"] == "new" and ev.get("deflin")):
                kw["linearize_extrapolation"] = ev["lin"]
            return (kw,)
        return ()

    # ---- the operations themselves
    def raw(self, ev, fn, a):
        fn(*a)

    def help(self, ev, a, kw):
        return interpn.interpn(*a, **kw)

    def cnew(self, ev, kw):
        cls = CLS[ev["m"], ev["g"]]
        if ev["via"] == "new":
            obj = cls.new(**kw)
        else:
            t = list(ev["types"])
            def wrap(x):
                return WRAP[t.pop(0)](data=x)
            for k in ("starts", "steps", "grids", "vals"):
                if k in kw:
                    kw[k] = [wrap(x) for x in kw[k]] if k == "grids" else wrap(kw[k])
            obj = cls(**kw)
        for k in ("dims", "grids"):      # the caller goes on with its own lists
            if isinstance(kw.get(k), list):
                kw[k].clear()
        self.objs[ev["h"]] = obj

    def ceval(self, ev):
        obj = self.objs[ev["h"]]
        f = obj.eval_unchecked if ev["unchecked"] else obj.eval
        obs = self.arrl(ev["obs"])
        return f(obs, self.arr(ev["out"])) if ev["out"] else f(obs)

    def ccb(self, ev):
        r = self.objs[ev["h"]].check_bounds(self.arrl(ev["obs"]), float(num(ev["atol"])))
        ev["flags"] = [int(x) for x in r]

    def cset(self, ev):
        obj, f = self.objs[ev["h"]], ev["field"]
        if f == "vals.data":
            obj.vals.data = np.zeros(3)
        elif f == "vals.dtype":
            obj.vals.dtype = "float64"
        elif f == "new":
            obj.something_new = 1
        elif f == "del":
            del obj.vals
        else:
            setattr(obj, f, getattr(obj, f))

    def cstate(self, ev):
        o = self.objs[ev["h"]]
        reg = hasattr(o, "starts")
        arrays = [o.starts, o.steps, o.vals] if reg else [*o.grids, o.vals]
        ev["state"] = {"ndims": o.ndims(), "dims": [int(x) for x in (o.dims if reg else o.dims())],
                       "starts": shows(o.starts.data) if reg else [], "steps": shows(o.steps.data) if reg else [],
                       "grids": [] if reg else [shows(g.data) for g in o.grids], "vals": shows(o.vals.data),
                       "dts": [NAME.get(x.data.dtype, "?") for x in arrays] + [{"float64": "f64", "float32": "f32"}.get(x.dtype, "?") for x in arrays],
                       "lin": bool(getattr(o, "linearize_extrapolation", False)),
                       "bits": " ".join(exact(x.data) for x in arrays)}

    def cdump(self, ev):
        o, how = self.objs[ev["h"]], ev["how"]
        self.docs[ev["d"]] = {
            "json": lambda: ("text", o.model_dump_json()),
            "dict": lambda: ("dict", o.model_dump()),
            "pyjson": lambda: ("text", json.dumps(o.model_dump(mode="json"), indent=1)),
            "jsondict": lambda: ("dict", json.loads(o.model_dump_json())),
            "copy": lambda: ("obj", copy.deepcopy(o)),
            "mcopy": lambda: ("obj", o.model_copy(deep=True)),
            "pickle": lambda: ("pickle", pickle.dumps(o)),
        }[how]()

    def cload(self, ev):
        kind, x = self.docs[ev["d"]]
        cls = CLS[ev["m"], ev["g"]]
        self.objs[ev["h"]] = {"text": lambda: cls.model_validate_json(x), "dict": lambda: cls.model_validate(x),
                              "obj": lambda: x, "pickle": lambda: pickle.loads(x)}[kind]()


def main():
    for line in sys.stdin:
        s = json.loads(line)
        x = Session()
        try:
            for ev in s["ev"]:
                ev.setdefault("chg", [])
                ev.setdefault("ret", 0)
                x.do(ev)
        except Exception:
            traceback.print_exc()
            sys.stderr.write(f"session {s['sid']}\n")
            sys.stderr.flush()
            sys.exit(3)
        sys.stdout.write(json.dumps(s, separators=(",", ":")) + "\n")
        sys.stdout.flush()


main()
