#!/usr/bin/env python3
"""check.py <property>: decide one property. Tier and seed from VERIF_TIER / VERIF_SEED."""
import json
import os
import re
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as C
import props


def known(prop):
    out = []
    for line in open(os.path.join(C.V, "known_findings.txt")):
        m = re.match(r"open:\s+property=(\S+)\s+sid=(\S+)\s+(.*)", line.strip())
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2)), m.group(3)))
    return out


def build(nums):
    jobs = {}
    if any("+fma" not in n and n != "py" for n in nums):
        jobs["h"] = lambda: C.build_harness(False)
    if any("+fma" in n for n in nums):
        jobs["hf"] = lambda: C.build_harness(True)
    if "py" in nums:
        jobs["py"] = C.build_python
    with ThreadPoolExecutor(3) as ex:
        fs = {k: ex.submit(f) for k, f in jobs.items()}
        return {k: f.result() for k, f in fs.items()}


def group(sessions, dirs):
    """sessions: list of (num, json line) -> executor groups."""
    by = {}
    for num, line in sessions:
        by.setdefault(num, []).append(line)
    out = []
    for num, lines in by.items():
        if num == "py":
            cmd = ["/opt/vp/venv/bin/python", "-X", "faulthandler", os.path.join(C.V, "tools", "pyexec.py")]
            ev = {"PYTHONPATH": dirs["py"], "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
        else:
            base, _, f = num.partition("+")
            cmd, ev = [os.path.join(dirs["hf" if f else "h"], "h_" + base)], {}
            if not os.path.exists(cmd[0]):
                print(f"NOTE: the library cannot be instantiated with {num}: {len(lines)} sessions not run")
                continue
        out.append((cmd, ev, lines))
    return out


def stats(lines):
    ev = pts = skip = rel = 0
    kinds = {}
    for x in lines:
        s = json.loads(x)
        rel += len(s.get("rel", []))
        for e in s["ev"]:
            ev += 1
            k = e["o"] + ":" + str(e.get("r", ""))
            kinds[k] = kinds.get(k, 0) + 1
            if e.get("r") == "skip" and s["num"] != "py":
                skip += 1
            pts += len(e["res"]["v"]) if isinstance(e.get("res"), dict) else 0
            pts += 1 if e["o"] == "one" else e.get("n", 0) if e["o"] in ("bat", "fn", "par") else len(e.get("xs", []))
    return {"operations": ev, "points": pts, "relations": rel, "skipped_overflow": skip, "results": kinds}


def main(prop, only=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[prop]
    pool = ThreadPoolExecutor(4)
    t1 = time.time()
    fb = pool.submit(build, P["nums"])
    # the design: model checking the specification itself
    design = [pool.submit(C.tlc, m, cfg, None, None, P.get("mcworkers", 2)) for m, cfg in P["mc"].get(tier, P["mc"]["quick"])]
    exported = [pool.submit(f, seed, tier) for f in P.get("models", [])]
    module = P.get("trace", "Trace")
    # scenarios: generated, plus the behaviours exported from the specification
    sessions = []
    for s in P["gen"](seed, tier):
        sessions.append((s.d["num"], s.json()))
    for f in exported:
        sessions += f.result()
    if only:
        sessions = [s for s in sessions if re.search(only, json.loads(s[1])["sid"])]
    dirs = fb.result()
    t2 = time.time()
    rec = C.execute(group(sessions, dirs), timeout=600 if tier == "thorough" else 150)
    t3 = time.time()
    kn, knhits = known(prop), []
    total = {"generated": 0, "distinct": 0}
    while True:
        r = C.validate(rec, module, prop)
        total["generated"] += r["generated"]
        total["distinct"] += r["distinct"]
        hit = [(x, why) for x in r["rejects"] for rx, why in kn if rx.fullmatch(x[0])]
        if r["rejects"] and len({h[0][0] for h in hit}) == len({x[0] for x in r["rejects"]}):
            for x, why in hit:
                knhits.append(why)
                rec = [y for y in rec if json.loads(y)["sid"] != x[0]]
            continue
        break
    t4 = time.time()
    mcs = []
    for d in design:
        d = d.result()
        if d["code"] != 0:
            raise C.ToolError(f"design model {d['module']}/{d['cfg']} fails:\n" + d["out"][-4000:])
        mcs.append({"model": d["module"], "cfg": d["cfg"], "states": d["distinct"], "transitions": d["generated"], "wall_s": round(d["wall"], 1)})
    for w in sorted(set(knhits)):
        print(f"KNOWN-FINDING: property={prop} {w}")
    st = stats(rec)
    if not r["rejects"] and st["operations"] and st["skipped_overflow"] > 0.9 * st["operations"]:
        raise C.ToolError(f"too many operations left the range of exact arithmetic: {st}")
    viol = 0
    if r["rejects"]:
        viol = 1
        sid, pc, i, why = r["rejects"][0]
        os.makedirs(os.path.join(C.BUILD, "replay"), exist_ok=True)
        path = os.path.join(C.BUILD, "replay", f"{prop}-{sid}.json")
        sess = next(json.loads(x) for x in rec if json.loads(x)["sid"] == sid)
        at = (sess["ev"] if pc == "ev" else sess["rel"])[i - 1] if i else None
        json.dump({"property": prop, "seed": seed, "tier": tier, "sid": sid, "phase": pc, "index": i, "reason": why,
                   "step": at, "spec": module, "session": sess,
                   "how": f"VERIF_SEED={seed} VERIF_TIER={tier} python3 tools/check.py {prop} --only '^{sid}$'"}, open(path, "w"))
        print(f"rejected: session {sid}, {pc} {i}: {why}")
        print("  ", json.dumps(at)[:600])
        print(f"VIOLATION property={prop} replay={path}")
    samples = [json.loads(x) for x in rec[:: max(1, len(rec) // 2)][:2]]
    for s in samples:
        s["ev"], s["rel"] = s["ev"][:3], s["rel"][:1]
        for p in s["p"]:
            if isinstance(p.get("vals"), dict) and len(json.dumps(p["vals"])) > 400:
                p["vals"] = {"k": p["vals"]["k"], "...": "shortened"}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total["distinct"] + sum(m["states"] for m in mcs),
            "transitions": total["generated"] + sum(m["transitions"] for m in mcs),
            "traces_validated_against_impl": len(rec),
            "samples": [json.loads(json.dumps(s)[:0] or "null") or s for s in samples],
            "trace_states": total["distinct"], "design_models": mcs, **st,
            "bound": P.get("bound", ""),
        },
        "assumptions": P.get("assumptions", []) + props.ASSUME,
        "wall_s": round(time.time() - t0, 1), "violations": viol,
    }
    os.makedirs(os.path.join(C.V, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(C.V, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {len(rec)} sessions, {st['operations']} operations, {st['points']} points, {st['relations']} relations, "
          f"{st['skipped_overflow']} skipped; {total['distinct']} trace states; models {[(m['model'], m['states']) for m in mcs]}; "
          f"build {t2 - t1:.1f}s run {t3 - t2:.1f}s tlc {t4 - t3:.1f}s total {time.time() - t0:.1f}s")
    return 1 if viol else 0


if __name__ == "__main__":
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    try:
        code = main(sys.argv[1], only)
    except C.ToolError as e:
        print("ERROR:", e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
