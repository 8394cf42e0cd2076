"""Building the executors from /repo's working tree, running them, and running TLC."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
SPEC = os.path.join(V, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    if not hasattr(env, "c"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        env.c = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    e.update(env.c)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def sh(cmd, **kw):
    kw.setdefault("capture_output", True)
    return subprocess.run(cmd, text=True, **kw)


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def source_hash():
    h = hashlib.sha256()
    for base in ("src", "Cargo.toml", "Cargo.lock", "build.rs", "pyproject.toml"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            if f.endswith((".pyc", ".so")) or "/__pycache__/" in f:
                continue
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()


def cargo(target, args, cwd, extra_env=None):
    """Run cargo; when the sources changed since the last build in this target directory, forget
    what cargo remembers about interpn, so that stale timestamps cannot hide the change."""
    os.makedirs(target, exist_ok=True)
    stamp, now = os.path.join(target, "source.stamp"), source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        for prof in ("debug", "release"):
            d = os.path.join(target, prof, ".fingerprint")
            if os.path.isdir(d):
                for f in os.listdir(d):
                    if f.startswith(("interpn-", "harness-")):
                        shutil.rmtree(os.path.join(d, f))
    e = env()
    e["CARGO_TARGET_DIR"] = target
    e.update(extra_env or {})
    p = sh(["cargo"] + args, cwd=cwd, env=e)
    if p.returncode != 0:
        raise ToolError("cargo failed:\n" + p.stderr[-4000:])
    open(stamp, "w").write(now)


def build_harness(fma=False):
    name = "hf" if fma else "h"
    target = os.path.join(BUILD, name)
    feat = ["fma"] if fma else []
    err = None
    with lock(name):
        # An interpolator that is no longer Sync, or that exact rationals cannot instantiate any
        # more, still has all its other sessions replayed.
        for more, bins in (([], []), (["nosync"], []), ([], ["h_f64", "h_f32"]), (["nosync"], ["h_f64", "h_f32"])):
            try:
                for b in ("h_rat", "h_f64", "h_f32") if bins else ():
                    if os.path.exists(os.path.join(target, "debug", b)):
                        os.remove(os.path.join(target, "debug", b))
                cargo(target, ["build", "--offline"] + (["--features", ",".join(feat + more)] if feat + more else [])
                      + [x for b in bins for x in ("--bin", b)], os.path.join(V, "harness"))
                return os.path.join(target, "debug")
            except ToolError as e:
                err = err or e
    raise err


def build_python():
    """The extension module, next to the Python sources, importable from the returned directory."""
    target, site = os.path.join(BUILD, "py"), os.path.join(BUILD, "site")
    with lock("py"):
        cargo(target, ["rustc", "--lib", "--crate-type", "cdylib", "--features", "python", "--offline"], REPO,
              {"PYO3_PYTHON": "/opt/vp/venv/bin/python", "CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "0"})
        if os.path.isdir(site):
            shutil.rmtree(site)
        os.makedirs(os.path.join(site, "interpn"))
        src = os.path.join(REPO, "src", "interpn")
        for f in os.listdir(src):
            if f.endswith((".py", ".pyi", ".typed")):
                shutil.copy(os.path.join(src, f), os.path.join(site, "interpn", f))
        shutil.copy(os.path.join(target, "debug", "libinterpn.so"), os.path.join(site, "interpn", "interpn.abi3.so"))
        ver = re.search(r'^version\s*=\s*"([^"]+)"', open(os.path.join(REPO, "Cargo.toml")).read(), re.M).group(1)
        d = os.path.join(site, f"interpn-{ver}.dist-info")
        os.makedirs(d)
        open(os.path.join(d, "METADATA"), "w").write(f"Metadata-Version: 2.1\nName: interpn\nVersion: {ver}\n")
    return site


def build_spec():
    cls = os.path.join(BUILD, "cls")
    src = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java")))]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    stamp = os.path.join(cls, "stamp")
    with lock("cls"):
        if not os.path.exists(stamp) or open(stamp).read() != h:
            os.makedirs(cls, exist_ok=True)
            p = sh(["javac", "-cp", TLAJAR, "-d", cls] + src)
            if p.returncode:
                raise ToolError(p.stderr)
            open(stamp, "w").write(h)
        # for RationalCheck: the definitions under a name that has no override
        pure = open(os.path.join(SPEC, "Rational.tla")).read().replace("MODULE Rational ", "MODULE PureRational ")
        path = os.path.join(cls, "PureRational.tla")
        if not os.path.exists(path) or open(path).read() != pure:
            open(path, "w").write(pure)
    return cls


# ------------------------------------------------------------------ TLC
def tlc(module, cfg=None, env_extra=None, work=None, workers=None, timeout=800, args=(), override=True, heap="5g"):
    """Run TLC on spec/<module>.tla. cfg: a file in spec/, or the text of a configuration.
    Returns a dict with exit code, output, state counts."""
    cls = build_spec()
    work = work or os.path.join(BUILD, "tlc", f"{module}-{os.getpid()}-{time.time_ns()}")
    os.makedirs(work, exist_ok=True)
    shown = cfg or module + ".cfg"
    if cfg and "\n" in cfg:
        path = os.path.join(work, "model.cfg")
        open(path, "w").write(cfg)
        shown, cfg = " ".join(cfg.split()), path
    cp = (cls + ":" if override else "") + TLAJAR
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss256m", f"-DTLA-Library={cls}", "-cp", cp, "tlc2.TLC", "-workers", str(workers or NPROC),
           "-metadir", os.path.join(work, "states"), "-noGenerateSpecTE", "-cleanup", "-config", cfg or module + ".cfg", *args, module + ".tla"]
    e = dict(os.environ)
    e.update(env_extra or {})
    t0 = time.time()
    try:
        p = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
        code, out = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        code, out = -1, (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
    shutil.rmtree(work, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "", 0))
    if not m:
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return {"module": module, "cfg": shown, "code": code, "out": out, "generated": gen, "distinct": dist,
            "wall": time.time() - t0}


# ------------------------------------------------------------------ executing sessions
def run_chunk(cmd, lines, env_extra, timeout):
    """Feed the sessions to an executor process; a session that kills or hangs it gets a final
    event saying so, and the remaining sessions are run by a new process."""
    out = []
    while lines:
        e = env()
        e.update(env_extra or {})
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
        how = "crash"
        try:
            so, se = p.communicate("\n".join(lines) + "\n", timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            how = "hang"
        got = [x for x in so.split("\n") if x.endswith("}")]
        got = got[: len(lines)]
        out += got
        if len(got) == len(lines):
            break
        if p.returncode == 101 and "harness:" in se:
            raise ToolError("executor failed: " + se[-2000:])
        if p.returncode == 3:
            raise ToolError("executor failed: " + se[-3000:])
        s = json.loads(lines[len(got)])
        s["ev"], s["rel"] = [{"o": how, "code": p.returncode, "stderr": se[-500:]}], []
        s["p"] = []
        out.append(json.dumps(s))
        lines = lines[len(got) + 1:]
    return out


def execute(groups, timeout=300):
    """groups: list of (cmd, env, [session lines]). Returns all recorded sessions."""
    jobs = []
    for cmd, ev, lines in groups:
        k = max(1, min(NPROC, (len(lines) + 3) // 4))
        for c in range(k):
            part = lines[c::k]
            if part:
                jobs.append((cmd, part, ev, timeout))
    out = []
    with ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(lambda j: run_chunk(*j), jobs):
            out += r
    return out


REJ = re.compile(r'<<\s*"REJECT",\s*"([^"]*)",\s*"([^"]*)",\s*(\d+),\s*"(.*?)"\s*>>', re.S)


def validate(lines, module="Trace", name="trace"):
    """Validate recorded sessions against the specification."""
    work = os.path.join(BUILD, "tlc", f"{name}-{os.getpid()}-{time.time_ns()}")
    os.makedirs(work, exist_ok=True)
    f = os.path.join(work, "trace.ndjson")
    with open(f, "w") as h:
        h.write("\n".join(lines) + "\n")
    r = tlc(module, env_extra={"TRACE": f}, work=work)
    r["rejects"] = [(m[0], m[1], int(m[2]), m[3]) for m in REJ.findall(r["out"])]
    if r["code"] == 0 and not r["rejects"]:
        return r
    if r["rejects"]:
        return r
    open(os.path.join(BUILD, name + ".tlc.out"), "w").write(r["out"])
    at = max(0, r["out"].find("Error:"))
    raise ToolError(f"TLC on {module} ended with {r['code']}:\n" + r["out"][at:at + 3000] + "\n...\n" + r["out"][-3000:])
