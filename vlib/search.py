"""The checks decided by the driver: generated programs on every configuration against the property's oracle."""
import json, os, subprocess, time
from . import build, configs, hints, literals, matrix
from .report import Error, Violation

# property: (mode, programs per round, rounds of the thorough tier, gadgets per program)
PLAN = {
    "C01": ("check", 60000, 25, (2, 4)),
    "C02": ("check", 60000, 25, (2, 4)),
    "C03": ("check", 60000, 25, (2, 4)),
    "C04": ("check", 40000, 25, (2, 3)),
    "C05": ("check", 80000, 25, (6, 10)),
    "C06": ("check", 80000, 25, (6, 10)),
    "C07": ("check", 60000, 25, (4, 8)),
    "C08": ("check", 50000, 25, (2, 4)),
    "C09": ("check", 60000, 25, (6, 10)),
    "C10": ("check", 80000, 25, (8, 12)),
    "C11": ("check", 60000, 25, (6, 10)),
    "C12": ("check", 60000, 25, (6, 10)),
    "C13": ("check", 24000, 25, (4, 8)),
    "C14": ("check", 60000, 25, (6, 10)),
    "C15": ("check", 50000, 25, (4, 8)),
    "C16": ("diff", 25000, 25, (30, 80)),
    "C17": ("trace", 400, 12, (4, 8)),
    "C19": ("check", 60, 12, (30, 60)),
    "C21": ("trace", 10, 12, (4, 8)),
    "C18": ("history", 160, 20, (20, 60)),
    "C20": ("check", 15000, 25, (30, 80)),
}


def weight(c, runner):
    if not runner:
        return 32 if c.dev else 64
    return 6 if c.dev else 20


def backends(cfgs, notes):
    """Builds the configurations; returns the driver's list. A main configuration that does not build is an error of
    this check (C19 judges it); another one is left out with a note."""
    built = build.build_agents(cfgs)
    out = []
    for c in cfgs:
        exe, log = built[c.name]
        if exe is None:
            if c.kind == "" and "threads" in c.crate and ("between threads" in log):
                raise Violation({"property": "C18", "mode": "build", "backend": c.name, "detail": log[-4000:]}, None,
                                f"configuration {c.name}: ciphers cannot be shared or sent between threads:\n{log[-3000:]}")
            if c.main:
                raise Error(f"the library does not build in configuration {c.name}:\n{log[-3000:]}")
            notes.append(f"configuration {c.name} does not build and was left out")
            continue
        cmd = build.command(c, exe)
        if c.exact and cmd and not starts(cmd):
            c.exact, c.prefix = False, configs.run_prefix(c, False)
            cmd = build.command(c, exe)
        if c.prefix and cmd and not starts(cmd):
            cmd = None
        if cmd is None:
            notes.append(f"configuration {c.name} cannot run on this machine and was left out")
            continue
        if c.prefix is not False:
            w = (4 if c.dev else 10) if c.prefix else 32
        else:
            w = weight(c, matrix.runner(c))
        out.append({"name": c.name, "cmd": cmd[0], "env": list(cmd[1].items()), "weight": w})
    return out


def starts(cmd):
    """Does the program start here at all? (Without input it calls nothing of the library.)"""
    try:
        return subprocess.run(cmd[0], env={**os.environ, **cmd[1]}, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                              stderr=subprocess.DEVNULL, timeout=60).returncode == 0
    except (subprocess.TimeoutExpired, OSError):
        return False


def run_driver(job, replay=None, timeout=3600):
    d = os.path.join(build.WORK, "jobs", f"{job['property']}-{os.getpid()}-{time.monotonic_ns()}")
    os.makedirs(d, exist_ok=True)
    job["out"] = os.path.join(d, "out.json")
    path = os.path.join(d, "job.json")
    json.dump(job, open(path, "w"))
    try:
        cmd = [build.build_driver(), path] + ([replay] if replay else [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if replay:
            return r.returncode, r.stdout
        if r.returncode or not os.path.exists(job["out"]):
            raise Error(f"driver: exit {r.returncode}\n{r.stdout[-3000:]}")
        return json.load(open(job["out"]))
    except subprocess.TimeoutExpired:
        raise Error("driver: out of time")
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


def make_job(prop, seed, bs, **over):
    mode, n, _, (lo, hi) = PLAN[prop]
    j = {"property": prop, "seed": seed, "mode": mode, "backends": bs, "programs": n, "min": lo, "max": hi,
         "dict": literals.dictionary(build.REPO + "/src"), "threads": os.cpu_count() or 4}
    j.update(over)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for k in ("programs", "repeats", "concurrents"):
        if j.get(k):
            j[k] = max(1, int(j[k] * scale))
    return j


def merge(a, b):
    """Adds up what two rounds covered."""
    if a is None:
        return b
    for k, v in b.items():
        if k == "not_supported" or v is None:
            continue
        if isinstance(v, dict):
            d = a.setdefault(k, {})
            for x, n in v.items():
                d[x] = d.get(x, 0) + n
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
    return a


# coverage-guided: executions per lane (there are lanes of every instrumented implementation)
COVERED = {f"C{i:02}": 25000 for i in range(1, 16)}
COVERED["C20"] = COVERED["C16"] = 6000
LANES = 3


def stages(prop, tier, seed, notes):
    """The jobs of a property: (backends, job fields, rounds of the thorough tier)."""
    deep = PLAN[prop][2]
    if prop in COVERED:
        n = COVERED[prop] * (8 if tier == "thorough" else 1)
        lo, hi = (4, 10) if prop in ("C16", "C20") else (1, 1)
        over = dict(mode="coverdiff" if prop == "C16" else "cover", programs=n, repeat=LANES, min=lo, max=hi)
        native, emulated = instrumented(matrix.COVER, notes), instrumented(matrix.COVER_EMULATED, notes)
        yield native, over, deep
        if emulated:
            # the first one is what C16 compares with
            yield native[:1] * (prop == "C16") + emulated, over, deep
    more = hints.configurations()
    build.build_agents(matrix.CFGS + more)
    base = backends(matrix.CFGS, notes) + backends(more, notes)
    if prop == "C18":
        thr = backends(matrix.THREADED, notes)
        for b in thr:
            b["threads"] = True
        yield base + thr, dict(repeat=20000, repeats=48, concurrent=4000, concurrents=60), deep
        fast = [b for b in base if b["name"] in QUICK]
        slow = [dict(b, weight=min(b["weight"], 16)) for b in base if b["name"] not in QUICK]
        # the first moments of a process; few agents at a time, so that their threads do run at the same time
        yield thr, dict(mode="check", generator="race", programs=2500, chunk=1, min=1, max=1, threads=max(1, (os.cpu_count() or 4) // 3)), deep
        yield fast, dict(mode="check", generator="loop70000", programs=120, chunk=4, min=1, max=1), deep
        # the bit-sliced one is too slow for a million of them
        million = [b for b in fast if b["name"] in ("sw", "aesni", "vaes", "avx512")]
        yield million, dict(mode="check", generator="loop1100000", programs=120, chunk=2, min=1, max=1), deep
        yield slow, dict(mode="check", generator="loop1500", programs=120, chunk=4, min=1, max=1), deep
        yield instrumented(matrix.RACES, notes), dict(mode="check", generator="concurrent400", programs=60, chunk=1, min=1, max=1), deep
        yield instrumented(matrix.RACES, notes), dict(mode="check", generator="race", programs=250, chunk=1, min=1, max=1), deep
    elif prop == "C20":
        yield base, {}, deep
        yield instrumented(matrix.SANITIZED, notes), {}, deep
        yield instrumented(matrix.MIRI, notes), dict(generator="C20M", programs=10, chunk=2, min=40, max=60), deep
        yield instrumented(matrix.MIRI_VALUES, notes), dict(generator="C20V", programs=16, chunk=4, min=30, max=60), deep
        yield instrumented(matrix.RACES, notes), dict(generator="concurrent300", programs=20, chunk=1, min=1, max=1), deep
        yield instrumented([matrix.BY_NAME[n + "-miri"] for n in ("sw", "ct", "aesni")], notes), \
            dict(generator="concurrent2", programs=3, chunk=1, min=1, max=1), deep
    elif prop == "C16":
        from .special import generated
        more = [c for c in generated("C16", seed, 24, True, []) if prepare(c)]
        yield base + [b for b in backends(more, notes)], {}, deep
    elif prop == "C08":
        yield base, {}, deep
        # list lengths of every magnitude; too slow for an unoptimised agent under an emulator
        some = [dict(b, weight=0 if b["name"] in SLOW else 64) for b in base]
        yield some, dict(generator="C08L", programs=40, chunk=2, min=1, max=1), deep
    else:
        yield base, {}, deep


QUICK = {c.name for c in matrix.CFGS if not c.dev and not matrix.runner(c)}
SLOW = {c.name for c in matrix.CFGS if c.dev and matrix.runner(c)}


def instrumented(cfgs, notes):
    bs = backends(cfgs, notes)
    for b in bs:
        b["weight"], b["patience"] = 64, 400
    return bs


def one_job(prop, job, info, notes):
    r = run_driver(job)
    per = (r["info"] or {}).get("situations_per_configuration", {})
    for n in list(per):
        c = matrix.BY_NAME.get(n)
        if c is not None and c.prefix is not False:
            per[f"{c.doc}"] = per.pop(n)
    info = merge(info, r["info"] or {})
    for n, why in (r["info"] or {}).get("not_supported", {}).items():
        notes.append(f"{n}: {why}")
    if notes:
        info["notes"] = sorted(set(notes))
    if r["verdict"] == "error":
        raise Error(r["detail"])
    if r["verdict"] == "violation":
        d = r["detail"]
        c = matrix.BY_NAME.get(d["backend"])
        if c is not None and c.prefix is not False:
            d["config"] = configs.fields(c)
            d["detail"] = f"[{c.doc}] {d['detail']}"
        raise Violation(d, info, f"configuration {d['backend']}: {d['detail']}"[:4000])
    return info


def replayed(prop, seed, replay, make, **over):
    """Runs a replay file on the configurations it names."""
    want = json.load(open(replay))
    if want.get("config"):
        c = configs.again(want["backend"].rsplit("-", 1)[0], want["config"])
        matrix.BY_NAME[c.name] = c
        prepare(c, exact=prop == "C19")
    names = [n for n in (want["backend"], want.get("other")) if n]
    code, text = run_driver(make_job(prop, seed, make([matrix.BY_NAME[n] for n in names]), **over), replay)
    if code == 1:
        raise Violation(None, None, text.strip())
    if code:
        raise Error(text)
    return {}


def prepare(c, exact=False):
    """Makes a generated configuration known and decides how it runs; False if it cannot run here."""
    matrix.BY_NAME[c.name] = c
    c.prefix = configs.run_prefix(c, exact)
    return c.prefix is not None


def decide(prop, tier, seed, replay, notes):
    if replay:
        return replayed(prop, seed, replay, lambda cfgs: backends(cfgs, notes))
    info = None
    todo = list(stages(prop, tier, seed, notes))
    for k in range(max(t[2] for t in todo) if tier == "thorough" else 1):
        for bs, over, rounds in todo:
            if bs and k < (rounds if tier == "thorough" else 1):
                job = make_job(prop, (seed + 0x9E3779B97F4A7C15 * k) & (2**63 - 1), bs, **over)
                info = one_job(prop, job, info, notes)
    return info
