"""Checks with machinery of their own: traces (C17, C21) and generated build configurations (C19, C21)."""
import os, random, shutil
from . import build, configs, disasm, hints, matrix, search
from .report import Error, Violation


def trace_backends(cfgs, notes, constant=lambda c: True, aes=lambda c: [0, 0, 0], allowed=lambda c: 255, seeds=lambda c: ""):
    by = {c.name: c for c in cfgs}
    out = []
    for b in search.backends(cfgs, notes):
        c = by[b["name"]]
        arch = disasm.arch_of(c.target)
        arch = "i386" if c.target.startswith("i686") else "rv" if arch in ("rv64", "rv32") else arch
        if len(b["cmd"]) == 1 and not can_trace():
            notes.append(f"configuration {c.name}: processes cannot be traced here; left out")
            continue
        b["trace"] = {"arch": arch, "table": disasm.table(c, build.agent_path(c)[1]), "constant": constant(c), "aes": aes(c), "allowed": allowed(c),
                      "seeds": seeds(c)}
        out.append(b)
    return out


_TRACE = None


def can_trace():
    """May a process here trace its own child?"""
    global _TRACE
    if _TRACE is None:
        import ctypes
        pid = os.fork()
        if pid == 0:
            libc = ctypes.CDLL(None, use_errno=True)
            libc.ptrace.restype = ctypes.c_long
            os._exit(0 if libc.ptrace(0, 0, None, None) == 0 else 1)
        _TRACE = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 0
    return _TRACE


def trace_job(prop, seed, bs, **over):
    j = dict(mode="trace", chunk=10, variants=3, scratch=os.path.join(build.WORK, "jobs"), programs=400)
    j.update(over)
    os.makedirs(j["scratch"], exist_ok=True)
    return search.make_job(prop, seed, bs, **j)


# ---- C17

# relative number of programs: a slow implementation executes many more instructions per operation
C17_WEIGHT = {"ct-tr": 8, "ct-tr-s": 1.6, "ct-tr-1": 1.6, "ct-tr-dev": 1.6, "rv64-ct-s": 1.6, "rv64-ct": 1.6, "rv32-ct": 3.2, "rv32-ct-s": 1.6, "arm-ct": 1.6, "i686-ct-tr": 3.2, "a64-ct-tr": 4.8,
              "ppc-ct": 3.2, "s390x-ct": 3.2, "aesni-tr-dev": 6.4, "neon-tr-s": 16, "rv32": 8, "rv64": 16, "rv64-ua": 16, "arm": 24}


# whose kept programs are traced in which build
C17_SEEDS = {"ct-tr": "ct-cov", "rv32-ct": "ct-cov", "ppc-ct": "ct-cov", "i686-ct-tr": "ct-cov", "aesni-tr": "aesni-cov", "aesni-ct-tr": "aesni-cov", "vaes-tr": "vaes-cov",
             "avx512-tr": "avx512-cov", "i686-avx512": "avx512-cov", "neon-tr": "neon-tr-cov", "arm": "arm-cov", "rv64": "rv64-cov", "rv32": "rv32-cov"}


def guides(bs, notes):
    """The instrumented configurations that these traced ones take programs from."""
    want = {b["trace"]["seeds"] for b in bs}
    return search.instrumented([c for c in matrix.COVER + matrix.COVER_EMULATED if c.name in want], notes)


def c17(tier, seed, replay, notes, t0):
    build.build_driver()
    if replay:
        return search.replayed("C17", seed, replay, lambda cfgs: trace_backends(cfgs, notes))
    bs = trace_backends(matrix.TRACED + [c for c in hints.configurations() if constant(c)], notes, seeds=lambda c: C17_SEEDS.get(c.name, ""))
    for b in bs:
        b["weight"] = round(C17_WEIGHT.get(b["name"], 32) * 10)
    cover = guides(bs, notes)
    info = None
    for k in range(12 if tier == "thorough" else 1):
        s = (seed + 0x9E3779B97F4A7C15 * k) & (2**63 - 1)
        if tier == "thorough":
            # whatever a build may be
            more = [c for c in generated("C17", s, 40, True, []) if constant(c) and search.prepare(c)]
            few = trace_backends(more, notes)
            for b in few:
                b["weight"] = 16 if not configs.expected(matrix.BY_NAME[b["name"]])[1] else 80
            info = search.one_job("C17", trace_job("C17", s, few, programs=30), info, notes)
            info["configurations"] = info.get("configurations", 0) + len(few)
            forget(more)
        job = trace_job("C17", s, bs, programs=30, cover=cover, cover_programs=40000, cover_keep=120)
        info = search.one_job("C17", job, info, notes)
    return info


# ---- C21

DOCUMENTED = [  # one configuration per line of the README, with and without the constant-time feature
    dict(target=configs.X86, toolchain=matrix.STABLE), dict(target=configs.X86, toolchain=matrix.STABLE, feats="+sse4.1,+aes"),
    dict(target=configs.X86, toolchain=matrix.STABLE, feats="+vaes"), dict(target=configs.X86, toolchain=matrix.STABLE, feats="+vaes,+avx512f"),
    dict(target=configs.X86, feats="+sse4.1,+aes"), dict(target=configs.X86, feats="+aes"), dict(target=configs.X86, feats="+sse4.1"),
    dict(target=configs.X86, feats="+sse4.1,+aes", crate=["nightly"]), dict(target=configs.X86, feats="+vaes", crate=["nightly"]),
    dict(target=configs.X86, feats="+vaes,+avx512f", crate=["nightly"]), dict(target=configs.X86, feats="+aes,+avx512f", crate=["nightly"]),
    dict(target=configs.X86, cpu="native", crate=["nightly"]), dict(target=configs.X86, cpu="native", toolchain=matrix.STABLE),
    dict(target=configs.I686, feats="+sse4.1,+aes"), dict(target=configs.I686, feats="+vaes", crate=["nightly"]),
    dict(target=configs.I686, feats="+vaes,+avx512f", crate=["nightly"]),
    dict(target=configs.A64, toolchain=matrix.STABLE, feats="+aes"), dict(target=configs.A64, feats="+aes", crate=["nightly"]),
    dict(target=configs.A64, feats="-aes"), dict(target=configs.A64BE, feats="+aes"), dict(target=configs.A64BE, feats="+aes", crate=["nightly"]),
    dict(target=configs.ARM, feats="+v8,+aes", crate=["nightly"]), dict(target=configs.ARM, feats="+v8,+aes"),
    dict(target=configs.ARMEB, feats="+v8,+aes", crate=["nightly"]),
    dict(target=configs.RV64, feats="+zkne,+zknd", crate=["nightly"]), dict(target=configs.RV64, feats="+zkne,+zknd"),
    dict(target=configs.RV64, feats="+zkne,+zknd,+unaligned-scalar-mem", crate=["nightly"]),
    dict(target=configs.RV64, feats="+zkne", crate=["nightly"]), dict(target=configs.RV64, feats="+zknd", crate=["nightly"]),
    dict(target=configs.RV32, feats="+zkne,+zknd", crate=["nightly"]), dict(target=configs.RV32, feats="+zkne,+zknd"),
    dict(target=configs.RV32, feats="+zkne", crate=["nightly"]), dict(target=configs.RV32, feats="+zknd", crate=["nightly"]),
    dict(target=configs.PPC), dict(target=configs.S390X),
]


def documented(prefix):
    for d in DOCUMENTED:
        yield configs.make(prefix, **d)
        yield configs.make(prefix, **{**d, "crate": [*d.get("crate", []), "constant-time"]})


def generated(prop, seed, count, runnable, fixed):
    """Different configurations, the fixed ones first."""
    r = random.Random(f"{prop}/{seed}/{runnable}")
    have, out = set(), []
    for c in fixed:
        if c.name not in have and configs.flags(c) is not None:
            have.add(c.name)
            out.append(c)
    n = 0
    while n < count:
        c = configs.generate(r, prop, runnable)
        n += 1
        if c.name not in have:
            have.add(c.name)
            out.append(c)
    return out


def forget(cfgs):
    """Removes what was built for generated configurations."""
    for c in cfgs:
        for suffix in ("", ".probe", ".control"):
            shutil.rmtree(os.path.join(build.agents_root(), c.name + suffix), ignore_errors=True)


def constant(c):
    return configs.expected(c)[1] or "constant-time" in c.crate


def c21_seeds(c):
    """Which instrumented configuration selects the implementation that a documented configuration selects."""
    if c.name not in {x.name for x in documented("C21")}:
        return ""
    if not configs.expected(c)[1]:
        return "ct-cov" if constant(c) else ""
    return {(configs.X86, 1): "aesni-cov", (configs.X86, 2): "vaes-cov", (configs.X86, 3): "avx512-cov", (configs.A64, 4): "neon-tr-cov",
            (configs.ARM, 4): "arm-cov", (configs.RV64, 5): "rv64-cov", (configs.RV32, 6): "rv32-cov"}.get((c.target, max(configs.expected(c)[0])), "")


def c21_backends(cfgs, notes):
    return trace_backends(cfgs, notes, constant, lambda c: list(configs.expected(c)[0]), configs.allowed, c21_seeds)


def c21(tier, seed, replay, notes, t0):
    build.build_driver()
    if replay:
        return search.replayed("C21", seed, replay, lambda cfgs: c21_backends(cfgs, notes), mode="trace", lookups=True,
                               scratch=os.path.join(build.WORK, "jobs"))
    info = None
    for k in range(12 if tier == "thorough" else 1):
        s = (seed + 0x9E3779B97F4A7C15 * k) & (2**63 - 1)
        cfgs = generated("C21", s, 40, True, list(documented("C21")) + hints.configurations("C21"))
        cfgs = [c for c in cfgs if search.prepare(c)]
        bs = c21_backends(cfgs, notes)
        slow = {c.name for c in cfgs if not configs.expected(c)[1]}
        for b in bs:
            b["weight"] = 16 if b["name"] in slow else 64
        cover = guides(bs, notes)
        fixed = {c.name for c in documented("C21")}
        missing = [c.doc for c in cfgs if c.name in fixed and c.name not in {b["name"] for b in bs}]
        if len(missing) > len(fixed) // 2:
            raise Error(f"most documented configurations could not be examined: {notes[:6]}")
        job = trace_job("C21", s, bs, programs=8, chunk=2, min=3, max=5, variants=1, crypt_only=True, lookups=True,
                        cover=cover, cover_programs=10000, cover_keep=60)
        info = search.one_job("C21", job, info, notes)
        info["configurations"] = info.get("configurations", 0) + len(bs)
        info["expected"] = {}
        for c in cfgs:
            key = "AES instruction classes %s, %s" % (configs.expected(c)[0], "no secret-indexed lookups" if constant(c) else "lookups permitted")
            info["expected"][key] = info["expected"].get(key, 0) + 1
        if tier == "thorough":
            forget(cfgs)
    return info


# ---- C19

def broken(c, crate):
    """The compiler's output if the library is at fault for a failed build."""
    log = build.compile_lib(c, crate)
    if log is None or build.compile_lib(c, "control") is not None:
        return None
    return log


def smallest(c, prefix, fails):
    """Drops ingredients of a failing configuration as long as it fails."""
    log = fails(c)
    again = True
    while again:
        again = False
        for f in configs.simpler(c):
            d = configs.again(prefix, f)
            if configs.flags(d) is None:
                continue
            new = fails(d)
            if new:
                c, log, again = d, new, True
                break
    return c, log


def agent_broken(c):
    if build.compile_lib(c, "control") is not None:
        return None
    return build.build_agents([c])[c.name][1]


def not_built(c, what, log, info):
    f = configs.fields(c)
    return Violation({"property": "C19", "mode": "build", "backend": c.name, "config": f, "what": what, "detail": log[-6000:]}, info,
                     f"the {what} does not build in [{c.doc}]:\n{log[-2500:]}")


def c19(tier, seed, replay, notes, t0):
    import json
    build.build_driver()
    if replay:
        want = json.load(open(replay))
        if want["mode"] != "build":
            return search.replayed("C19", seed, replay, lambda cfgs: search.backends(cfgs, notes), mode="check")
        c = configs.again("C19", want["config"])
        log = broken(c, "probe") if want["what"] == "API program" else agent_broken(c)
        if log:
            raise Violation(None, None, f"the {want['what']} does not build in [{c.doc}]:\n{log[-2500:]}")
        return {}
    info, built, names, every = None, 0, set(), set()
    for k in range(12 if tier == "thorough" else 1):
        s = (seed + 0x9E3779B97F4A7C15 * k) & (2**63 - 1)
        run = generated("C19", s, 36, True, list(documented("C19")) + hints.configurations("C19"))
        compiled = generated("C19", s, 30, False, [configs.make("C19", t, crate=x) for i, t in enumerate(configs.COMPILED)
                                                    for x in ([[], ["nightly"], ["constant-time"], ["nightly", "constant-time"]][(i + k) % 4],)])
        by = {c.name: c for c in run + compiled}
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [c.doc for c in run[70:76] + compiled[-4:]], "rule": ""}
        for name, log in build.compile_libs(list(by.values()), "probe").items():
            if log is None:
                built += 1
                names.add(name)
            elif broken(by[name], "probe"):
                c, log = smallest(by[name], "C19", lambda c: broken(c, "probe"))
                raise not_built(c, "API program", log, cov)
            else:
                notes.append(f"[{by[name].doc}]: the compiler refuses these flags for any crate")
        todo = [c for c in run if c.name in names]
        for name, (exe, log) in build.build_agents(todo).items():
            if exe is None and agent_broken(by[name]):
                c, log = smallest(by[name], "C19", agent_broken)
                raise not_built(c, "program of public operations", log, cov)
        bs = search.backends([c for c in todo if search.prepare(c, exact=True)], notes)
        for b in bs:
            b["weight"] = 64
        job = search.make_job("C19", s, bs, mode="check", generator="C20", programs=60, min=30, max=60)
        ran = dict(search.one_job("C19", job, None, notes))
        if info:
            ran.pop("samples")
            ran.pop("distinct_nontrivial")
        info = search.merge(info, ran)
        info["configurations_compiled"] = built
        info["configurations_run"] = info.get("configurations_run", 0) + len(bs)
        info["run_on_a_processor_with_exactly_its_features"] = info.get("run_on_a_processor_with_exactly_its_features", 0) + sum(c.exact for c in run)
        every |= {c.doc for c in by.values() if c.name in names}
        info["distinct_nontrivial"] = len([d for d in every if d not in (f"{configs.X86} {matrix.STABLE} release", f"{configs.X86} {matrix.NIGHTLY} release")])
        info["samples"] = cov["samples"] + info["samples"][:3]
        info["configurations"] = sorted(every)[:600]
        if tier == "thorough":
            forget(by.values())
    return info


CHECKS = {"C17": c17, "C19": c19, "C21": c21}


def setup():
    build.build_sysroots(configs.COMPILED + list(configs.RUNNABLE))
    build.build_agents(matrix.TRACED)
    for c in matrix.TRACED:
        exe, _ = build.build_agent(c)
        if exe:
            disasm.table(c, exe)
