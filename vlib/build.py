"""Builds sysroots (once), agents (per content of /repo) and the driver, offline, outside /repo."""
import hashlib, os, shutil, subprocess, sys, time, fcntl, glob, json
from concurrent.futures import ThreadPoolExecutor
from . import matrix

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, "work")
REPO = "/repo"


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC")) and k != "RUSTUP_TOOLCHAIN"}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def run(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


class BuildError(Exception):
    pass


def toolchain_root(tc):
    r = run(["rustc", "+" + tc, "--print", "sysroot"], 60, env=env())
    if r.returncode:
        raise BuildError(r.stdout)
    return r.stdout.strip()


_NIGHTLY_BIN = None


def nightly_bin():
    global _NIGHTLY_BIN
    if _NIGHTLY_BIN is None:
        _NIGHTLY_BIN = os.path.join(toolchain_root(matrix.NIGHTLY), "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    return _NIGHTLY_BIN


def digest(paths):
    h = hashlib.sha256()
    for root in paths:
        files = []
        if os.path.isfile(root):
            files = [root]
        else:
            for d, dirs, fs in os.walk(root):
                dirs[:] = sorted(x for x in dirs if x not in (".git", "target", "work", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in sorted(files):
            h.update(os.path.relpath(f, root).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:20]


def repo_digest():
    return digest([REPO + "/src", REPO + "/Cargo.toml", REPO + "/README.md"])


class lock:
    def __init__(self, name):
        os.makedirs(os.path.join(WORK, "locks"), exist_ok=True)
        self.path = os.path.join(WORK, "locks", name)

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


# ---------------------------------------------------------------- sysroots

def sysroot(target):
    return os.path.join(WORK, "sysroots", target)


def build_sysroot(target):
    """core and compiler_builtins for a target without a prebuilt library, from the toolchain's own sources."""
    done = os.path.join(sysroot(target), ".done")
    with lock("sysroot-" + target):
        if os.path.exists(done):
            return
        base = os.path.join(WORK, "sysroot-build", target)
        src = os.path.join(base, "crate")
        os.makedirs(os.path.join(src, "src"), exist_ok=True)
        with open(os.path.join(src, "Cargo.toml"), "w") as f:
            f.write('[package]\nname="bs"\nversion="0.1.0"\nedition="2021"\n[workspace]\n[lib]\npath="src/lib.rs"\n')
        with open(os.path.join(src, "src/lib.rs"), "w") as f:
            f.write("#![no_std]\n")
        r = run(["cargo", "+" + matrix.NIGHTLY, "build", "--offline", "--release", "-Zbuild-std=core",
                 "-Zbuild-std-features=compiler-builtins-mem", "--target", target, "--target-dir", base + "/t"],
                900, cwd=src, env=env())
        if r.returncode:
            raise BuildError(f"core for {target}:\n{r.stdout}")
        lib = os.path.join(sysroot(target), "lib/rustlib", target, "lib")
        os.makedirs(lib, exist_ok=True)
        found = 0
        pats = [f"{base}/t/{target}/release/deps", f"{base}/t/{target}/release/build"]
        for d in pats:
            for dd, _, fs in os.walk(d):
                for f in fs:
                    if f.endswith((".rlib", ".rmeta")) and f.startswith(("libcore-", "libcompiler_builtins-")):
                        shutil.copy(os.path.join(dd, f), lib)
                        found += 1
        if found < 4:
            raise BuildError(f"core for {target}: libraries not found")
        open(done, "w").write("ok")
        shutil.rmtree(base, ignore_errors=True)


SANITIZER = {"asan": "address", "msan": "memory", "tsan": "thread"}


def sanitizer_sysroot(kind):
    """A standard library compiled with the sanitizer, for the host target."""
    done = os.path.join(sysroot(kind), ".done")
    with lock("sysroot-" + kind):
        if os.path.exists(done):
            return
        base = os.path.join(WORK, "sysroot-build", kind)
        src = os.path.join(base, "crate")
        os.makedirs(os.path.join(src, "src"), exist_ok=True)
        with open(os.path.join(src, "Cargo.toml"), "w") as f:
            f.write('[package]\nname="bs"\nversion="0.1.0"\nedition="2021"\n[workspace]\n[lib]\npath="src/lib.rs"\n')
        with open(os.path.join(src, "src/lib.rs"), "w") as f:
            f.write("")
        r = run(["cargo", "+" + matrix.NIGHTLY, "build", "--offline", "--release", "-Zbuild-std=std,panic_unwind", "--target", matrix.X86,
                 "--target-dir", base + "/t"], 900, cwd=src, env=env(RUSTFLAGS="-Zsanitizer=" + SANITIZER[kind]))
        if r.returncode:
            raise BuildError(f"std for {kind}:\n{r.stdout}")
        lib = os.path.join(sysroot(kind), "lib/rustlib", matrix.X86, "lib")
        os.makedirs(lib, exist_ok=True)
        for dd, _, fs in os.walk(f"{base}/t/{matrix.X86}/release"):
            for f in fs:
                if f.endswith((".rlib", ".rmeta")) and not f.startswith("libbs"):
                    shutil.copy(os.path.join(dd, f), lib)
        for f in glob.glob(os.path.join(toolchain_root(matrix.NIGHTLY), "lib/rustlib", matrix.X86, "lib", f"*rt.{kind}.a")):
            shutil.copy(f, lib)
        open(done, "w").write("ok")
        shutil.rmtree(base, ignore_errors=True)


def build_sysroots(targets):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(build_sysroot, targets))


# ---------------------------------------------------------------- agents

COV_FLAGS = {"riscv64gc-unknown-linux-gnu": ["--target=riscv64-unknown-linux-gnu", "-march=rv64gc", "-mabi=lp64d", "-mno-relax"],
             "riscv32gc-unknown-linux-gnu": ["--target=riscv32-unknown-linux-gnu", "-march=rv32gc", "-mabi=ilp32d", "-mno-relax"]}


def cov_object(target):
    """What the instrumented agents call, compiled without instrumentation."""
    src = VERIF + "/agent/src/cov.c"
    obj = os.path.join(WORK, f"cov-{target}-{digest([src])}.o")
    with lock("cov-" + target):
        if not os.path.exists(obj):
            os.makedirs(WORK, exist_ok=True)
            flags = COV_FLAGS.get(target, ["--target=" + target])
            r = run(["clang", *flags, "-O2", "-ffreestanding", "-fno-pic", "-fno-stack-protector", "-c", src, "-o", obj + ".tmp"], 120)
            if r.returncode:
                raise BuildError(r.stdout)
            os.rename(obj + ".tmp", obj)
    return obj


# the compiler stores part of a vector in the wrong order there (ld1 {v0.4s} followed by st1 {v0.d}[1]), whatever the source:
# programs are compiled so that it makes no vectors of its own
BIG_ENDIAN_ARM = ("aarch64_be-unknown-linux-gnu", "armeb-unknown-linux-gnueabi")


def cfg_env(c, extra_rustflags=()):
    rf = []
    feats = [c.feats] if c.feats else []
    if not c.nostd and c.target in (matrix.X86, matrix.A64) and c.kind in ("", "cov"):
        # one fixed address space without shared libraries: the tracer sees every instruction
        feats.append("+crt-static")
        rf += ["-Crelocation-model=static"]
    if feats:
        rf += ["-Ctarget-feature=" + ",".join(feats)]
    if c.nostd and c.target not in matrix.LINKED:
        rf += ["--sysroot=" + sysroot(c.target)]
    elif c.nostd:
        rf += ["--sysroot=" + sysroot(c.target), "-Clinker=" + nightly_bin() + "/rust-lld", "-Clinker-flavor=ld.lld",
               "-Crelocation-model=static", "-Cpanic=abort", "-Clink-arg=-static"]
        if c.target == matrix.X86:
            rf += ["-Ccode-model=small"]
        if c.target == "s390x-unknown-linux-gnu":
            rf += ["-Clink-arg=-z", "-Clink-arg=notext"]
    elif c.target == matrix.A64:
        rf += ["-Clinker=aarch64-linux-gnu-gcc"]
    if c.kind in ("asan", "msan", "tsan"):
        rf += ["-Zsanitizer=" + SANITIZER[c.kind]]
        if c.kind != "asan":
            rf += ["--sysroot=" + sysroot(c.kind)]
    if c.kind == "cov":
        rf += ["-Cpasses=sancov-module", "-Cllvm-args=-sanitizer-coverage-level=3", "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters",
               "-Cllvm-args=-sanitizer-coverage-trace-compares", "-Cllvm-args=-max-loads-per-memcmp=0", "-Ccodegen-units=1",
               "-Clink-arg=" + cov_object(c.target)]
        rf += ["-Clink-arg=" + ("" if c.nostd else "-Wl,") + "--wrap=" + f for f in ("memcmp", "bcmp")]
    if c.cpu:
        rf += ["-Ctarget-cpu=" + c.cpu]
    opt = c.opt
    if c.target in BIG_ENDIAN_ARM:
        rf += ["-Cno-vectorize-slp", "-Cno-vectorize-loops"]
        opt = opt or ("" if c.dev else "1")
        opt = opt if opt in ("", "0") else "1"
    rf += list(c.extra) + list(extra_rustflags)
    more = {}
    if opt:
        more["CARGO_PROFILE_" + c.profile.upper() + "_OPT_LEVEL"] = opt
    return env(**more, CARGO_ENCODED_RUSTFLAGS="\x1f".join(rf))


def agents_root():
    return os.path.join(WORK, "agents", repo_digest() + "-" + digest([VERIF + "/agent/src", VERIF + "/agent/Cargo.toml", VERIF + "/probe/src", VERIF + "/vlib/build.py", VERIF + "/vlib/matrix.py"])[:8])


def clean_old_agents(keep):
    top = os.path.join(WORK, "agents")
    if not os.path.isdir(top):
        return
    now = time.time()
    olds = sorted((os.path.getmtime(os.path.join(top, d)), d) for d in os.listdir(top) if os.path.join(top, d) != keep)
    for mt, d in olds[:-2]:
        if now - mt > 1800:
            shutil.rmtree(os.path.join(top, d), ignore_errors=True)


def agent_path(c):
    d = os.path.join(agents_root(), c.name)
    if c.kind == "miri":
        return d, os.path.join(d, "miri", c.target, "debug", "agent")
    return d, os.path.join(d, c.target, "debug" if c.dev else "release", "agent")


MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-tree-borrows"


def miri_sysroot():
    return os.path.join(WORK, "miri-sysroot")


def miri_env():
    root = toolchain_root(matrix.NIGHTLY)
    return {"MIRI_SYSROOT": miri_sysroot(), "MIRIFLAGS": MIRIFLAGS, "RUSTUP_TOOLCHAIN": matrix.NIGHTLY, "CARGO": root + "/bin/cargo"}


def build_miri_sysroot(target):
    done = os.path.join(miri_sysroot(), ".done-" + target)
    with lock("miri-sysroot-" + target):
        if os.path.exists(done):
            return
        os.makedirs(miri_sysroot(), exist_ok=True)
        r = run(["cargo", "+" + matrix.NIGHTLY, "miri", "setup", "--target", target], 900, cwd=VERIF + "/agent", env=env(MIRI_SYSROOT=miri_sysroot()))
        if r.returncode:
            raise BuildError(f"miri sysroot for {target}:\n{r.stdout}")
        open(done, "w").write("ok")


def command(c, exe):
    """(command line, environment additions) that run the agent, or None if nothing here can."""
    if c.kind == "miri":
        e = miri_env()
        return [toolchain_root(matrix.NIGHTLY) + "/bin/cargo-miri", "runner", exe], e
    r = c.prefix if c.prefix is not False else matrix.runner(c)
    if r is None or (c.kind not in ("", "cov") and r):
        return None
    e = {}
    if c.kind == "asan":
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:symbolize=0:detect_stack_use_after_return=1"
    elif c.kind == "msan":
        e["MSAN_OPTIONS"] = "exit_code=99:symbolize=0"
    elif c.kind == "tsan":
        e["TSAN_OPTIONS"] = "exitcode=99:symbolize=0:halt_on_error=1"
    return r + [exe], e


def build_agent(c):
    """Returns (binary, None) or (None, compiler output)."""
    d, exe = agent_path(c)
    os.makedirs(d, exist_ok=True)
    if c.nostd:
        build_sysroot(c.target)
    if c.kind == "miri":
        build_miri_sysroot(c.target)
    if c.kind in ("msan", "tsan"):
        sanitizer_sysroot(c.kind)
    with lock("agent-" + c.name):
        ok, bad = os.path.join(d, ".ok"), os.path.join(d, ".failed")
        if os.path.exists(ok):
            return exe, None
        if os.path.exists(bad):
            return None, open(bad).read()
        feats = list(c.crate) + ([] if c.nostd else ["std"])
        cmd = ["cargo", "+" + c.toolchain] + (["miri", "run"] if c.kind == "miri" else ["build"])
        cmd += ["--offline", "--locked", "--target", c.target, "--target-dir", d]
        e = cfg_env(c)
        if c.kind == "miri":
            e.update(miri_env())
            e.pop("RUSTUP_TOOLCHAIN")
            e.pop("CARGO")
        elif not c.dev:
            cmd.append("--release")
        if feats:
            cmd += ["--features", ",".join(feats)]
        r = run(cmd, 900, cwd=VERIF + "/agent", env=e, stdin=subprocess.DEVNULL)
        if r.returncode:
            open(bad, "w").write(r.stdout)
            return None, r.stdout
        if c.kind == "miri":
            open(ok, "w").write("ok")
            return exe, None
        # only the binary is kept
        for p in glob.glob(os.path.join(d, c.target, "*", "*")) + glob.glob(os.path.join(d, "release")) + glob.glob(os.path.join(d, "debug")):
            if p != exe:
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)
        open(ok, "w").write("ok")
        return exe, None


def compile_lib(c, crate):
    """Compiles a library crate of this directory (probe or control) in a configuration: None, or the compiler's output."""
    d = os.path.join(agents_root(), c.name + "." + crate)
    if c.nostd:
        build_sysroot(c.target)
    with lock(f"{crate}-{c.name}"):
        ok, bad = os.path.join(d, ".ok"), os.path.join(d, ".failed")
        if os.path.exists(ok):
            return None
        if os.path.exists(bad):
            return open(bad).read()
        os.makedirs(d, exist_ok=True)
        cmd = ["cargo", "+" + c.toolchain, "build", "--offline", "--locked", "--target", c.target, "--target-dir", d + "/t"]
        if not c.dev:
            cmd.append("--release")
        if c.crate:
            cmd += ["--features", ",".join(c.crate)]
        r = run(cmd, 600, cwd=os.path.join(VERIF, crate), env=cfg_env(c), stdin=subprocess.DEVNULL)
        shutil.rmtree(d + "/t", ignore_errors=True)
        open(bad if r.returncode else ok, "w").write(r.stdout)
        return r.stdout if r.returncode else None


def compile_libs(cfgs, crate):
    os.makedirs(agents_root(), exist_ok=True)
    clean_old_agents(agents_root())
    with ThreadPoolExecutor(8) as ex:
        return dict(zip([c.name for c in cfgs], ex.map(lambda c: compile_lib(c, crate), cfgs)))


def build_agents(cfgs):
    os.makedirs(agents_root(), exist_ok=True)
    clean_old_agents(agents_root())
    with ThreadPoolExecutor(8) as ex:
        return dict(zip([c.name for c in cfgs], ex.map(build_agent, cfgs)))


# ---------------------------------------------------------------- driver

def build_driver():
    d = os.path.join(WORK, "driver-target")
    with lock("driver"):
        r = run(["cargo", "+" + matrix.STABLE, "build", "--offline", "--locked", "--release", "--target-dir", d], 900,
                cwd=VERIF + "/driver", env=env())
        if r.returncode:
            raise BuildError("driver:\n" + r.stdout)
    return os.path.join(d, "release", "driver")
