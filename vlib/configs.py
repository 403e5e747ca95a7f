"""Generated build configurations: target, toolchain, target features or CPU, Cargo features, optimisation; and what the
documentation promises for each."""
import functools, hashlib, random, subprocess
from . import build, matrix
from .matrix import A64, NIGHTLY, STABLE, X86, Cfg, q

I686, ARM, ARMEB = "i686-unknown-linux-gnu", "armv7-unknown-linux-gnueabihf", "armeb-unknown-linux-gnueabi"
RV64, RV32 = "riscv64gc-unknown-linux-gnu", "riscv32gc-unknown-linux-gnu"
PPC, S390X, A64BE = "powerpc-unknown-linux-gnu", "s390x-unknown-linux-gnu", "aarch64_be-unknown-linux-gnu"

# targets whose programs run here, with the frequency of their generation
RUNNABLE = {X86: 34, A64: 14, I686: 10, ARM: 10, RV64: 10, RV32: 10, ARMEB: 3, PPC: 3, S390X: 3, A64BE: 4}
# targets for which the library and the API program are compiled only
COMPILED = ["x86_64-unknown-none", "x86_64-pc-windows-msvc", "x86_64-unknown-linux-gnux32", "i586-unknown-linux-gnu", "aarch64-unknown-none",
            "aarch64-apple-darwin", "arm64ec-pc-windows-msvc", "aarch64-unknown-linux-gnu_ilp32", "aarch64_be-unknown-none-softfloat",
            "armv8r-none-eabihf", "armebv7r-none-eabihf", "thumbv8m.main-none-eabihf", "thumbv6m-none-eabi",
            "thumbv7neon-unknown-linux-gnueabihf", "armv5te-unknown-linux-gnueabi", "riscv32imac-unknown-none-elf",
            "riscv64gc-unknown-none-elf", "riscv32e-unknown-none-elf", "mips-unknown-linux-gnu", "mips64-unknown-linux-gnuabi64",
            "sparc64-unknown-linux-gnu", "powerpc64le-unknown-linux-gnu", "loongarch64-unknown-linux-gnu", "msp430-none-elf",
            "m68k-unknown-linux-gnu"]
# the documented implementations and near misses of their conditions
X86_SETS = ["", "+sse4.1,+aes", "+aes", "+sse4.1", "+vaes", "+vaes,+avx512f", "+vaes,+avx512f,+avx512vl", "+avx512f", "+avx2,+aes", "+vaes,+gfni",
            "+avx512f,+aes", "+sse4.2", "+vaes,+avx512vl,+avx512bw", "+aes,+ssse3", "+sse4.1,+pclmulqdq", "+vaes,+sse4.1,+aes"]
X86_MORE = ["sse3", "ssse3", "sse4.2", "avx", "avx2", "pclmulqdq", "gfni", "vpclmulqdq", "bmi1", "bmi2", "sha", "avx512vl", "avx512bw", "fma"]
X86_CPUS = ["native", "x86-64-v2", "x86-64-v3", "x86-64-v4", "westmere", "haswell", "skylake", "icelake-server", "znver2", "znver3", "znver4", "nehalem"]
A64_SETS = ["+aes", "+aes", "-aes", "", "+aes,+sha2", "+aes,+sha3", "+sha2", "+aes,+lse,+rdm"]
A64_CPUS = ["cortex-a53", "cortex-a72", "cortex-a76", "neoverse-n1"]
ARM_SETS = ["+v8,+aes", "+v8,+aes", "+v8,+aes,+neon", "+v8,+aes,+sha2", "+v8,+neon", "+v8", "+aes", ""]
RV_SETS = ["+zkne,+zknd", "+zkne,+zknd", "+zkn", "+zk", "+zkne", "+zknd", "", "+zkne,+zknd,+unaligned-scalar-mem", "+zkne,+zknd,+zbkb",
           "+zkn,+unaligned-scalar-mem", "+unaligned-scalar-mem", "+zkne,+zknd,+zbb,+zba"]


@functools.lru_cache(None)
def resolved(target, toolchain, feats, cpu):
    """The cfg values the compiler derives, or None where it refuses the flags."""
    cmd = ["rustc", "+" + toolchain, "--print", "cfg", "--target", target]
    if feats:
        cmd += ["-Ctarget-feature=" + feats]
    if cpu:
        cmd += ["-Ctarget-cpu=" + cpu]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, env=build.env())
    if r.returncode:
        return None
    return frozenset(r.stdout.split("\n"))


def flags(c):
    return resolved(c.target, c.toolchain, c.feats, c.cpu)


def features(c):
    return {x[16:-1] for x in flags(c) if x.startswith('target_feature="')}


def expected(c):
    """What the README says this configuration uses: ((class of AES instructions for 1, 2, 4 blocks), accelerated)."""
    f, fs, nightly = flags(c), features(c), "nightly" in c.crate
    arch = next(x[13:-1] for x in f if x.startswith('target_arch="'))
    little = 'target_endian="little"' in f
    if arch in ("x86", "x86_64") and {"sse4.1", "aes"} <= fs:
        w2 = 2 if nightly and "vaes" in fs else 1
        w4 = 3 if nightly and {"vaes", "avx512f"} <= fs else w2
        return (1, w2, w4), True
    if little and "aes" in fs and (arch in ("aarch64", "arm64ec") or (arch == "arm" and nightly and "v8" in fs)):
        return (4, 4, 4), True
    if nightly and {"zkne", "zknd"} <= fs and arch in ("riscv64", "riscv32"):
        c_ = 5 if arch == "riscv64" else 6
        return (c_, c_, c_), True
    return (0, 0, 0), False


def allowed(c):
    """Bit mask of the classes of AES instructions the target features permit."""
    fs = features(c)
    m = 0
    if "aes" in fs:
        m |= 1 << 1 | 1 << 4
    if "vaes" in fs:
        m |= 1 << 2
        if "avx512f" in fs:
            m |= 1 << 3
    if {"zkne"} & fs or {"zknd"} & fs:
        m |= 1 << 5 | 1 << 6
    return m


# cpuinfo's names of features
KERNEL = {"sse3": "pni", "sse4.1": "sse4_1", "sse4.2": "sse4_2", "cmpxchg16b": "cx16", "lzcnt": "abm", "lahfsahf": "lahf_lm", "sha": "sha_ni",
          "avx512vnni": "avx512_vnni", "avx512bitalg": "avx512_bitalg", "avx512vbmi2": "avx512_vbmi2", "avx512vpopcntdq": "avx512_vpopcntdq",
          "avx512bf16": "avx512_bf16", "avx512fp16": "avx512_fp16", "avxvnni": "avx_vnni", "rdrand": "rdrand", "x87": "fpu", "prfchw": "3dnowprefetch"}


def on_host(c):
    have = matrix.host_flags()
    return all(KERNEL.get(f, f) in have for f in features(c))


# features that allow instructions, by qemu's name; the others compilers do not make use of, or qemu always has them
QEMU_X86 = {"sse3": "pni", "ssse3": "ssse3", "sse4.1": "sse4.1", "sse4.2": "sse4.2", "aes": "aes", "avx": "avx", "avx2": "avx2", "vaes": "vaes",
            "pclmulqdq": "pclmulqdq", "bmi1": "bmi1", "bmi2": "bmi2", "fma": "fma", "f16c": "f16c", "movbe": "movbe", "popcnt": "popcnt",
            "lzcnt": "abm", "sha": "sha-ni", "adx": "adx", "cmpxchg16b": "cx16", "lahfsahf": "lahf-lm", "sse4a": "sse4a", "xsave": "xsave"}


def exact_x86(c):
    """A processor that has the features of the configuration and no others, or None if qemu cannot be one."""
    fs = features(c)
    if any(f.startswith(("avx512", "avx10", "gfni")) for f in fs):
        return None
    fs = fs | ({"xsave"} if "avx" in fs else set()) | ({"bmi1"} if "bmi2" in fs else set())  # qemu counts bzhi, shlx... as bmi1
    names = [QEMU_X86[f] for f in sorted(fs) if f in QEMU_X86]
    return "qemu64,-svm,-abm,-sse4a,-3dnow,-3dnowext," + ",".join("+" + n for n in names)


def arm_cpu(c, exact):
    """An ARMv8.0 processor with the cryptographic extension if the configuration asks for no more."""
    if exact and features(c) <= {"aes", "sha2", "neon", "fp-armv8", "crc", "outline-atomics"}:
        c.exact = True
        return "cortex-a57"
    return "max"


def run_prefix(c, exact):
    """How to run: with exactly the features of the configuration if asked for and possible."""
    if c.target in (X86, I686):
        cpu = exact_x86(c)
        if exact and cpu:
            c.exact = True
            return ["qemu-x86_64" if c.target == X86 else "qemu-i386", "-cpu", cpu]
        if on_host(c):
            return []
        return ["qemu-x86_64" if c.target == X86 else "qemu-i386", "-cpu", "max"] if cpu else None
    fs = features(c)
    if c.target == A64:
        lib = [] if c.nostd else ["-L", "/usr/aarch64-linux-gnu"]
        return ["qemu-aarch64"] + lib + ["-cpu", arm_cpu(c, exact)]
    if c.target == ARM:
        return ["qemu-arm", "-cpu", "max" if {"v8", "aes", "sha2"} & fs else "cortex-a15"]
    if c.target in (RV64, RV32):
        known = [f for f in fs if f in ("zkne", "zknd", "zknh", "zbkb", "zbkc", "zbkx", "zba", "zbb", "zbs", "zkr", "zkt")]
        n = "rv64" if c.target == RV64 else "rv32"
        if not exact and {x[1:] for x in c.feats.split(",")} - set(known) - {"", "zk", "zkn", "unaligned-scalar-mem"}:
            return ["qemu-riscv" + n[2:], "-cpu", "max"]
        c.exact = exact
        off = [f + "=false" for f in ("zba", "zbb", "zbc", "zbs") if f not in fs] if exact else []
        return ["qemu-riscv" + n[2:], "-cpu", ",".join([n] + off + [f + "=true" for f in sorted(known)])]
    return {ARMEB: ["qemu-armeb", "-cpu", "max"], PPC: ["qemu-ppc"], S390X: ["qemu-s390x"], A64BE: ["qemu-aarch64_be", "-cpu", arm_cpu(c, exact) if c.target == A64BE else ""]}[c.target]


def make(prefix, target, toolchain=NIGHTLY, feats="", cpu="", crate=(), profile="release", opt="", extra=()):
    """A configuration with a name derived from what it is. Without a prebuilt library for the target it is no_std."""
    nostd = not (toolchain != NIGHTLY and target in (X86, A64))
    key = repr((target, toolchain, feats, cpu, tuple(crate), profile, opt, tuple(extra)))
    c = Cfg(f"{prefix}-{hashlib.sha256(key.encode()).hexdigest()[:12]}", target=target, toolchain=toolchain, feats=feats, crate=crate,
            profile=profile, nostd=nostd, main=False, doc=describe(target, toolchain, feats, cpu, crate, profile, opt, extra), opt=opt,
            cpu=cpu, extra=extra)
    return c


def describe(target, toolchain, feats, cpu, crate, profile, opt, extra):
    return " ".join(x for x in [target, toolchain, feats, "cpu=" + cpu if cpu else "", "features=" + ",".join(crate) if crate else "", profile,
                                "opt-level=" + opt if opt else "", *extra] if x)


def fields(c):
    """What a replay file has to say to make the configuration again."""
    return dict(target=c.target, toolchain=c.toolchain, feats=c.feats, cpu=c.cpu, crate=list(c.crate), profile=c.profile, opt=c.opt, extra=list(c.extra))


def again(prefix, f):
    return make(prefix, **f)


def feature_flags(r, target):
    """(target features, cpu)"""
    if "x86" in target or target.startswith(("i686", "i586")):
        if target.startswith("i586") or target == "x86_64-unknown-none":
            return "", ""
        if r.random() < 0.25:
            return "", r.choice([c for c in X86_CPUS if target != I686 or not c.startswith("x86-64-")])
        fs = r.choice(X86_SETS)
        if r.random() < 0.4:
            fs = ",".join(x for x in [fs, *("+" + m for m in r.sample(X86_MORE, r.randint(1, 3)))] if x)
        return fs, ""
    if target.startswith(("aarch64", "arm64ec")):
        if target.endswith("softfloat"):
            return "", ""
        if r.random() < 0.2 and target in (A64, A64BE):
            return "", r.choice(A64_CPUS)
        return r.choice(A64_SETS), ""
    if target == ARM or target.startswith(("armeb-", "armv8r", "thumbv7neon")):
        return r.choice(ARM_SETS), ""
    if target.startswith(("riscv64", "riscv32")):
        return r.choice(RV_SETS), ""
    return "", ""


def generate(r, prefix, runnable):
    """One configuration."""
    while True:
        if runnable:
            target = r.choices(list(RUNNABLE), list(RUNNABLE.values()))[0]
        else:
            target = r.choice(COMPILED)
        stable = target in (X86, A64) and r.random() < 0.4
        toolchain = STABLE if stable else NIGHTLY
        feats, cpu = feature_flags(r, target)
        crate = []
        if not stable and r.random() < 0.75:
            crate.append("nightly")
        if r.random() < 0.4:
            crate.append("constant-time")
        profile = "dev" if r.random() < 0.25 else "release"
        opt = r.choice(["", "", "", "s", "1", "2", "z"]) if profile == "release" else r.choice(["", "", "1"])
        extra = []
        if r.random() < 0.25:
            extra.append(r.choice(["-Coverflow-checks=on", "-Cdebug-assertions=on", "-Ccodegen-units=1", "-Cdebuginfo=2"]))
        c = make(prefix, target, toolchain, feats, cpu, crate, profile, opt, extra)
        if flags(c) is not None:
            return c


def simpler(c):
    """The same configuration with one ingredient less."""
    f = fields(c)
    for k, v in (("extra", []), ("opt", ""), ("profile", "release")):
        if f[k] != v:
            yield {**f, k: v}
    for x in f["crate"]:
        yield {**f, "crate": [y for y in f["crate"] if y != x]}
    parts = [x for x in f["feats"].split(",") if x]
    for x in parts:
        yield {**f, "feats": ",".join(y for y in parts if y != x)}
    if f["cpu"]:
        yield {**f, "cpu": ""}
