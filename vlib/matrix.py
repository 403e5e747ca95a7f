"""The build configurations (backends) of the library that the checks run."""
import os, subprocess, functools

X86 = "x86_64-unknown-linux-gnu"
A64 = "aarch64-unknown-linux-gnu"
STABLE = "1.99.1"
NIGHTLY = "nightly"


class Cfg:
    def __init__(self, name, target=X86, toolchain=STABLE, feats="", crate=(), profile="release", nostd=False,
                 runner=(), needs=(), main=True, doc="", kind="", opt="",
                 cpu="", extra=()):
        self.name, self.target, self.toolchain, self.feats = name, target, toolchain, feats
        self.crate, self.profile, self.nostd, self.runner = tuple(crate), profile, nostd, tuple(runner)
        self.needs, self.main, self.doc = tuple(needs), main, doc
        self.cpu, self.extra = cpu, tuple(extra)
        self.exact = False  # does it run on a processor without any features but its own
        self.prefix = False  # how to run it, where runner() does not know
        self.opt = opt  # optimisation level other than the profile's
        self.kind = kind  # "", or the instrument the agent runs under: asan, msan, tsan, miri

    @property
    def dev(self):
        return self.profile == "dev"


def q(*a):
    return ("qemu-" + a[0],) + tuple(a[1:])


NEON = q("aarch64", "-L", "/usr/aarch64-linux-gnu", "-cpu", "max")


def both(name, **kw):
    main = kw.pop("main", True)
    return [Cfg(name, main=main, **kw), Cfg(name + "-dev", profile="dev", main=main, **kw)]


CFGS = []
# table-based and constant-time fallbacks, 64-bit little-endian
CFGS += both("sw", doc="table-based")
CFGS += both("ct", crate=["constant-time"], doc="bit-sliced constant-time")
# x86-64 accelerated
CFGS += both("aesni", feats="+sse4.1,+aes", needs=["aes", "sse4_1"], doc="AES-NI")
CFGS += both("vaes", toolchain=NIGHTLY, feats="+vaes", crate=["nightly"], needs=["vaes"], doc="AES-NI + VAES")
CFGS += both("avx512", toolchain=NIGHTLY, feats="+vaes,+avx512f", crate=["nightly"], needs=["vaes", "avx512f"],
             doc="AES-NI + VAES + AVX-512F")
# combinations that select another implementation than their parts suggest
CFGS += [Cfg("aesni-ct", feats="+sse4.1,+aes", crate=["constant-time"], needs=["aes", "sse4_1"],
             doc="constant-time with AES-NI: AES-NI")]
CFGS += [Cfg("vaes-nonightly", feats="+vaes", needs=["vaes"], doc="VAES flag without the nightly feature: AES-NI")]
CFGS += [Cfg("native-nightly", toolchain=NIGHTLY, feats="+sse4.1,+aes,+avx512f,+avx2", crate=["nightly"],
             needs=["aes", "avx512f"], doc="AVX-512F without VAES, nightly: AES-NI")]
# AArch64
CFGS += both("neon", target=A64, feats="+aes", runner=NEON, doc="AArch64 AES")
CFGS += [Cfg("a64-sw", target=A64, feats="-aes", runner=NEON, doc="AArch64 without AES: table-based")]
# targets without a prebuilt standard library: core is built by setup, the agent is no_std
CFGS += both("arm", target="armv7-unknown-linux-gnueabihf", toolchain=NIGHTLY, feats="+v8,+aes", crate=["nightly"],
             nostd=True, runner=q("arm", "-cpu", "max"), main=False, doc="ARMv8 (32-bit) AES")
CFGS += both("rv64", target="riscv64gc-unknown-linux-gnu", toolchain=NIGHTLY, feats="+zkne,+zknd", crate=["nightly"],
             nostd=True, runner=q("riscv64", "-cpu", "rv64,zk=true"), main=False, doc="RV64 zkne+zknd")
CFGS += both("rv32", target="riscv32gc-unknown-linux-gnu", toolchain=NIGHTLY, feats="+zkne,+zknd", crate=["nightly"],
             nostd=True, runner=q("riscv32", "-cpu", "rv32,zk=true"), main=False, doc="RV32 zkne+zknd")
CFGS += [Cfg("rv64-ua", target="riscv64gc-unknown-linux-gnu", toolchain=NIGHTLY,
             feats="+zkne,+zknd,+unaligned-scalar-mem", crate=["nightly"], nostd=True,
             runner=q("riscv64", "-cpu", "rv64,zk=true"), main=False, doc="RV64 with fast unaligned access"),
         Cfg("rv64-nofeat", target="riscv64gc-unknown-linux-gnu", toolchain=NIGHTLY, feats="+zkne,+zknd", nostd=True,
             runner=q("riscv64", "-cpu", "rv64,zk=true"), main=False,
             doc="RV64 zkne+zknd without the nightly feature: table-based")]
CFGS += [Cfg("i686-aesni", target="i686-unknown-linux-gnu", toolchain=NIGHTLY, feats="+sse4.1,+aes", nostd=True,
             needs=["aes", "sse4_1"], main=False, doc="32-bit x86 AES-NI"),
         Cfg("i686-avx512", target="i686-unknown-linux-gnu", toolchain=NIGHTLY, feats="+vaes,+avx512f",
             crate=["nightly"], nostd=True, needs=["vaes", "avx512f"], main=False, doc="32-bit x86 VAES + AVX-512F"),
         Cfg("i686-ct", target="i686-unknown-linux-gnu", toolchain=NIGHTLY, crate=["constant-time"], nostd=True,
             main=False, doc="32-bit x86 constant-time")]
CFGS += [Cfg("ppc-sw", target="powerpc-unknown-linux-gnu", toolchain=NIGHTLY, nostd=True, runner=q("ppc"),
             main=False, doc="32-bit big-endian table-based"),
         Cfg("ppc-ct", target="powerpc-unknown-linux-gnu", toolchain=NIGHTLY, crate=["constant-time"], nostd=True,
             runner=q("ppc"), main=False, doc="32-bit big-endian constant-time"),
         Cfg("s390x-sw", target="s390x-unknown-linux-gnu", toolchain=NIGHTLY, nostd=True, runner=q("s390x"),
             main=False, doc="64-bit big-endian table-based"),
         Cfg("s390x-ct", target="s390x-unknown-linux-gnu", toolchain=NIGHTLY, crate=["constant-time"], nostd=True,
             runner=q("s390x"), main=False, doc="64-bit big-endian constant-time"),
         Cfg("a64be", target="aarch64_be-unknown-linux-gnu", toolchain=NIGHTLY, feats="+aes", crate=["nightly"],
             nostd=True, runner=q("aarch64_be", "-cpu", "max"), main=False,
             doc="big-endian AArch64 with AES: table-based")]
# the same implementations as other flags, optimisation levels and widths compile them
CFGS += [Cfg("sw-v3", cpu="x86-64-v3", needs=["avx2", "bmi2"], main=False, doc="table-based on x86-64-v3"),
         Cfg("ct-s", crate=["constant-time"], opt="s", main=False, doc="bit-sliced constant-time, small code"),
         Cfg("aesni-native", feats="+sse4.1,+aes", cpu="native", needs=["aes", "sse4_1"], main=False, doc="AES-NI, flags of this machine"),
         Cfg("aesni-1", feats="+sse4.1,+aes", needs=["aes", "sse4_1"], opt="1", main=False, doc="AES-NI, less optimisation"),
         Cfg("vaes-s", toolchain=NIGHTLY, feats="+vaes", crate=["nightly"], needs=["vaes"], opt="s", main=False, doc="AES-NI + VAES, small code"),
         Cfg("i686-sw", target="i686-unknown-linux-gnu", toolchain=NIGHTLY, nostd=True, main=False, doc="32-bit x86 table-based"),
         Cfg("arm-sw", target="armv7-unknown-linux-gnueabihf", toolchain=NIGHTLY, nostd=True, runner=q("arm"), main=False, doc="32-bit Arm table-based"),
         Cfg("rv32-ct", target="riscv32gc-unknown-linux-gnu", toolchain=NIGHTLY, crate=["constant-time"], nostd=True, runner=q("riscv32"),
             main=False, doc="RV32 constant-time"),
         Cfg("a64-ct", target=A64, feats="-aes", crate=["constant-time"], runner=NEON, main=False, doc="AArch64 constant-time")]
# agents of the tracer only: without the standard library an emulated start is short
def tr(name, target, feats="", crate=(), runner=(), doc="", **kw):
    return Cfg(name, target=target, toolchain=NIGHTLY, feats=feats, crate=crate, nostd=True, runner=runner, main=False, doc=doc, **kw)


A64RUN = q("aarch64", "-cpu", "max")
TRACE_ONLY = [tr("ct-tr", X86, crate=["constant-time"], runner=q("x86_64"), doc="bit-sliced constant-time"),
              tr("ct-tr-s", X86, crate=["constant-time"], runner=q("x86_64"), opt="s", doc="bit-sliced constant-time, small code"),
              tr("ct-tr-1", X86, crate=["constant-time"], runner=q("x86_64"), opt="1", doc="bit-sliced constant-time, less optimisation"),
              tr("ct-tr-dev", X86, crate=["constant-time"], runner=q("x86_64"), profile="dev", doc="bit-sliced constant-time, no optimisation"),
              tr("aesni-tr-dev", X86, "+sse4.1,+aes", needs=["aes"], profile="dev", doc="AES-NI, no optimisation"),
              tr("neon-tr-s", A64, "+aes", runner=A64RUN, opt="s", doc="AArch64 AES, small code"),
              tr("rv64-ct-s", "riscv64gc-unknown-linux-gnu", crate=["constant-time"], runner=q("riscv64"), opt="s",
                 doc="RV64 without AES, constant-time, small code"),
              tr("rv32-ct-s", "riscv32gc-unknown-linux-gnu", crate=["constant-time"], runner=q("riscv32"), opt="s",
                 doc="RV32 without AES, constant-time, small code"),
              tr("rv64-ct", "riscv64gc-unknown-linux-gnu", crate=["constant-time"], runner=q("riscv64"), doc="RV64 without AES, constant-time"),
              tr("arm-ct", "armv7-unknown-linux-gnueabihf", crate=["constant-time"], runner=q("arm"), doc="32-bit Arm constant-time"),
              tr("i686-ct-tr", "i686-unknown-linux-gnu", crate=["constant-time"], runner=q("i386"), doc="32-bit x86 constant-time"),
              tr("aesni-tr", X86, "+sse4.1,+aes", needs=["aes"], doc="AES-NI"),
              tr("vaes-tr", X86, "+vaes", ["nightly"], needs=["vaes"], doc="AES-NI + VAES"),
              tr("avx512-tr", X86, "+vaes,+avx512f", ["nightly"], needs=["vaes", "avx512f"], doc="AES-NI + VAES + AVX-512F"),
              tr("aesni-ct-tr", X86, "+sse4.1,+aes", ["constant-time"], needs=["aes"], doc="constant-time with AES-NI"),
              tr("neon-tr", A64, "+aes", runner=A64RUN, doc="AArch64 AES"),
              tr("a64-ct-tr", A64, "-aes", ["constant-time"], A64RUN, "AArch64 constant-time")]
BY_NAME = {c.name: c for c in CFGS + TRACE_ONLY}
NOSTD_TARGETS = sorted({c.target for c in CFGS + TRACE_ONLY if c.nostd})
LINKED = set(NOSTD_TARGETS) | {"armeb-unknown-linux-gnueabi"}  # programs for the others are compiled, not linked
TRACED = [BY_NAME[n] for n in (
    "ct-tr i686-ct-tr a64-ct-tr ppc-ct s390x-ct aesni-tr vaes-tr avx512-tr aesni-ct-tr i686-aesni i686-avx512 neon-tr arm rv64 rv64-ua rv32 "
    "ct-tr-s ct-tr-1 ct-tr-dev rv64-ct-s rv64-ct rv32-ct rv32-ct-s arm-ct neon-tr-s aesni-tr-dev").split()]


# ---- instrumented and threaded agents (native x86-64 unless the target says otherwise)
def derived(kind, names, targets=(), **kw):
    out = []
    for n in names:
        b = BY_NAME[n]
        out.append(Cfg(f"{n}-{kind}", target=b.target, toolchain=NIGHTLY if kind != "thr" else b.toolchain, feats=b.feats,
                       crate=b.crate + (("threads",) if kind in ("thr", "tsan", "miri") else ("cov",) if kind == "cov" else ()), profile=b.profile,
                       runner=b.runner if kind in ("thr", "cov") else (), nostd=b.nostd and kind == "cov", needs=b.needs, main=False, kind="" if kind == "thr" else kind,
                       doc=f"{b.doc}, {kind}", **kw))
    return out


THREADED = derived("thr", ["sw", "ct", "aesni", "vaes", "avx512", "neon"])
SANITIZED = derived("asan", ["sw", "ct", "aesni", "vaes", "avx512"]) + derived("msan", ["sw", "ct", "aesni", "vaes", "avx512"])
RACES = derived("tsan", ["sw", "ct", "aesni", "vaes", "avx512"])
# instrumented for coverage-guided search
COVER = derived("cov", ["sw", "ct", "aesni", "vaes", "avx512"])
COVER_EMULATED = derived("cov", ["neon-tr", "arm", "rv64", "rv32", "ppc-sw", "s390x-ct", "i686-avx512"])
# the interpreter knows the x86 instructions; the other accelerated implementations run there without AES steps
MIRI = derived("miri", ["sw", "ct", "aesni", "vaes", "avx512", "i686-aesni", "i686-ct", "s390x-sw", "s390x-ct"])
MIRI_VALUES = derived("miri", ["neon", "rv64", "rv32"])
for _c in THREADED + SANITIZED + RACES + COVER + COVER_EMULATED + MIRI + MIRI_VALUES:
    BY_NAME[_c.name] = _c


@functools.lru_cache(None)
def host_flags():
    for line in open("/proc/cpuinfo"):
        if line.startswith("flags"):
            return frozenset(line.split(":", 1)[1].split())
    return frozenset()


def runner(c):
    """The command prefix that runs a binary of this configuration, or None if nothing here can run it."""
    if c.runner or c.target not in (X86, "i686-unknown-linux-gnu"):
        return list(c.runner)
    have = host_flags()
    if all(n in have for n in c.needs):
        return []
    if "avx512f" in c.needs:
        return None  # qemu does not implement AVX-512
    return ["qemu-x86_64" if c.target == X86 else "qemu-i386", "-cpu", "max"]
