"""Which instructions of an agent access memory, through which registers, and which are AES instructions.

The result is a text file next to the agent, one line per fact, read by driver/src/trace.rs:
  M <addr>                      the agent's mark function
  F <addr> <name>               a function begins
  A <addr> <class> <units>      an AES round instruction; units are sixteenths of a block
  I <addr> <cond> <op>...       memory operands; op = base:index:ext:shift:disp:bits, -1 for no register
ext: 0 the whole register, 1 low 32 bits zero-extended, 2 low 32 bits sign-extended, 3 a vector register
"""
import os, re, subprocess
from . import build, matrix

LINE = re.compile(r"\s*([0-9a-f]+):\s+(\S+)\s*(.*)")
FUNC = re.compile(r"([0-9a-f]+) <(.*)>:$")

X86_REGS = ["ax", "bx", "cx", "dx", "si", "di", "bp", "sp"]
X86 = {}
for _i, _r in enumerate(X86_REGS):
    X86["r" + _r], X86["e" + _r] = (_i, 64), (_i, 32)
for _i in range(8, 16):
    X86[f"r{_i}"], X86[f"r{_i}d"] = (_i, 64), (_i, 32)
X86_OP = re.compile(r"(%[fg]s:)?(-?0x[0-9a-f]+|-?\d+)?\(([^()]*)\)")
X86_ABS = re.compile(r"(?:^|[\s,*])(-?0x[0-9a-f]+)(?=,|$)")
X86_SKIP = re.compile(r"(lea|nop|prefetch|endbr)")


def num(s):
    return int(s, 0) if s else 0


def x86(mn, ops, out):
    if X86_SKIP.match(mn):
        return
    text = ops.split("#")[0].split("<")[0]
    for m in X86_OP.finditer(text):
        parts = [p.strip().lstrip("%") for p in m.group(3).split(",")]
        if parts[0].isdigit():
            continue  # %st(0)
        base, index, shift, bits, ext = -1, -1, 0, 64, 0
        if parts[0] and parts[0] not in ("rip", "eip"):
            base, bits = X86[parts[0]]
        if len(parts) > 1 and parts[1] and parts[1] not in ("riz", "eiz"):
            v = re.match(r"[xyz]mm(\d+)$", parts[1])
            if v:
                index, ext = int(v.group(1)), 3
            else:
                index, bits = X86[parts[1]]
        if len(parts) > 2 and parts[2]:
            shift = {1: 0, 2: 1, 4: 2, 8: 3}[int(parts[2])]
        if base < 0 and index < 0:
            continue
        out.append((base, index, ext, shift, num(m.group(2)), bits))


A64_OP = re.compile(r"\[([^\]]*)\](!)?")


def a64reg(r):
    if r in ("sp", "wsp"):
        return 31
    if r in ("xzr", "wzr"):
        return -1
    m = re.match(r"[xw](\d+)$", r)
    return int(m.group(1)) if m else None


def a64(mn, ops, out):
    if mn.startswith("prf"):
        return
    for m in A64_OP.finditer(ops.split("//")[0]):
        parts = [p.strip() for p in m.group(1).split(",")]
        base = a64reg(parts[0])
        if base is None:
            z = re.match(r"z(\d+)\.", parts[0])
            if z:
                out.append((-1, int(z.group(1)), 3, 0, 0, 64))
            continue  # a vector lane: v0.b[1]
        index, ext, shift, disp = -1, 0, 0, 0
        rest = parts[1:]
        if rest:
            if rest[0].startswith("#"):
                disp = num(rest[0][1:].split()[0])
            else:
                z = re.match(r"z(\d+)\.", rest[0])
                if z:
                    index, ext = int(z.group(1)), 3
                else:
                    i = a64reg(rest[0])
                    index = -1 if i is None else i
                    e = rest[1] if len(rest) > 1 else ""
                    ext = 1 if e.startswith("uxtw") else 2 if e.startswith("sxtw") else 0
                    s = re.search(r"#(0x[0-9a-f]+|\d+)", e)
                    shift = num(s.group(1)) if s else 0
        out.append((base, index, ext, shift, disp, 64))


ARM_REGS = {f"r{i}": i for i in range(16)} | {"sb": 9, "sl": 10, "fp": 11, "ip": 12, "sp": 13, "lr": 14, "pc": 15}
ARM_COND = ["eq", "ne", "hs", "lo", "mi", "pl", "vs", "vc", "hi", "ls", "ge", "lt", "gt", "le"]
ARM_MEM = re.compile(r"(ldr|str|ldm|stm|push|pop|vld|vst|vpush|vpop|swp|ldrex|strex|ldc|stc|tbb|tbh|pld)")


def arm(mn, ops, out):
    """Returns the condition (14: always)."""
    stem = mn.split(".")[0]
    if not ARM_MEM.match(stem) or stem.startswith("pld"):
        return 14
    cond = 14
    for i, c in enumerate(ARM_COND):
        if stem.endswith(c) and stem not in ("vldmia",):
            cond = i
    if stem in ("push", "pop", "vpush", "vpop") or re.match(r"v?(push|pop)", stem):
        out.append((13, -1, 0, 0, 0, 32))
        return cond
    if re.match(r"(v?ldm|v?stm)", stem):
        r = re.split(r"[,! ]", ops.strip())[0]
        out.append((ARM_REGS[r], -1, 0, 0, 0, 32))
        return cond
    for m in re.finditer(r"\[([^\]]*)\]", ops.split("@")[0]):
        parts = [p.strip() for p in m.group(1).split(",")]
        base = ARM_REGS.get(parts[0].split(":")[0])
        if base is None or base == 15:
            if base is None:
                continue
        index, shift, disp, neg = -1, 0, 0, 0
        rest = parts[1:]
        if rest:
            if rest[0].startswith("#"):
                disp = num(rest[0][1:])
            elif rest[0].startswith(":"):
                pass
            else:
                neg = rest[0].startswith("-")
                index = ARM_REGS[rest[0].lstrip("-")]
                s = re.search(r"lsl #(0x[0-9a-f]+|\d+)", rest[1]) if len(rest) > 1 else None
                shift = num(s.group(1)) if s else 0
                if neg or (len(rest) > 1 and not s):
                    # other index arithmetic is a function of the index register: base and index apart
                    out.append((-1, index, 0, 0, 0, 32))
                    index, shift = -1, 0
        out.append((base, index, 0, shift, disp, 32))
    return cond


RV_NAMES = ("zero ra sp gp tp t0 t1 t2 s0 s1 a0 a1 a2 a3 a4 a5 a6 a7 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 t3 t4 t5 t6").split()
RV = {n: i for i, n in enumerate(RV_NAMES)} | {"fp": 8} | {f"x{i}": i for i in range(32)}
RV_OP = re.compile(r"(-?0x[0-9a-f]+|-?\d+)?\((\w+)\)")


def rv(mn, ops, out, bits):
    if mn in ("jalr", "jr", "ret", "jal", "j"):
        return
    for m in RV_OP.finditer(ops):
        out.append((RV[m.group(2)], -1, 0, 0, num(m.group(1)), bits))


PPC_X = re.compile(r"(l[bhwdf]|st[bhwdf]|lm|stm|lv|stv|lsw|stsw|dcb[tz])\w*x$|(lwarx|stwcx\.?|lhbrx|lwbrx|sthbrx|stwbrx|dcbz)$")


def ppc(mn, ops, out):
    if mn in ("la", "addi"):
        return
    m = re.search(r"(-?\d+|-?0x[0-9a-f]+)\((\d+)\)", ops)
    if m:
        b = int(m.group(2))
        out.append((b if b else -1, -1, 0, 0, num(m.group(1)), 32))
    elif PPC_X.match(mn):
        p = [x.strip() for x in ops.split(",")]
        a, b = int(p[-2]), int(p[-1])
        out.append((a if a else -1, b, 0, 0, 0, 32))


S390_SKIP = re.compile(r"(la|lay|laey|sll|srl|sla|sra|sllk|srlk|slak|srak|sllg|srlg|slag|srag|rll|rllg|sldl|srdl|slda|srda|pfd|nop|b|bc|bcr|"
                       r"j|jg|larl|svc)$")
S390_OP = re.compile(r"(-?\d+)\(([^()]*)\)")


def s390(mn, ops, out):
    if S390_SKIP.match(mn):
        return
    for m in S390_OP.finditer(ops):
        parts = [p.strip() for p in m.group(2).split(",")]
        regs = [int(p[2:]) if re.match(r"%r\d+$", p) else None for p in parts]
        index, base = -1, -1
        if len(parts) == 1:
            base = regs[0]
        else:
            index, base = (regs[0] if regs[0] is not None else -1), regs[1]
        if base is None:
            continue
        out.append((base if base else -1, index if index else -1, 0, 0, int(m.group(1)), 64))


def aes(arch, mn, ops):
    if arch == "x86":
        m = re.match(r"v?aes(enc|dec)(last)?$", mn)
        if m:
            return (3, 64) if "%zmm" in ops else (2, 32) if "%ymm" in ops else (1, 16)
    elif arch in ("a64", "arm"):
        if re.match(r"aes[ed](\.8)?$", mn):
            return (4, 16)
    elif arch.startswith("rv"):
        if re.match(r"aes64[ed]sm?$", mn):
            return (5, 8)
        if re.match(r"aes32[ed]sm?i$", mn):
            return (6, 1)
    return None


def arch_of(target):
    a = target.split("-")[0]
    return {"x86_64": "x86", "i686": "x86", "aarch64": "a64", "aarch64_be": "a64", "riscv64gc": "rv64", "riscv32gc": "rv32",
            "powerpc": "ppc", "s390x": "s390"}.get(a, "arm" if a.startswith("arm") else None)


def table(c, exe):
    """Path of the table of this agent (made on first use)."""
    path = exe + ".table"
    if os.path.exists(path):
        return path
    arch = arch_of(c.target)
    cmd = [build.nightly_bin() + "/llvm-objdump", "-d", "--no-show-raw-insn", "--demangle"]
    if arch.startswith("rv"):
        cmd.append("--mattr=+zkne,+zknd,+m,+a,+f,+d,+c,+zbb")
    elif arch == "a64":
        cmd.append("--mattr=+v9.4a,+sve2,+aes,+crypto,+mops,+memtag")
    elif arch == "arm":
        cmd.append("--mattr=+v8a,+crypto,+neon")
    p = subprocess.Popen(cmd + [exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    lines, mark = [], None
    for line in p.stdout:
        m = LINE.match(line)
        if not m:
            f = FUNC.match(line)
            if f:
                if f.group(2) == "agent_mark":
                    mark = f.group(1)
                lines.append(f"F {f.group(1).lstrip('0') or '0'} {f.group(2)}")
            continue
        addr, mn, ops = m.groups()
        got, cond = [], 14
        if arch == "x86":
            if "(" in ops or mn == "rep":
                x86(mn, ops, got)
        elif arch == "a64":
            if "[" in ops:
                a64(mn, ops, got)
        elif arch == "arm":
            cond = arm(mn, ops, got)
        elif arch in ("rv64", "rv32"):
            if "(" in ops:
                rv(mn, ops, got, 64 if arch == "rv64" else 32)
        elif arch == "ppc":
            ppc(mn, ops, got)
        elif "(" in ops:
            s390(mn, ops, got)
        if got:
            lines.append(f"I {addr} {cond} " + " ".join(":".join(map(str, g)) for g in got))
        k = aes(arch, mn, ops)
        if k:
            lines.append(f"A {addr} {k[0]} {k[1]}")
    if p.wait() or mark is None:
        raise build.BuildError(f"cannot disassemble {exe}")
    tmp = f"{path}.{os.getpid()}"
    with open(tmp, "w") as f:
        f.write(f"M {mark.lstrip('0')}\n" + "\n".join(lines) + "\n")
    os.replace(tmp, path)
    return path
