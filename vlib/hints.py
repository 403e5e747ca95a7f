"""Configurations suggested by the sources under test: a target feature that the code asks about, and did not at the pinned
commit, is switched on (and off) in every implementation, so that code compiled only then is executed."""
import glob, os, re
from . import build, configs, literals, matrix
from .matrix import NIGHTLY

# how often the sources ask about a feature at the pinned commit
KNOWN = {"aes": 4, "avx512f": 1, "sse4.1": 1, "v8": 3, "vaes": 3, "zknd": 3, "zkne": 3}
BASES = ["sw", "ct", "aesni", "vaes", "avx512", "i686-sw", "i686-aesni", "i686-ct", "a64-sw", "a64-ct", "neon", "arm-sw", "arm", "rv64-nofeat", "rv64",
         "rv64-ct-s", "rv32-ct", "rv32", "ppc-sw", "ppc-ct", "s390x-sw", "s390x-ct"]
LIMIT = 24


def asked():
    """Feature: number of places."""
    out = {}
    for f in glob.glob(build.REPO + "/src/**/*.rs", recursive=True):
        if "test" in os.path.basename(f):
            continue
        text = literals.strip(open(f, "rb").read()).decode("utf-8", "replace")
        for m in re.finditer(r'\btarget_feature\s*=\s*"([^"]+)"', text):
            out[m.group(1)] = out.get(m.group(1), 0) + 1
    return out


def features():
    return sorted(f for f, n in asked().items() if n > KNOWN.get(f, 0) and re.fullmatch(r"[a-z0-9._-]+", f))


def configurations(prefix="hint"):
    """Prepared configurations; none on the pinned sources."""
    out, have = [], set()
    for f in features():
        for name in BASES:
            b = matrix.BY_NAME[name]
            base = configs.resolved(b.target, NIGHTLY, b.feats, b.cpu)
            if base is None:
                continue
            word = f'target_feature="{f}"'
            feats = ",".join(x for x in (b.feats, ("-" if word in base else "+") + f) if x)
            c = configs.make(prefix, b.target, feats=feats, crate=b.crate)
            flags = configs.flags(c)
            if flags is None or (word in flags) == (word in base) or c.name in have:
                continue
            c.prefix = configs.run_prefix(c, False)
            if c.prefix is None:
                continue
            have.add(c.name)
            matrix.BY_NAME[c.name] = c
            out.append(c)
    return out[:LIMIT]

