#!/usr/bin/env python3
"""Development tool: makes seeded/<id>/ from an edit, verifies it and runs checks against it.

  plant.py make ID SPEC.py   SPEC defines property, needs, breaks, edits [(file, old, new)], demo {..}, main (text)
  plant.py verify ID...      patch applies, builds, stable tests pass, demo 0 / nonzero
  plant.py catch ID [C..]    apply, run the property's (or the given) quick checks, undo
Works on /repo itself (build.sh and test.sh do) and always undoes the patch."""
import json, os, subprocess, sys, tempfile, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEED = VERIF + "/seeded"

DEMO = r'''#!/bin/bash
# Builds main.rs against the library in the current directory and runs it: exit 0 if the property holds there.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"; cp "$here/main.rs" "$tmp/src/main.rs"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\naes_crypto = { path = "%s", features = [@FEATURES@] }\n@PROFILE@' "$repo" > "$tmp/Cargo.toml"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTUP_TOOLCHAIN=@TOOLCHAIN@
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER; export RUSTFLAGS="@RUSTFLAGS@"
cd "$tmp" || exit 3
@RUN@
'''


def sh(cmd, timeout=900, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


def make(bid, spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = f"{SEED}/{bid}"
    os.makedirs(d, exist_ok=True)
    assert not sh(["git", "-C", REPO, "status", "--porcelain", "-uno"]).stdout.strip()
    try:
        for f, old, new in ns["edits"]:
            t = open(f"{REPO}/{f}").read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(f"{REPO}/{f}", "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh(["git", "-C", REPO, "diff"]).stdout)
    finally:
        sh(["git", "-C", REPO, "checkout", "--", "."])
    dm = dict(features=[], toolchain="1.99.1", flags="", target="x86_64-unknown-linux-gnu", run=None, profile="")
    dm.update(ns.get("demo", {}))
    run = dm["run"] or f"cargo run --release --offline --target {dm['target']}"
    t = (DEMO.replace("@FEATURES@", ", ".join(f'"{x}"' for x in dm["features"])).replace("@TOOLCHAIN@", dm["toolchain"])
         .replace("@RUSTFLAGS@", dm["flags"]).replace("@RUN@", run).replace("@PROFILE@", dm["profile"]))
    open(d + "/demo.sh", "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(ns["main"])
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def demo(bid):
    r = sh(["bash", f"{SEED}/{bid}/demo.sh"], 300, cwd=REPO)
    return r.returncode, r.stdout


def tests():
    b = sh(["bash", "/opt/vp/build.sh"])
    if b.returncode:
        return "build: " + b.stdout[-1500:]
    out = tempfile.mktemp(suffix=".json")
    sh(["bash", "/opt/vp/test.sh", out])
    res = json.load(open(out))
    os.remove(out)
    base = json.load(open("/opt/vp/BASELINE.json"))
    ids = base.get("stable", base) if isinstance(base, dict) else base
    ids = ids if isinstance(ids, list) else list(ids)
    passed = res["passed"] if "passed" in res else [k for k, v in res.items() if v in ("pass", "passed", True)]
    missing = [i for i in ids if i not in passed]
    return "tests: " + str(missing[:5]) if missing else None


class applied:
    def __init__(self, bid):
        self.p = f"{SEED}/{bid}/patch.diff"

    def __enter__(self):
        r = sh(["git", "-C", REPO, "apply", self.p])
        assert r.returncode == 0, r.stdout

    def __exit__(self, *a):
        sh(["git", "-C", REPO, "checkout", "--", "."])


def verify(bid, clean=True):
    msg = []
    if clean:
        rc, out = demo(bid)
        if rc:
            msg.append(f"demo exits {rc} on the clean tree: {out[-1500:]}")
    with applied(bid):
        e = tests()
        if e:
            msg.append(e)
        rc, out = demo(bid)
        if rc == 0:
            msg.append("demo exits 0 with the patch")
        tail = out.strip().splitlines()[-3:]
    print(bid, "BAD" if msg else "ok", msg or tail, flush=True)
    return not msg


def catch(bid, checks):
    prop = json.load(open(f"{SEED}/{bid}/meta.json"))["property"]
    with applied(bid):
        for c in checks or [prop]:
            t = time.time()
            r = sh([sys.executable, VERIF + "/check.py", c], 1200, cwd=VERIF, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            print(f"{bid} {c} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and any('property=' + c in x for x in v) else 'MISSED' if r.returncode == 0 else 'ERROR'} {time.time()-t:.0f}s", flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-2000:])


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        make(a[1], a[2])
    elif a[0] == "verify":
        for b in a[1:]:
            verify(b)
    elif a[0] == "catch":
        catch(a[1], a[2:])
