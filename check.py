#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decides one property on /repo's working tree.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: no verdict."""
import json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, matrix, report, search, texts  # noqa: E402

from vlib import special  # noqa: E402


def decide(prop, tier, seed, replay):
    t0 = time.time()
    notes = []
    if prop in special.CHECKS:
        return special.CHECKS[prop](tier, seed, replay, notes, t0)
    build.build_driver()
    return search.decide(prop, tier, seed, replay, notes)


def known(prop):
    """Findings that are recorded but not repaired: 'open: property=<id> match=<text> | <what fails>'."""
    out = []
    p = os.path.join(report.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("open: property=" + prop + " "):
                m = line.strip().split("match=", 1)[1].split(" | ", 1)
                out.append((m[0], m[1] if len(m) > 1 else ""))
    return out


def main():
    prop = sys.argv[1]
    replay = os.path.abspath(sys.argv[3]) if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) & (2**63 - 1)
    except ValueError:
        seed = 1
    t0 = time.time()
    assumptions = texts.ASSUME["*"] + texts.ASSUME.get(prop, [])
    try:
        coverage = decide(prop, tier, seed, replay)
    except report.Violation as v:
        if replay:
            print(v.text)
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        path = report.write_replay(prop, v.replay)
        cov = v.info or {"evaluations": 1, "distinct_nontrivial": 1, "samples": [v.replay]}
        cov.setdefault("rule", texts.RULE.get(prop, ""))
        report.evidence(prop, tier, seed, cov, t0, assumptions, 1)
        print(v.text)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    except (report.Error, build.BuildError) as e:
        print(f"ERROR property={prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    if replay:
        print(f"property={prop}: the replayed case holds")
        return 0
    coverage.setdefault("rule", texts.RULE.get(prop, ""))
    report.evidence(prop, tier, seed, coverage, t0, assumptions, 0)
    for what, text in known(prop):
        print(f"KNOWN-FINDING: property={prop} {text}")
    print(f"property={prop} held: {coverage.get('evaluations')} cases executed, {coverage.get('distinct_nontrivial')} distinct "
          f"non-trivial, {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
