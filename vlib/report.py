"""Verdicts, evidence and replay files."""
import json, os, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Error(Exception):
    """No verdict: the check could not do its work."""


class Violation(Exception):
    def __init__(self, replay, info=None, text=""):
        self.replay, self.info, self.text = replay, info or {}, text


def replay_dir():
    d = os.path.join(VERIF, "work", "replays")
    os.makedirs(d, exist_ok=True)
    return d


def write_replay(prop, data):
    p = os.path.join(replay_dir(), f"{prop}-{os.getpid()}.json")
    json.dump(data, open(p, "w"), indent=1)
    return p


def evidence(prop, tier, seed, coverage, t0, assumptions, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
         "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations}
    tmp = os.path.join(d, f".{prop}.{os.getpid()}")
    json.dump(e, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, f"{prop}.json"))
