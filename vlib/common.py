"""Shared plumbing of the checks: paths, seeds, evidence, known findings, violation reporting."""
import json
import os
import shutil
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CORES = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


class Scratch:
    """A scratch directory under /verif/build, removed at the end."""

    def __init__(self, tag):
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.path = tempfile.mkdtemp(prefix=tag + "-", dir=base)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.path)
        else:
            shutil.rmtree(self.path, ignore_errors=True)


def known_findings(prop):
    fn = os.path.join(VERIF, "known_findings.json")
    try:
        with open(fn) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get("known", []) if e.get("property") == prop]


def matches_known(prop, violation):
    """A known finding names a class and substrings which must all occur in the message."""
    for e in known_findings(prop):
        if e.get("class") == violation.get("cls") and all(s in violation.get("msg", "") for s in e.get("contains", [])):
            return e
    return None


def write_evidence(prop, coverage, violations, assumptions, level="exploration"):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
        "assumptions": assumptions, "wall_s": round(time.time() - T0, 3), "violations": violations,
    }
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))


def replay_path(prop, tag, ext):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%s.%s" % (prop, tag, ext))


def report_violation(prop, path, v):
    print("violation class %s: %s" % (v.get("cls"), v.get("msg")))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
