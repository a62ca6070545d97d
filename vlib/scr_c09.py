"""C09: aggregation of headers under failing and interrupted file operations."""
import copy
import posixpath as pp
import random

from . import scr, scr_tree
from .scr import Violation

NAME = "C09"
SCRIPT = "/sim/scripts/aggregateOrSplit.py"
PROBES = ["clean success", "tree that has to be refused", "fault made it fail", "fault did not matter", "crash", "power loss", "rerun after failure", "cyclic includes", "missing include", "unreadable header", "output that cannot be written", "same base names", "output that is one of the headers"]


def gen(rng, tier):
    t = scr_tree.gen_tree(rng, 9 if tier == "thorough" else 7)
    hs = t["headers"]
    flaw = None
    x = rng.random()
    if x < 0.30:
        flaw = rng.choice(["missing", "missing", "cycle", "cycle", "self", "unreadable", "directory", "root", "binary", "outdir", "outisdir", "outisheader", "missing-late"])
    i = rng.randrange(len(hs))
    if flaw in ("missing", "missing-late"):
        k = rng.randrange(len(hs[i]["items"]) + 1) if flaw == "missing" else len(hs[i]["items"])
        hs[i]["items"].insert(k, ["include", '#include "%s"' % rng.choice(["gone.hpp", "shiva/gone.hpp", "../gone.hpp"])])
    elif flaw == "cycle":
        j = rng.randrange(i + 1)
        hs[i]["items"].insert(rng.randrange(len(hs[i]["items"]) + 1), ["include", scr_tree.include_text(rng, hs[i]["path"], hs[j]["path"], t["incpaths"], False)])
    elif flaw == "self":
        hs[i]["items"].append(["include", '#include "%s"' % pp.basename(hs[i]["path"])])
    elif flaw == "unreadable":
        hs[i]["mode"] = "u"
    elif flaw == "directory":
        t["dirs"] = ["proj/include/dir.hpp"]
        hs[i]["items"].append(["include", '#include "%s"' % pp.relpath("proj/include/dir.hpp", pp.dirname(hs[i]["path"]))])
    elif flaw == "binary":
        hs[i]["binary"] = True
        hs[i]["items"].append(["line", "// tok_b \udce9\udcff"])
    roots = ["/sim/" + hs[0]["path"]]
    for h in hs[1:]:
        if rng.random() < 0.12:
            roots.append("/sim/" + h["path"])
    if flaw == "root":
        roots.insert(rng.randrange(len(roots) + 1), "/sim/proj/include/none.hpp")
    elif rng.random() < 0.1:
        roots.append(roots[0])
    rng.shuffle(roots)
    cwd = rng.choice(["/sim", "/sim/proj", "/sim/proj/include", "/sim/work"])
    outp = rng.choice(["/sim/work/agg.hpp", "/sim/work/agg.hpp", "/sim/proj/single.hpp", "/sim/out.hpp"])
    if flaw == "outdir":
        outp = "/sim/nowhere/agg.hpp"
    if flaw == "outisdir":
        outp = "/sim/work/sub"
    if flaw == "outisheader":
        outp = roots[0]
    return {"tree": t, "roots": roots, "cwd": cwd, "out": outp, "old": rng.choice([None, None, "old content\n" * rng.choice([1, 5000])]), "flaw": flaw,
            "relroots": rng.random() < 0.4, "relout": rng.random() < 0.4, "incopt": rng.random() < 0.85, "relinc": rng.random() < 0.3,
            "attempts": None, "natt": 0 if flaw == "outisheader" else rng.choice([0, 1, 1, 1, 1, 2, 3]), "fseed": rng.randrange(1 << 30)}


def setup(ctx, name, p):
    f = scr_tree.files(p["tree"]) + [["work", "d", ""], ["proj/include", "d", ""]]
    if p["flaw"] == "outisdir":
        f.append(["work/sub", "d", ""])
    if p["old"] is not None and p["flaw"] not in ("outisdir", "outisheader") and p["out"] != "/sim/nowhere/agg.hpp":
        f.append([p["out"][5:], "f", p["old"]])
    if p.get("scripts", True):
        f.append(["scripts", "l", ctx.tools["scripts"]])
    return ctx.make(name, f)


def argv(p):
    rel = lambda x: pp.relpath(x, p["cwd"])  # noqa: E731
    a = [SCRIPT, "aggregate"] + [rel(r) if p["relroots"] else r for r in p["roots"]] + [rel(p["out"]) if p["relout"] else p["out"]]
    if p["incopt"]:
        a += ["--include-paths"] + [rel(i) if p["relinc"] else i for i in p["tree"]["incpaths"]]
    return a


def launch(ctx, name, p, faults, seed):
    return ctx.py(name, "aggregateOrSplit.py", argv(p), p["cwd"][4:], faults, seed, p["hs"])


def check_outside(ctx, name, p, before, res, crashed):
    after = ctx.snap(name)
    out = p["out"][5:]
    for k in sorted(set(before) | set(after)):
        if k == out or before.get(k) == after.get(k):
            continue
        if crashed and k not in before and pp.dirname(k) == pp.dirname(out):
            continue          # an unfinished temporary file
        raise Violation("other-file-changed", "aggregating %s /sim/%s" % ("created" if k not in before else "removed" if k not in after else "changed", k))
    if res.escapes:
        raise Violation("outside-change", "aggregating tried to change %s" % res.escapes[0])
    return after


def judge(ctx, p, model, res, after, what):
    """what a finished run claims must be true"""
    if res.hang:
        raise Violation("does-not-terminate", "%s: still running after %d file operations" % (what, len(res.ops)))
    if res.status != 0:
        return False
    if model.problem and model.problem != "undecodable":
        raise Violation("success-on-bad-tree", "%s: exit status 0 although the tree has a problem (%s)" % (what, model.problem))
    o = after.get(p["out"][5:])
    if o is None or o[0] != "f":
        raise Violation("success-without-output", "%s: exit status 0 and no output" % what)
    bad = scr_tree.judge(model, o[2].decode("utf-8", "surrogateescape"))
    if bad:
        raise Violation("incomplete-output", "%s: exit status 0, but %s" % (what, bad))
    return True


def run(ctx, p):
    t = p["tree"]
    inc = p["tree"]["incpaths"] if p["incopt"] else [p["cwd"]]
    model = scr_tree.Model(t, p["roots"], inc)
    bad_out = p["out"] == "/sim/nowhere/agg.hpp" or p["flaw"] == "outisdir"
    problem = model.problem or ("output" if bad_out else None)
    probes = ctx.info["probes"] = []
    # the undisturbed run
    setup(ctx, "A", p)
    before = ctx.snap("A")
    a = launch(ctx, "A", p, [], p["seed"])
    aft = check_outside(ctx, "A", p, before, a, False)
    ok = judge(ctx, p, model, a, aft, "undisturbed run")
    if bad_out and ok:
        raise Violation("success-without-output", "exit status 0 although the output cannot be written")
    if not ok and not problem and p["flaw"] != "outisheader" and not (model.config_missing or t["config"]):
        raise Violation("fails-without-reason", "an undisturbed run on a sound tree ends with status %s: %s" % (a.status, a.err.strip().splitlines()[-1:]))
    if problem:
        probes += ["tree that has to be refused", {"cycle": "cyclic includes", "missing": "missing include", "unreadable": "unreadable header", "output": "output that cannot be written"}.get(problem, "other problem")]
    else:
        probes.append("clean success")
    if p["flaw"] == "outisheader":
        probes.append("output that is one of the headers")
    if t["dup"]:
        probes.append("same base names")
    ctx.info["nontrivial"] = bool(problem)
    # the disturbed runs
    setup(ctx, "B", p)
    frng = random.Random(p["fseed"])
    first = p["attempts"] is None
    if first:
        p["attempts"] = []
        names = [x for x in ["/sim/" + h["path"] for h in t["headers"]]]
        for _ in range(p["natt"]):
            fs = []
            for _ in range(frng.choice([1, 1, 1, 2])):
                f = scr.pick_fault(frng, a.ops, () if t["dup"] else names)
                if t["dup"] and frng.random() < 0.4:
                    # a header that cannot be examined, where another one of that name might be taken for it
                    st = [n for n, o in enumerate([o for o in a.ops if o[0] == "stat"]) if o[1] and o[1].endswith(".hpp")]
                    if st:
                        f = {"kind": "stat", "nth": frng.choice(st) + 1, "act": "errno", "arg": frng.choice(scr.HARD["stat"])}
                if f:
                    fs.append(f)
                    # a path that cannot be examined stays so for a while
                    if f["kind"] == "stat" and f["act"] == "errno" and frng.random() < 0.5:
                        fs.append(dict(f, nth=f["nth"] + 1))
            p["attempts"].append({"faults": fs, "loss": frng.random() < 0.5, "lseed": frng.randrange(1 << 30)})
    for n, att in enumerate(p["attempts"]):
        base = ctx.snap("B")
        r = launch(ctx, "B", p, att["faults"], p["seed"] + n + 1)
        hard = [x for x in r.fired if not (x[1] in ("short", "eintr") and x[0] in ("read", "write", "stdout"))]
        moved = [f["path"] for f in att["faults"] if f["act"] in ("vanish", "deny")]
        if r.fired:
            ctx.info["nontrivial"] = True
        # files the environment took away are put back before anything is compared
        put_back(ctx, "B", t, moved)
        aft2 = check_outside(ctx, "B", p, base, r, r.crashed or r.status < 0)
        what = "run %d with %s" % (n + 1, "; ".join("%s at %s" % (x[1], x[0]) for x in r.fired) or "no fault fired")
        good = judge(ctx, p, model, r, aft2, what)
        if not hard and not problem and ok and not good:
            raise Violation("fails-without-reason", "%s: status %s" % (what, r.status))
        probes.append("crash" if r.crashed else "fault did not matter" if good else "fault made it fail")
        if r.crashed and att["loss"] and scr.lose_unsynced(ctx, "B", r, att["lseed"]):
            probes.append("power loss")
    if p["attempts"]:
        base = ctx.snap("B")
        r = launch(ctx, "B", p, [], p["seed"])
        aft2 = check_outside(ctx, "B", p, base, r, False)
        good = judge(ctx, p, model, r, aft2, "rerun")
        probes.append("rerun after failure")
        o = p["out"][5:]
        if good != ok:
            raise Violation("rerun-differs", "the rerun ends with status %s, an undisturbed run with %s" % (r.status, a.status))
        if ok and aft.get(o) != aft2.get(o):
            raise Violation("rerun-differs", "the rerun leaves another output than an undisturbed run")


def put_back(ctx, name, t, moved):
    import os
    for h in t["headers"]:
        v = "/sim/" + h["path"]
        if v not in moved:
            continue
        q = os.path.join(ctx.root(name), h["path"])
        if os.path.exists(q):
            os.chmod(q, 0o644 if h.get("mode", "f") != "u" else 0)
        else:
            with open(q, "w", encoding="utf-8", errors="surrogateescape", newline="") as f:
                f.write(scr_tree.text(h))
            os.chmod(q, 0o644 if h.get("mode", "f") != "u" else 0)


def reductions(p):
    for i in range(len(p["attempts"] or [])):
        q = copy.deepcopy(p)
        del q["attempts"][i]
        yield q
        for j in range(len(p["attempts"][i]["faults"])):
            q = copy.deepcopy(p)
            del q["attempts"][i]["faults"][j]
            yield q
        if p["attempts"][i]["loss"]:
            q = copy.deepcopy(p)
            q["attempts"][i]["loss"] = False
            yield q
    for i in range(len(p["roots"])):
        if len(p["roots"]) > 1:
            q = copy.deepcopy(p)
            del q["roots"][i]
            yield q
    roots = set(p["roots"])
    for i, h in enumerate(p["tree"]["headers"]):
        if "/sim/" + h["path"] not in roots:
            q = copy.deepcopy(p)
            del q["tree"]["headers"][i]
            yield q
    for i, h in enumerate(p["tree"]["headers"]):
        n = len(h["items"])
        if n > 3:
            for a, b in ((0, n // 2), (n // 2, n)):
                q = copy.deepcopy(p)
                del q["tree"]["headers"][i]["items"][a:b]
                yield q
        for k in range(min(n, 12)):
            q = copy.deepcopy(p)
            del q["tree"]["headers"][i]["items"][k]
            yield q
    for key, val in (("old", None), ("relroots", False), ("relout", False), ("relinc", False)):
        if p[key] != val:
            q = copy.deepcopy(p)
            q[key] = val
            yield q
    if p["tree"]["config"]:
        q = copy.deepcopy(p)
        q["tree"]["config"] = None
        yield q
