"""C10: splitting of aggregated files under failing and interrupted file operations."""
import copy
import posixpath as pp
import random

from . import scr, scr_tree
from .scr import Violation
from .scr_c09 import SCRIPT

NAME = "C10"
PROBES = ["clean success", "input that has to be refused", "path that leaves the output directory", "fault made it fail", "fault did not matter", "crash", "power loss", "rerun after failure", "file made by aggregation", "stale files in the output directory", "link in the output directory", "aggregated file where a header belongs", "aggregated file that ends early"]


def gen(rng, tier):
    p = {"attempts": None, "natt": rng.choice([0, 1, 1, 1, 1, 2, 3]), "fseed": rng.randrange(1 << 30), "flaw": None, "secs": [], "tree": None, "stale": rng.random() < 0.25, "link": None,
         "cwd": rng.choice(["/sim", "/sim/proj", "/sim/work"]), "relagg": rng.random() < 0.4, "relout": rng.random() < 0.4,
         "agg": rng.choice(["/sim/work/agg.hpp", "/sim/single.hpp", "/sim/proj/agg.txt"]), "out": rng.choice(["/sim/out", "/sim/work/out", "/sim/work/a/b/out", "/sim/proj/out"]), "outdir": rng.choice(["missing", "there", "there"])}
    if rng.random() < 0.3:
        p["tree"] = scr_tree.gen_tree(rng, 6, False)
        for h in p["tree"]["headers"]:
            h["eol"] = "\n"
    else:
        n = rng.randint(1, 7) if rng.random() < 0.97 else rng.choice([12, 20, 40])
        names = set()
        same = rng.random() < 0.25          # headers of the same name in different places
        for i in range(n):
            base = rng.choice(scr_tree.DIRS) + "/s%d.hpp" % (rng.randrange(2) if same else i)
            if rng.random() < 0.04:
                base = rng.choice(["include/", "src/"]) + "/".join("d%d" % k for k in range(rng.choice([6, 12, 24]))) + "/s%d.hpp" % i
            style = rng.choices(["abs", "rel", "dots", "escape", "space", "odd"], [60, 15, 4, 9, 6, 6])[0]
            if style == "rel" and same and rng.random() < 0.6:
                base = pp.basename(base)          # at the top
            name = {"abs": "/sim/proj/" + base, "rel": base[8:] if base.startswith("include/") else base, "dots": "x%d/../%s" % (i, base), "space": rng.choice(["/sim/proj/my dir/s %d.hpp", "/sim/proj/a = b/s%d.hpp", "/sim/proj/x =====/s%d.hpp", "/sim/proj/s%d = 1.hpp", "/sim/proj/Start of s%d.hpp", "/sim/proj/v1:beta/s%d.hpp", "/sim/proj/.conf/s%d.hpp", "/sim/proj/.s%d.hpp", "/sim/proj/...s%d", "/sim/proj/~/s%d.hpp", "/sim/proj/$HOME/s%d.hpp", "/sim/proj/a\\b/s%d.hpp", "/sim/proj/-s%d.hpp", "/sim/proj/a;b'c\"d/s%d.hpp", "/sim/proj/*/s%d.hpp", "/sim/proj/S\u00e9/S%d.HPP", "/sim/proj/x%%20y/s%d.hpp", "/sim/proj/s%d.hpp.", "/sim/proj/con/s%d", "/sim/proj/\u4e2d/s%d.hpp", "/sim/proj/cafe\u0301/s%d.hpp", "/sim/proj/s%d\u212b.hpp", "/sim/proj/s%d\ufb01\u00b2.hpp", "/sim/proj/Stra\u00dfe/s%d.hpp", "/sim/proj/s%d\u200b.hpp"]) % i, "odd": rng.choice(["./" + base, "//sim//proj/" + base, "/sim/proj/./" + base]),
                    "escape": rng.choice(["../victim/v%d.hpp", "../../sim/victim/v%d.hpp", "a/../../victim/v%d.hpp", "/sim/../sim/victim/v%d.hpp", "../../../../../../tmp/v%d.hpp", "../out-of-here%d.hpp", "/../../victim/v%d.hpp"]) % rng.randrange(3)}[style]
            if pp.normpath(name).lstrip("/") in names:
                continue
            names.add(pp.normpath(name).lstrip("/"))
            lines = []
            for k in range(rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < 0.93 else rng.randint(50, 400)):
                t = "tok_%d_%d" % (i, k)
                lines.append(rng.choice(["int %s;", "int %s;", "// #include \"x.hpp\" %s", "// #pragma once %s", "", "   ", "int %s; // ===== Start of nothing =====", "// ===== almost %s =====", "// == Start of /x/%s.hpp ==", "// =====  Start of /x/%s.hpp =====", "// ===== start of /x/%s.hpp =====", "// ===== START OF /x/%s.hpp =====", "//===== Start of /x/%s.hpp =====", "// ====== Start of /x/%s.hpp ======", "// ===== Start of %s ====", "// ===== End of/%s =====", "// == End of /x/%s.hpp ==", "// ===== end of /x/%s.hpp =====", " // ===== Start of /x/%s.hpp =====", "// %s " + "z" * rng.choice([3, 9000]), "/* \u00e9 %s */", "int %s; // page\x0c, \x0b, \x1c, \u0085, \u2028 and more", "int %s; \\", "int %s;\t \t", "  // ===== End of %s ====="]).replace("%s", t))
            p["secs"].append({"name": name, "style": style, "lines": lines})
        p["gap"] = rng.choice(["\n\n", "", "\n", "// between\n"])
        x = rng.random()
        if x < 0.06 and p["secs"]:
            s = p["secs"][0]
            p["secs"].append({"name": s["name"] + "/below.hpp", "style": "conflict", "lines": ["int tok_c;"]})
            p["flaw"] = "conflict"
        elif x < 0.12:
            p["flaw"] = rng.choice(["unreadable", "missing", "aggisdir", "binary"])
            if p["flaw"] == "binary":
                p["secs"][-1]["lines"].insert(rng.randrange(len(p["secs"][-1]["lines"]) + 1), "// tok_b \udce9\udcff")
        elif x < 0.18:
            p["flaw"] = rng.choice(["outisfile", "outlocked"])
        elif x < 0.21:
            # the aggregated file is where one of its headers belongs
            s = [s for s in p["secs"] if s["style"] in ("abs", "rel")]
            if s:
                p["flaw"], p["agg"] = "intheway", p["out"] + "/" + rng.choice(s)["name"].lstrip("/")
        elif x < 0.26 and any(s["style"] == "abs" for s in p["secs"]):
            p["link"] = rng.choice(["out/sim", "file"])
        elif x < 0.36 and p["secs"]:
            p["cut"] = rng.choice(["noend", "midline", "nonl"])
    return p


def section_text(p):
    t = "".join(p.get("gap", "\n\n") + "// ===== Start of %s =====\n" % s["name"] + "".join(x + "\n" for x in s["lines"]) + "// ===== End of %s =====\n" % s["name"] for s in p["secs"])
    if p.get("cut") and p["secs"]:
        # the file ends early: without the last line's end, or before the last marker
        t = t[:-1]
        if p["cut"] != "nonl":
            t = t[:t.rindex("// ===== End of ")]
            if p["cut"] == "midline" and p["secs"][-1]["lines"] and p["secs"][-1]["lines"][-1]:
                t = t[:-1]
    return t


def setup(ctx, name, p, agg):
    f = [["work", "d", ""], ["proj", "d", ""], ["scripts", "l", ctx.tools["scripts"]]]
    for i in range(3):
        f.append(["victim/v%d.hpp" % i, "f", "precious %d\n" % i])
    f.append(["proj/include/precious.hpp", "f", "precious\n"])
    if p["tree"]:
        f += [x for x in scr_tree.files(p["tree"]) if x[0] != "proj"]
    else:
        for s in p["secs"]:          # originals, where the aggregated file names them
            if s["style"] in ("abs", "space") and not s["name"].endswith("below.hpp"):
                f.append([s["name"][5:], "f", "original of %s\n" % s["name"]])
    if p["flaw"] == "aggisdir":
        f.append([p["agg"][5:], "d", ""])
    elif p["flaw"] != "missing" and agg is not None:
        f.append([p["agg"][5:], "u" if p["flaw"] == "unreadable" else "f", agg])
    out = p["out"][5:]
    if p["flaw"] == "outisfile":
        f.append([out, "f", "a file\n"])
    elif p["flaw"] == "outlocked":
        f.append([out, "U", ""])
    elif p["outdir"] == "there" or p["link"] or p["stale"]:
        f.append([out, "d", ""])
        if p["link"] == "out/sim":
            f.append([out + "/sim", "l", pp.relpath("/", "/" + out)])
        elif p["link"] == "file":
            s = [s for s in p["secs"] if s["style"] == "abs"][0]
            t = out + s["name"]
            f.append([t, "l", pp.relpath("/victim/v1.hpp", "/" + pp.dirname(t))])
        if p["stale"] and not p["link"]:
            for s in p["secs"]:
                if s["style"] == "abs":
                    f.append([out + s["name"], "f", "stale line\n" * 3000])
                elif s["style"] == "rel":
                    f.append([out + "/" + s["name"], "f", "stale\n"])
            f.append([out + "/other.txt", "f", "other\n"])
    seen, g = set(), []
    for x in f:
        if x[0] not in seen:
            seen.add(x[0])
            g.append(x)
    return ctx.make(name, g)


def argv(p):
    rel = lambda x: pp.relpath(x, p["cwd"])  # noqa: E731
    return [SCRIPT, "split", rel(p["agg"]) if p["relagg"] else p["agg"], rel(p["out"]) if p["relout"] else p["out"]]


def launch(ctx, name, p, faults, seed):
    return ctx.py(name, "aggregateOrSplit.py", argv(p), p["cwd"][4:], faults, seed, p["hs"])


def check_outside(ctx, name, p, before, res):
    after = ctx.snap(name, skip=())
    out = p["out"][5:]
    for k in sorted(set(before) | set(after)):
        if k == out or k.startswith(out + "/") or before.get(k) == after.get(k):
            continue
        if k not in before and after[k][0] == "d" and out.startswith(k + "/"):
            continue          # parents of the output directory
        raise Violation("outside-changed", "splitting %s /sim/%s, which is outside the output directory %s" % ("created" if k not in before else "removed" if k not in after else "changed", k, p["out"]))
    if p["flaw"] == "intheway" and before.get(p["agg"][5:]) != after.get(p["agg"][5:]):
        raise Violation("aggregated-file-changed", "splitting changed the aggregated file %s" % p["agg"])
    if res.escapes:
        raise Violation("outside-changed", "splitting tried to change %s" % res.escapes[0])
    return after


def sections(p, agg):
    """name -> lines, as the aggregated file holds them"""
    if not p["tree"]:
        return [(s["name"], s["lines"], s["style"]) for s in p["secs"]]
    import re
    out = []
    for m in re.finditer(r"^// ===== Start of (.+) =====\n(.*?)^// ===== End of \1 =====$", agg, re.M | re.S):
        out.append((m.group(1), m.group(2).split("\n")[:-1], "abs"))
    return out


def judge(ctx, p, secs, res, after, what):
    if res.hang:
        raise Violation("does-not-terminate", "%s: still running after %d file operations" % (what, len(res.ops)))
    if res.status != 0:
        return False
    if p["flaw"] and p["flaw"] != "binary":
        raise Violation("success-on-bad-input", "%s: exit status 0 although the input or output directory has a problem (%s)" % (what, p["flaw"]))
    out = p["out"][5:]
    got = {k[len(out) + 1:]: v[2].decode("utf-8", "surrogateescape") for k, v in after.items() if k.startswith(out + "/") and v[0] == "f"}

    def holds(t, lines):
        a = [x.rstrip("\r") for x in t.split("\n")]
        if a and a[-1] == "":
            a.pop()
        return a == [x.rstrip("\r") for x in lines]
    shifts = {}
    for name, lines, style in secs:
        if style in ("abs", "space", "odd") and (name.startswith("/")):
            n = pp.normpath("/" + name.lstrip("/"))
            tail = pp.relpath(n, "/sim/proj")
            full = n[1:]
            cand = [g for g in got if g == tail or g.endswith("/" + tail)]
            cand = [g for g in cand if ("/" + full).endswith("/" + g) or g == full]
            good = [g for g in cand if holds(got[g], lines)]
            if not good:
                raise Violation("header-not-restored", "%s: exit status 0, but %s is %s under %s" % (what, name, "not restored line by line" if cand else "missing", p["out"]))
            shifts.setdefault(name, {g[:len(g) - len(tail)] for g in good})
        elif style in ("rel", "odd"):
            g = pp.normpath(name)
            if g not in got or not holds(got[g], lines):
                raise Violation("header-not-restored", "%s: exit status 0, but %s is %s under %s" % (what, name, "not restored line by line" if g in got else "missing", p["out"]))
        elif not any(holds(t, lines) for t in got.values()):
            raise Violation("header-not-restored", "%s: exit status 0, but the lines of %s are nowhere under %s" % (what, name, p["out"]))
    for h in ctx.made_of:
        # whatever the aggregated file looks like: the headers it was made of are back
        want = scr_tree.tokens(h)
        if want and not any(("/" + g).endswith("/" + h["path"][5:]) and [x.rstrip("\r") for x in t.split("\n") if "tok_" in x] == want for g, t in got.items()):
            raise Violation("header-not-restored", "%s: exit status 0, but %s, from which the aggregated file was made, is not restored under %s" % (what, h["path"], p["out"]))
    if shifts and not set.intersection(*shifts.values()):
        raise Violation("location-lost", "%s: the headers are not at their own relative locations" % what)
    return True


def run(ctx, p):
    agg, ctx.made_of = None, []
    probes = ctx.info["probes"] = []
    if p["tree"]:
        setup(ctx, "A", p, None)
        root = "/sim/" + p["tree"]["headers"][0]["path"]
        r = ctx.py("A", "aggregateOrSplit.py", [SCRIPT, "aggregate", root, p["agg"], "--include-paths"] + p["tree"]["incpaths"], "", [], p["seed"], p["hs"])
        try:
            with open(ctx.root("A") + p["agg"][4:], encoding="utf-8") as f:
                agg = f.read()
        except OSError:
            agg = None
        if r.status != 0 or agg is None:
            return          # not this property's business
        probes.append("file made by aggregation")
        m = scr_tree.Model(p["tree"], [root], p["tree"]["incpaths"])
        if not m.problem:
            ctx.made_of = [m.by[h] for h in m.headers()]
    else:
        agg = section_text(p)
    secs = sections(p, agg)
    refuse = bool(p["flaw"]) or bool(p["link"]) or p.get("cut") in ("noend", "midline") or any(s["style"] in ("escape", "dots") for s in p["secs"])
    setup(ctx, "A", p, agg)
    before = ctx.snap("A", skip=())
    a = launch(ctx, "A", p, [], p["seed"])
    aft = check_outside(ctx, "A", p, before, a)
    ok = judge(ctx, p, secs, a, aft, "undisturbed run")
    if not ok and not refuse:
        raise Violation("fails-without-reason", "an undisturbed run on a sound file ends with status %s: %s" % (a.status, a.err.strip().splitlines()[-1:]))
    ctx.info["nontrivial"] = refuse
    probes.append("input that has to be refused" if not ok else "clean success")
    if any(s["style"] == "escape" for s in p["secs"]):
        probes.append("path that leaves the output directory")
    if p.get("cut"):
        probes.append("aggregated file that ends early")
    if p["stale"]:
        probes.append("stale files in the output directory")
    if p["flaw"] == "intheway":
        probes.append("aggregated file where a header belongs")
    if p["link"]:
        probes.append("link in the output directory")
    setup(ctx, "B", p, agg)
    frng = random.Random(p["fseed"])
    if p["attempts"] is None:
        p["attempts"] = []
        for _ in range(p["natt"]):
            fs = [scr.pick_fault(frng, a.ops) for _ in range(frng.choice([1, 1, 1, 2]))]
            p["attempts"].append({"faults": [f for f in fs if f], "loss": frng.random() < 0.5, "lseed": frng.randrange(1 << 30)})
    killed = False          # or kept from removing what it had made
    for n, att in enumerate(p["attempts"]):
        base = ctx.snap("B", skip=())
        r = launch(ctx, "B", p, att["faults"], p["seed"] + n + 1)
        hard = [x for x in r.fired if not (x[1] in ("short", "eintr") and x[0] in ("read", "write", "stdout"))]
        if r.fired:
            ctx.info["nontrivial"] = True
        aft2 = check_outside(ctx, "B", p, base, r)
        killed = killed or r.crashed or r.status < 0 or any(x[0] in ("unlink", "rmdir") for x in r.fired)
        what = "run %d with %s" % (n + 1, "; ".join("%s at %s" % (x[1], x[0]) for x in r.fired) or "no fault fired")
        good = judge(ctx, p, secs, r, aft2, what)
        if not hard and ok and not good:
            raise Violation("fails-without-reason", "%s: status %s" % (what, r.status))
        probes.append("crash" if r.crashed else "fault did not matter" if good else "fault made it fail")
        if r.crashed and att["loss"] and scr.lose_unsynced(ctx, "B", r, att["lseed"]):
            probes.append("power loss")
    if p["attempts"]:
        base = ctx.snap("B", skip=())
        r = launch(ctx, "B", p, [], p["seed"])
        aft2 = check_outside(ctx, "B", p, base, r)
        good = judge(ctx, p, secs, r, aft2, "rerun")
        probes.append("rerun after failure")
        if good != ok:
            raise Violation("rerun-differs", "the rerun ends with status %s, an undisturbed run with %s" % (r.status, a.status))
        if ok:
            o = p["out"][5:] + "/"
            for k in aft:
                if k.startswith(o) and aft[k][0] == "f" and aft.get(k) != aft2.get(k):
                    raise Violation("rerun-differs", "the rerun leaves another /sim/%s than an undisturbed run" % k)
            if not killed:
                for k in aft2:
                    if k.startswith(o) and k not in aft:
                        raise Violation("rerun-differs", "the rerun leaves /sim/%s behind, which an undisturbed run does not" % k)


def reductions(p):
    for i in range(len(p["attempts"] or [])):
        q = copy.deepcopy(p)
        del q["attempts"][i]
        yield q
        for j in range(len(p["attempts"][i]["faults"])):
            q = copy.deepcopy(p)
            del q["attempts"][i]["faults"][j]
            yield q
        if p["attempts"][i]["loss"]:
            q = copy.deepcopy(p)
            q["attempts"][i]["loss"] = False
            yield q
    for i in range(len(p["secs"])):
        q = copy.deepcopy(p)
        del q["secs"][i]
        if not (p["link"] and not any(s["style"] == "abs" for s in q["secs"])):
            yield q
        n = len(p["secs"][i]["lines"])
        for a, b in ((0, n // 2), (n // 2, n)):
            if b > a:
                q = copy.deepcopy(p)
                del q["secs"][i]["lines"][a:b]
                yield q
    for key, val in (("relagg", False), ("relout", False), ("stale", False), ("gap", ""), ("cut", None)):
        if p.get(key) not in (val, None):
            q = copy.deepcopy(p)
            q[key] = val
            yield q
