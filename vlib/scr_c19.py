"""C19: comparison of formatter configurations under failing and interrupted file operations."""
import copy
import random

from . import scr
from .scr import Violation

NAME = "C19"
SCRIPT = "/sim/scripts/compare_uncrustify.py"
PROBES = ["clean success", "input that has to be refused", "fault made it fail", "fault did not matter", "crash", "same file twice", "large files"]
KEYS = ["indent_columns", "nl_if_brace", "sp_assign", "code_width", "align_var", "mod_sort", "cmt_width", "pp_indent", "utf8_bom", "tok_split_gte", "Indent_columns", "nl_If_brace", "indent columns", "sp-assign"]
VALS = ["add", "remove", "0", "1", "4", "false", "true", "a b", "x=y", "", "\u00e9t\u00e9", "\u00e8t\u00e9", "Add", "FALSE", "True", "A b", "a  b", "01", "+1", "1.0", "a\tb", "a\x0cb", "a\u2028b", "a\u00a0b", "%s", "{0}", "a: b", "a != b"]



def near(rng, v):
    """another value that some ways of comparing take for the same"""
    def norm(w):
        return w.split("#")[0].strip()
    c = ['"%s"' % v, "'%s'" % v, v + ",", v + ";", v + "\\", "\\" + v, "(%s)" % v, "[%s]" % v, v + " " + v, v + v, v[:-1], v[1:], v[::-1], v.swapcase(), v.title(), v.replace(" ", ""), v.replace(" ", "_"), v.replace("_", "-"), v + ".0", "0" + v, "+" + v, "-" + v, v + "0", v + "L", "=" + v,
         v + "=", v + ":", v + "//c", v + " ; c", v + " // c", v + "/*c*/", "$" + v, "%" + v, v + "\u0301", v + "\u200b", v + "\xad", "\ufeff" + v, v + "x", "x" + v, v + "\t" + v, v + "  " + v, v + "...", v + "y" * 60, v + "y" * 300, "not " + v, "!" + v, "~" + v]
    w = v.replace(",", " ").split()
    if len(w) > 1:
        rng.shuffle(w)
        c += [",".join(w), " ".join(w), " ".join(sorted(set(w)))]
    c = [norm(x) for x in c]
    return rng.choice([x for x in c if x != v])


LISTS = ["add,remove", "remove,add", "add,remove,add", "b, a", "a, b", "a,b", "b a", "yes", "no", "on", "off", "y", "n", "t", "f", "none", "null", "nil", "0x1", "0b1", "1e0", "10", "1_0", "c:\\", "\\", '"', '""', "'", "*", ".*", "-", "-1"]

RAW = {"1": ["\udce9", "a\udcff", "\udcc3"], "2": ["\udce8", "a\udcff", "\udcc3("]}


def gen(rng, tier):
    def cfg(n):
        ks = rng.sample(KEYS, rng.randint(0, len(KEYS)))
        out = []
        for k in ks:
            v = rng.choice(VALS if rng.random() < 0.7 else LISTS)
            if rng.random() < 0.06:
                out.append([k, "", k])
            if rng.random() < 0.06:
                w = rng.choice(VALS)
                out.append([k, w, "%s = %s" % (k, w)])
            form = rng.choice(["%s=%s", "%s = %s", "  %s\t=  %s  ", "%s   = %s   # a comment = here", "%s=%s# c"])
            out.append([k, v, form % (k, v)])
            if rng.random() < 0.3:
                out.append([None, None, rng.choice(["", "   ", "# comment", "#%s = 7" % rng.choice(KEYS), "# x = y"])])
        for i in range(n):
            out.append(["key_%d" % i, str(rng.randrange(3)), "key_%d = %s" % (i, 0)])
            out[-1][2] = "key_%d = %s" % (i, out[-1][1])
        return out
    big = rng.choice([0, 0, 0, 0, 300, 2000]) if rng.random() < 0.98 else 9000
    a, b = cfg(big), cfg(big)
    if rng.random() < 0.04:          # long comments, blank stretches and lines
        for c in (a, b):
            for _ in range(rng.randint(1, 3)):
                n = rng.choice([5000, 70000, 140000, 300000])
                c.insert(rng.randrange(len(c) + 1), [None, None, rng.choice(["# " + "c" * n, "\n".join(["# a comment"] * (n // 12)), "\n" * n, " " * n])])
                if rng.random() < 0.3:
                    v = "v" * n + rng.choice("ab")
                    c.insert(rng.randrange(len(c) + 1), ["long_setting", v, "long_setting = " + v])
    if rng.random() < 0.25:
        # the same settings, some with values that are nearly the same
        b = copy.deepcopy(a)
        rng.shuffle(b)
        for x in rng.sample(b, min(len(b), rng.choice([1, 1, 2, 5]))):
            if x[0] and "#" not in x[2]:
                x[1] = rng.choice([w for w in LISTS if sorted(w) == sorted(x[1]) and w != x[1]] or LISTS) if rng.random() < 0.3 else near(rng, x[1])
                x[2] = "%s = %s" % (x[0], x[1])
    elif rng.random() < 0.2:
        # files of the same length that differ in a few characters
        b = copy.deepcopy(a)
        for x in rng.sample(b, min(len(b), rng.choice([0, 1, 1, 2]))):
            w = [v for v in VALS + ["2", "3"] if len(v.encode()) == len((x[1] or "").encode()) and v != x[1]]
            if x[0] and x[1] and w and x[2].count(x[1]) == 1:
                v = rng.choice(w)
                x[2], x[1] = x[2].replace(x[1], v), v
    return {"a": a, "b": b, "same": rng.random() < 0.08, "flaw": rng.choice([None] * 8 + ["missing1", "missing2", "unreadable1", "unreadable2", "dir1", "dir2", "args0", "args1", "args3", "bytes1", "bytes2", "bytes12"]), "end": rng.random() < 0.8,
            "cwd": rng.choice(["/sim", "/sim/work"]), "attempts": None, "natt": rng.choice([0, 1, 1, 2, 3]), "fseed": rng.randrange(1 << 30)}


def setup(ctx, p):
    f = [["work", "d", ""], ["scripts", "l", ctx.tools["scripts"]]]
    for i, k in (("1", "a"), ("2", "b")):
        n = "work/f%s.cfg" % i
        t = "\n".join(x[2] for x in p[k]) + ("\n" if p["end"] else "")
        if (p["flaw"] or "").startswith("bytes") and i in p["flaw"]:
            # settings whose text is not valid UTF-8
            t += "".join("\nraw_%d = %s\n" % (j, v) for j, v in enumerate(RAW[i]))
        if p["flaw"] == "missing" + i:
            continue
        if p["flaw"] == "dir" + i:
            f.append([n, "d", ""])
        else:
            f.append([n, "u" if p["flaw"] == "unreadable" + i else "f", t])
    ctx.make("A", f)


def expected(p):
    m = []
    for k in ("a", "a" if p["same"] else "b"):
        d = {}
        for key, val, _ in p[k]:
            if key:
                d[key] = val
        m.append(d)
    common = {k: v for k, v in m[0].items() if m[1].get(k) == v}
    diff = {k: (v, m[1][k]) for k, v in m[0].items() if k in m[1] and m[1][k] != v}
    return common, diff


def launch(ctx, p, faults):
    a = [SCRIPT, "/sim/work/f1.cfg", "/sim/work/f1.cfg" if p["same"] else "/sim/work/f2.cfg", "/sim/work/f2.cfg"]
    n = {"args0": 1, "args1": 2, "args3": 4}.get(p["flaw"], 3)
    return ctx.py("A", "compare_uncrustify.py", a[:n], p["cwd"][4:], faults, p["seed"], p["hs"])


def judge(p, r, what):
    if r.hang:
        raise Violation("does-not-terminate", what)
    if r.escapes:
        raise Violation("outside-changed", "%s: tried to change %s" % (what, r.escapes[0]))
    if r.status != 0:
        return False
    tolerated = (p["flaw"] or "").startswith("bytes")
    if p["flaw"] and not tolerated and not (p["same"] and p["flaw"] in ("missing2", "unreadable2", "dir2")):
        raise Violation("success-on-bad-input", "%s: exit status 0 although the input has a problem (%s)" % (what, p["flaw"]))
    common, diff = expected(p)
    if tolerated and "1" in p["flaw"] and (p["same"] or "2" in p["flaw"]):
        # text that cannot be decoded may be refused; if it is not, it has to be told apart
        for j, v in enumerate(RAW["1"]):
            w = v if p["same"] else RAW["2"][j]
            k = "\nraw_%d" % j
            if r.out.count(k) != 1 or (r.out.find(k) > r.out.find("Different Settings:")) != (v != w):
                raise Violation("wrong-comparison", "%s: setting raw_%d, whose text is not valid UTF-8, is not listed as %s" % (what, j, "common" if v == w else "different"))
    parts = r.out.split("Different Settings:")
    if len(parts) != 2 or "Common Settings:" not in parts[0]:
        raise Violation("wrong-comparison", "%s: exit status 0 without a comparison" % what)
    got = {}
    for ln in parts[0].split("Common Settings:")[1].split("\n"):
        if ln.strip() and not ln.startswith("raw_"):
            k, _, v = ln.partition(" = ")
            if k in got:
                raise Violation("wrong-comparison", "%s: %s is listed twice" % (what, k))
            got[k.strip()] = v.strip()
    if got != common:
        d = sorted(k for k in set(got) | set(common) if got.get(k) != common.get(k))[0]
        raise Violation("wrong-comparison", "%s: common setting %s is listed as %r instead of %r" % (what, d, got.get(d), common.get(d)))
    got = {}
    for ln in parts[1].split("\n"):
        if ln.strip() and "Only in" not in ln and not ln.startswith("raw_"):
            k, _, v = ln.partition(": ")
            got[k.strip()] = v
    want = {k: "%s != %s" % v for k, v in diff.items()}
    if {k: v.strip() for k, v in got.items()} != {k: v.strip() for k, v in want.items()}:
        d = sorted(k for k in set(got) | set(want) if got.get(k, "").strip() != want.get(k, "").strip())[0]
        raise Violation("wrong-comparison", "%s: different setting %s is listed as %r instead of %r" % (what, d, got.get(d), want.get(d)))
    return True


def run(ctx, p):
    probes = ctx.info["probes"] = []
    setup(ctx, p)
    before = ctx.snap("A")
    a = launch(ctx, p, [])
    ok = judge(p, a, "undisturbed run")
    bad = p["flaw"] and not (p["flaw"].startswith("bytes") and ok) and not (p["same"] and p["flaw"] in ("missing2", "unreadable2", "dir2"))
    if not ok and not bad:
        raise Violation("fails-without-reason", "an undisturbed run ends with status %s: %s" % (a.status, a.err.strip().splitlines()[-1:]))
    ctx.info["nontrivial"] = bool(bad)
    probes.append("clean success" if ok else "input that has to be refused")
    if p["same"]:
        probes.append("same file twice")
    if len(p["a"]) > 200:
        probes.append("large files")
    frng = random.Random(p["fseed"])
    if p["attempts"] is None:
        p["attempts"] = [[f for f in [scr.pick_fault(frng, a.ops) for _ in range(frng.choice([1, 1, 2]))] if f] for _ in range(p["natt"])]
    for n, fs in enumerate(p["attempts"]):
        r = launch(ctx, p, fs)
        hard = [x for x in r.fired if not (x[1] in ("short", "eintr") and x[0] in ("read", "write", "stdout"))]
        if r.fired:
            ctx.info["nontrivial"] = True
        what = "run %d with %s" % (n + 1, "; ".join("%s at %s" % (x[1], x[0]) for x in r.fired) or "no fault fired")
        good = judge(p, r, what)
        if not hard and ok and not good:
            raise Violation("fails-without-reason", "%s: status %s" % (what, r.status))
        probes.append("crash" if r.crashed else "fault did not matter" if good else "fault made it fail")
    if ctx.snap("A") != before:
        raise Violation("input-changed", "comparing changed the tree")


def reductions(p):
    for i in range(len(p["attempts"] or [])):
        q = copy.deepcopy(p)
        del q["attempts"][i]
        yield q
        for j in range(len(p["attempts"][i])):
            q = copy.deepcopy(p)
            del q["attempts"][i][j]
            yield q
    for k in ("a", "b"):
        n = len(p[k])
        for x, y in ((0, n // 2), (n // 2, n)) if n > 4 else [(i, i + 1) for i in range(n)]:
            q = copy.deepcopy(p)
            del q[k][x:y]
            yield q
