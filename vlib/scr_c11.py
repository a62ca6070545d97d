"""C11: configuring under failing tools, failing and interrupted file operations and crashes."""
import copy
import os
import posixpath as pp
import random

from . import scr
from .scr import Violation

NAME = "C11"
SCRIPT = "/sim/repo/scripts/config-build.py"
STUBS = ["cmake", "dot"]
PROBES = ["clean success", "missing host configuration", "cmake fails", "cmake dies from a signal", "cmake is missing", "dot fails", "dot is missing", "dependency graph", "odd characters", "arguments for cmake", "earlier contents", "directory is a link or file",
          "fault made it fail", "fault did not matter", "crash", "power loss", "rerun after failure", "one directory inside the other", "recorded command run by hand"]
EXTRA = ["-DENABLE_COVERAGE:BOOL=ON", "-DX=1", "-DCMAKE_VERBOSE_MAKEFILE=ON", "-Wno-dev", "-DL=a;b", "-DF=-O3 -g", "-DQ='x y'", '-DD="z"', "-DV=$HOME/x", "-DG=*", "-DT=`id`", "-DE=", "-DP=a&b", "-DB=a\\b", "--debug-output", "-DH=#x", "-DN=$(id)", "-DU=~/x", "-DO=a|b", "-DR=<x>", "-DM=a\nb", "", "-DW=%s", "-DCMAKE_INSTALL_LIBDIR=lib64", "-DCMAKE_BUILD_TYPES=x", "-DCMAKE_INSTALL_PREFIX_OLD=/opt", "-DCMAKE_PREFIX_PATH=/opt/a;/opt/b", "-DCMAKE_CXX_FLAGS=", "-DBLT_SOURCE_DIR=../blt", "-DS=a  b ", "-DA:PATH=../x/./y", "-DK=\tz", "-DJ=a=b", "-DY=//x//", "-Wno-error=dev", "--no-warn-unused-cli", "-DENABLE_COVERAGE:BOOL=OFF", "-D{}=1", "-D\u00fc=\u00e9"]
STALE = [["CMakeCache.txt", "f", "stale\n"], ["CMakeFiles/a/b/c.o", "f", "stale\n"], ["cmake_cmd", "x", "cmake stale"], ["stale.bin", "f", "stale\n"], ["ro.txt", "f", "stale\n"], ["dir/empty", "d", ""], ["lib/x", "f", "stale\n"], ["dependency.dot", "f", "stale\n"], ["dependency.png", "f", "stale\n"]]


def gen(rng, tier):
    odd = rng.random() < 0.3
    hc = rng.choice(["hostconfigs/ci/gcc.cmake", "hostconfigs/local.cmake", "hostconfigs/noext", "hostconfigs/gcc@12-x.y.cmake"])
    if odd and rng.random() < 0.6:
        hc = rng.choice(["hostconfigs/my host.cmake", "hostconfigs/ho'st.cmake", "hostconfigs/a$b.cmake", "host (1)/x;y.cmake", "hostconfigs/q\"q.cmake", "hostconfigs/\u00fc.cmake", "hostconfigs/~host.cmake", "hostconfigs/$HOME.cmake", "hostconfigs/%s.cmake", "hostconfigs/a.cmake.cmake", "hostconfigs/back\\slash.cmake"])

    def where(kind):
        x = rng.random()
        if x < 0.3:
            return ""
        n = kind + rng.choice(["", "-1", ".d"])
        if odd and rng.random() < 0.5:
            n = kind + rng.choice([" dir", "$HOME", "'q", "&x", "\u00e9", ";", "*", "~", "%s", "{}", "\\x", "=x"])
            if rng.random() < 0.25:
                n = rng.choice(["~/", "~", "$HOME/", "${HOME}/", "%HOME%/", "~root/", "file:", "@"]) + n
        return rng.choice(["/sim/", "/sim/work/", "/sim/work/deep/er/", "/tmp/", "", "../" if cwd != "/sim" else "./", "sub/./"]) + n
    cwd = rng.choice(["/sim/repo", "/sim/work", "/sim", "/sim/my work"] if odd else ["/sim/repo", "/sim/work", "/sim"])
    p = {"attempts": None, "natt": rng.choice([0, 1, 1, 1, 2, 3]), "fseed": rng.randrange(1 << 30), "hc": hc, "hcthere": rng.random() > 0.06, "relhc": rng.random() < 0.5,
         "hctext": rng.choice(["# host\nset(X 1)\n", "", "# cmake executable path: /opt/cmake/bin/cmake\n", "# cmake executable path: \n", "set(Y 2)\n# cmake executable path: /x y/cmake"]),
         "cwd": cwd, "bp": where("build"), "ip": where("install"), "bt": rng.choice(["Release", "Debug", "RelWithDebInfo", "MinSizeRel", None]),
         "gvz": rng.random() < 0.35, "ecc": rng.random() < 0.25, "gen": rng.choice([None, None, None, "n", "e", "x"]), "long": rng.random() < 0.5, "extra": [], "stale": {}, "cm": [0, 0], "dot": [0, 0], "nest": None, "hclink": rng.random() < 0.15}
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        if rng.random() < 0.25:
            # in two words; words may be there more than once
            p["extra"] += rng.choice([["-D", "A=1"], ["-D", "B:STRING=x y"], ["-U", "X*"], ["-D", "C=$HOME"], ["-DX=2", "-DX=1", "-DX=2"], ["-W", "no-dev"], ["-D", ""], ["--toolchain", "x y.cmake"], ["--log-level=ERROR"], ["--fresh"], ["--trace-expand"]])
            continue
        e = rng.choice(EXTRA[:4] if rng.random() < 0.5 else EXTRA)
        if e not in p["extra"]:
            p["extra"].append(e)
    for w in ("bp", "ip"):
        x = rng.random()
        if x < 0.5:
            p["stale"][w] = ["dir", sorted(rng.sample(range(len(STALE)), rng.randint(0, 5)))]
            if rng.random() < 0.15:
                p["stale"][w][0] = "dir+links"
            elif rng.random() < 0.05:
                p["stale"][w][0] = "locked"
        elif x < 0.58:
            p["stale"][w] = [rng.choice(["file", "link", "dangling"]), []]
    x = rng.random()
    if x < 0.10:
        p["cm"] = [rng.choice([1, 1, 2, 127, 255]), 0]
    elif x < 0.14:
        p["cm"] = [0, rng.choice([9, 11, 6, 2])]
    elif x < 0.17:
        p["cm"] = None
    x = rng.random()
    if x < 0.15:
        p["dot"] = [rng.choice([1, 3]), 0]
    elif x < 0.2:
        p["dot"] = [0, rng.choice([9, 11])]
    elif x < 0.27:
        p["dot"] = None
    x = rng.random()
    if x < 0.03:
        p["nest"], p["ip"] = "same", p["bp"] or "build"
        p["bp"] = p["ip"]
    elif x < 0.07:
        p["nest"], p["bp"] = "ip in bp", p["bp"] or "build"
        p["ip"] = p["bp"] + "/inst"
    elif x < 0.09:
        p["nest"], p["ip"] = "bp in ip", p["ip"] or "install"
        p["bp"] = p["ip"] + "/bld"
    if p["nest"]:          # a directory named through a link is wherever the link leads
        p["stale"] = {w: s for w, s in p["stale"].items() if s[0] not in ("link", "dangling")}
    return p


def dirs(p):
    stem = pp.basename(p["hc"])
    stem = stem[:-6] if stem.endswith(".cmake") else stem
    out = []
    for w, k in (("bp", "build"), ("ip", "install")):
        d = p[w] or "-".join([k, stem, (p["bt"] or "Debug").lower()])
        out.append(pp.normpath(pp.join(p["cwd"], d)))
    return out


def tree(v):
    """virtual path -> path in the scratch tree"""
    return v[5:] if v.startswith("/sim/") else v[1:]


def setup(ctx, name, p):
    f = [["toolbin", "d", ""], ["work", "d", ""], ["my work", "d", ""], ["repo/CMakeLists.txt", "f", "project\n"], ["repo/include/x.hpp", "f", "int x;\n"], ["repo/hostconfigs/other.cmake", "f", "other\n"], ["repo/scripts", "l", ctx.tools["scripts"]],
         ["victim/v0", "f", "precious 0\n"], ["victim/d/v1", "f", "precious 1\n"], ["work/build-old/keep", "f", "keep\n"], ["work/installed", "f", "keep\n"], ["buildx/keep", "f", "keep\n"], ["tmp/keep", "f", "keep\n"], ["work/deep/keep", "f", "keep\n"]]
    if p["hcthere"]:
        if p.get("hclink"):
            f.append(["repo/shared/target-host.cmake", "f", p["hctext"]])
            f.append(["repo/" + p["hc"], "l", pp.relpath("/repo/shared/target-host.cmake", "/" + pp.dirname("repo/" + p["hc"]))])
        else:
            f.append(["repo/" + p["hc"], "f", p["hctext"]])
    for w, d in zip(("bp", "ip"), dirs(p)):
        st = p["stale"].get(w)
        if not st or (p["nest"] and w == ("bp" if p["nest"] == "bp in ip" else "ip")):
            continue
        t = tree(d)
        kind, items = st
        up = pp.relpath("/", "/" + pp.dirname(t))
        if kind in ("dir", "dir+links", "locked"):
            f.append([t, "d", ""])
            for i in items:
                f.append([t + "/" + STALE[i][0]] + STALE[i][1:])
            if kind == "dir+links":
                f.append([t + "/to-dir", "l", up + "/../victim/d"])
                f.append([t + "/to-file", "l", up + "/../victim/v0"])
                f.append([t + "/gone", "l", "nowhere"])
            if kind == "locked":
                f.append([t + "/locked/x", "f", "stale\n"])
                f.append([t + "/locked", "U", ""])
        elif kind == "file":
            f.append([t, "f", "a file\n"])
        else:
            f.append([t, "l", up + "/victim/d" if kind == "link" else "nowhere"])
    seen, g = set(), []
    for x in f:
        if x[0] not in seen:
            seen.add(x[0])
            g.append(x)
    r = ctx.make(name, g)
    return r


def argv(p):
    hc = "/sim/repo/" + p["hc"]
    a = [["-hc", "--hostconfig"][p["long"]], pp.relpath(hc, p["cwd"]) if p["relhc"] else hc]
    if p["bp"]:
        a += [["-bp", "--buildpath"][p["long"]], p["bp"]]
    if p["ip"]:
        a += [["-ip", "--installpath"][p["long"]], p["ip"]]
    if p["bt"]:
        a += [["-bt", "--buildtype"][p["long"]], p["bt"]]
    if p["ecc"]:
        a.append(["-ecc", "--exportcompilercommands"][p["long"]])
    if p["gvz"]:
        a.append(["-gvz", "--graphviz"][p["long"]])
    if p["gen"]:
        a.append({"n": ["-n", "--ninja"], "e": ["-e", "--eclipse"], "x": ["-x", "--xcode"]}[p["gen"]][p["long"]])
    return [SCRIPT] + a + p["extra"]


def launch(ctx, name, p, faults, seed, cm, dot):
    plan = []
    if cm:
        plan.append("cmake 0 %d %d mk:CMakeCache.txt dir:CMakeFiles%s" % (cm[0], cm[1], " mk:dependency.dot" if p["gvz"] else ""))
    if dot:
        plan.append("dot 0 %d %d%s" % (dot[0], dot[1], " mk:dependency.png" if dot == [0, 0] else ""))
    b = os.path.join(ctx.root(name), "toolbin")
    for n, on in (("cmake", cm), ("dot", dot)):
        q = os.path.join(b, n)
        if on and not os.path.lexists(q):
            os.symlink(os.path.join(ctx.tools["stubs"], n), q)
        elif not on and os.path.lexists(q):
            os.unlink(q)
    e = ctx.env(name, plan, extra={"PATH": b, "HOME": "/sim/home"})
    return ctx.py(name, "config-build.py", argv(p), p["cwd"][4:], faults, seed, p["hs"], env=e)


def parse(p, call):
    """the cmake command line, by meaning"""
    _, cwd, av, _ = call
    o = {"rest": []}

    def put(k, v):
        if k in o:
            raise Violation("wrong-command", "cmake is given %s twice: %s" % (k, av))
        o[k] = v
    i = 0
    while i < len(av):
        a = av[i]
        if a in ("-C", "-G", "-S", "-B"):
            put(a, av[i + 1] if i + 1 < len(av) else None)
            i += 2
            continue
        i += 1
        name = a[2:].split("=")[0].split(":")[0]
        if a in p["extra"]:
            o["rest"].append(a)
        elif a[:2] in ("-C", "-G", "-S", "-B") and len(a) > 2:
            put(a[:2], a[2:])
        elif a.startswith("--graphviz="):
            put("--graphviz", a[11:])
        elif a.startswith("-D") and name in ("CMAKE_BUILD_TYPE", "CMAKE_INSTALL_PREFIX", "CMAKE_EXPORT_COMPILE_COMMANDS"):
            put(name, a.split("=", 1)[1] if "=" in a else None)
        elif not a.startswith("-"):
            put("-S", a)
        else:
            o["rest"].append(a)
    bp, ip = dirs(p)
    path = lambda x: x and pp.normpath(pp.join(cwd, x))  # noqa: E731
    want = {"-C": "/sim/repo/" + p["hc"], "CMAKE_INSTALL_PREFIX": ip, "-S": "/sim/repo"}
    for k, v in want.items():
        if path(o.get(k)) != v:
            raise Violation("wrong-command", "cmake is given %r for %s instead of %s: %s" % (o.get(k), k, v, av))
    if "-B" in o and path(o["-B"]) != bp:
        raise Violation("wrong-command", "cmake is given the build directory %s instead of %s" % (o["-B"], bp))
    if "-B" not in o and cwd != bp:
        raise Violation("wrong-directory", "cmake runs in %s instead of %s" % (cwd, bp))
    if o.get("CMAKE_BUILD_TYPE") != (p["bt"] or "Debug"):
        raise Violation("wrong-command", "cmake is given build type %s instead of %s" % (o.get("CMAKE_BUILD_TYPE"), p["bt"] or "Debug"))
    if (str(o.get("CMAKE_EXPORT_COMPILE_COMMANDS", "off")).upper() in ("ON", "1", "TRUE", "YES", "Y")) != p["ecc"]:
        raise Violation("wrong-command", "compile commands are %srequested: %s" % ("not " if p["ecc"] else "", av))
    g = {"n": "Ninja", "e": "Eclipse CDT4 - Unix Makefiles", "x": "Xcode", None: None}[p["gen"]]
    if o.get("-G") != g:
        raise Violation("wrong-command", "cmake is given the generator %s instead of %s" % (o.get("-G"), g))
    if bool(o.get("--graphviz")) != p["gvz"]:
        raise Violation("wrong-command", "the dependency graph is %srequested: %s" % ("not " if p["gvz"] else "", av))
    if o["rest"] != p["extra"]:
        raise Violation("wrong-command", "cmake is given %s instead of the arguments to pass on %s" % (o["rest"], p["extra"]))
    return o


def check_outside(ctx, name, p, before, res):
    after = ctx.snap(name, skip=())
    mine = [tree(d) for d in dirs(p)]
    for k in sorted(set(before) | set(after)):
        if before.get(k) == after.get(k) or k.startswith("toolbin/") or any(k == d or k.startswith(d + "/") for d in mine):
            continue
        if k not in before and after[k][0] == "d" and any(d.startswith(k + "/") for d in mine):
            continue
        raise Violation("outside-changed", "configuring %s /sim/%s, which is neither in the build nor in the install directory" % ("created" if k not in before else "removed" if k not in after else "changed", k))
    if res.escapes:
        raise Violation("outside-changed", "configuring tried to change %s" % res.escapes[0])
    return after


def mine(p, snap):
    return {k: v for k, v in snap.items() if any(k == tree(d) or k.startswith(tree(d) + "/") for d in dirs(p))}


def judge(ctx, name, p, res, after, cm, dot, what, by_hand):
    if res.hang:
        raise Violation("does-not-terminate", "%s: still running after %d file operations" % (what, len(res.ops)))
    calls = ctx.stub_log(name)
    cmakes = [c for c in calls if c[0] == "cmake"]
    dots = [c for c in calls if c[0] == "dot"]
    for c in cmakes:
        o = parse(p, c)
    if len(cmakes) > 1:
        raise Violation("wrong-command", "%s: cmake is run %d times" % (what, len(cmakes)))
    if dots and not p["gvz"]:
        raise Violation("wrong-command", "%s: dot is run although no dependency graph was requested" % what)
    if res.status != 0:
        return False
    if not p["hcthere"]:
        raise Violation("success-after-failure", "%s: exit status 0 without a host configuration" % what)
    if not cmakes or cm != [0, 0]:
        raise Violation("success-after-failure", "%s: exit status 0, but cmake %s" % (what, "was not run" if not cmakes else "ended with status %d, signal %d" % tuple(cm)))
    if p["gvz"]:
        if not dots or dot != [0, 0]:
            raise Violation("success-after-failure", "%s: exit status 0, but dot %s" % (what, "was not run" if not dots else "ended with status %d, signal %d" % tuple(dot)))
        bp = dirs(p)[0]
        if not any(pp.normpath(pp.join(dots[0][1], a)) == pp.normpath(pp.join(bp, o["--graphviz"])) for a in dots[0][2] if not a.startswith("-")) or calls.index(dots[0]) < calls.index(cmakes[0]):
            raise Violation("wrong-command", "%s: dot does not render the graph cmake wrote: %s" % (what, dots[0][2]))
    b, i = [tree(d) for d in dirs(p)]
    inside = {k[len(b) + 1:]: v for k, v in after.items() if k.startswith(b + "/")}
    c = inside.get("cmake_cmd")
    if after.get(b, ("-",))[0] != "d" or not c or c[0] != "f":
        raise Violation("no-recorded-command", "%s: exit status 0, but no command is recorded in %s" % (what, dirs(p)[0]))
    if not c[1] & 0o100:
        raise Violation("no-recorded-command", "%s: exit status 0, but the recorded command is not executable" % what)
    inst = i[len(b) + 1:] if i.startswith(b + "/") else None
    expect = {"cmake_cmd", "CMakeCache.txt", "CMakeFiles"} | ({"dependency.dot", "dependency.png"} if p["gvz"] else set()) | ({inst} if inst else set())
    odd = sorted(set(inside) - expect)
    if odd:
        raise Violation("stale-contents", "%s: exit status 0, but %s has survived in the build directory" % (what, odd[0]))
    old = sorted(k for k, v in after.items() if (k.startswith(i + "/") and not k.startswith(b + "/") and k != b and not b.startswith(k + "/")) or (k == i and v[0] != "d"))
    if old:
        raise Violation("stale-contents", "%s: exit status 0, but %s has survived in the install directory" % (what, old[0]))
    for k in expect - {"cmake_cmd", inst}:
        if k not in inside or inside[k][2] == b"stale\n":
            raise Violation("stale-contents", "%s: exit status 0, but %s of cmake's result is missing from the build directory" % (what, k))
    if by_hand:
        text = c[2].decode("utf-8", "surrogateescape")
        ref = cmakes[0]
        e = ctx.env(name, ["cmake 0 0 0"], extra={"PATH": ctx.root(name) + "/toolbin", "HOME": "/sim/home"})
        cwd = dirs(p)[0]
        r = ctx.cmd(name, "/bin/sh", ["sh", "-c", text], cwd[4:] if cwd.startswith("/sim") else cwd, e)
        again = [x for x in ctx.stub_log(name) if x[0] == "cmake"]
        if r.status != 0 or len(again) != 1 or again[0][2] != ref[2]:
            raise Violation("wrong-record", "the recorded command runs cmake with %s, the script ran it with %s" % ([x[2] for x in again], ref[2]))
        ctx.info["probes"].append("recorded command run by hand")
    return True


def odd_place(p):
    return any(p["stale"].get(w, ["dir"])[0] in ("file", "link", "dangling", "locked") for w in ("bp", "ip"))


def run(ctx, p):
    probes = ctx.info["probes"] = []
    cm, dot = p["cm"], p["dot"]
    setup(ctx, "A", p)
    before = ctx.snap("A", skip=())
    a = launch(ctx, "A", p, [], p["seed"], cm, dot)
    aft = check_outside(ctx, "A", p, before, a)
    ok = judge(ctx, "A", p, a, aft, cm, dot, "undisturbed run", True)
    reason = not p["hcthere"] or cm != [0, 0] or (p["gvz"] and dot != [0, 0]) or odd_place(p) or p["nest"]
    if not ok and not reason:
        raise Violation("fails-without-reason", "an undisturbed run ends with status %s: %s" % (a.status, a.err.strip().splitlines()[-1:]))
    ctx.info["nontrivial"] = bool(reason)
    for on, what in ((ok, "clean success"), (not p["hcthere"], "missing host configuration"), (cm and cm[0], "cmake fails"), (cm and cm[1], "cmake dies from a signal"), (not cm, "cmake is missing"), (p["gvz"], "dependency graph"),
                     (p["gvz"] and dot and dot != [0, 0], "dot fails"), (p["gvz"] and not dot, "dot is missing"), (p["extra"], "arguments for cmake"), (p["stale"], "earlier contents"), (odd_place(p), "directory is a link or file"), (p["nest"], "one directory inside the other"),
                     (set(" '\"$;&*(`\\|<>#") & set(p["hc"] + p["bp"] + p["ip"] + p["cwd"] + "".join(p["extra"])), "odd characters")):
        if on:
            probes.append(what)
    setup(ctx, "B", p)
    frng = random.Random(p["fseed"])
    if p["attempts"] is None:
        p["attempts"] = []
        stale = [d + "/" + STALE[i][0] for w, d in zip(("bp", "ip"), dirs(p)) for i in p["stale"].get(w, [0, []])[1] if STALE[i][1] != "d" and STALE[i][0] not in ("cmake_cmd", "CMakeCache.txt", "dependency.dot", "dependency.png")]
        for _ in range(p["natt"]):
            fs = [scr.pick_fault(frng, a.ops, stale) for _ in range(frng.choice([0, 1, 1, 1, 2]))]
            t = {"faults": [f for f in fs if f], "loss": frng.random() < 0.5, "lseed": frng.randrange(1 << 30), "cm": cm, "dot": dot}
            if not t["faults"] or frng.random() < 0.2:
                t["cm"] = frng.choice([[1, 0], [0, 9], None, [3, 0], cm])
                t["dot"] = frng.choice([[1, 0], [0, 11], None, dot])
            p["attempts"].append(t)
    for n, att in enumerate(p["attempts"]):
        base = ctx.snap("B", skip=())
        r = launch(ctx, "B", p, att["faults"], p["seed"] + n + 1, att["cm"], att["dot"])
        hard = [x for x in r.fired if not (x[1] in ("short", "eintr") and x[0] in ("read", "write", "stdout"))]
        if r.fired or att["cm"] != [0, 0]:
            ctx.info["nontrivial"] = True
        aft2 = check_outside(ctx, "B", p, base, r)
        what = "run %d with %s" % (n + 1, "; ".join("%s at %s" % (x[1], x[0]) for x in r.fired) or "no fault fired")
        good = judge(ctx, "B", p, r, aft2, att["cm"], att["dot"], what, False)
        if not hard and att["cm"] == [0, 0] and (att["dot"] == [0, 0] or not p["gvz"]) and not reason and not good:
            raise Violation("fails-without-reason", "%s: status %s" % (what, r.status))
        probes.append("crash" if r.crashed else "fault did not matter" if good else "fault made it fail")
        if r.crashed and att["loss"] and scr.lose_unsynced(ctx, "B", r, att["lseed"]):
            probes.append("power loss")
    if p["attempts"]:
        base = ctx.snap("B", skip=())
        r = launch(ctx, "B", p, [], p["seed"], cm, dot)
        aft2 = check_outside(ctx, "B", p, base, r)
        good = judge(ctx, "B", p, r, aft2, cm, dot, "rerun", False)
        probes.append("rerun after failure")
        if good != ok:
            if not (good and odd_place(p)):          # what was in the way may be gone
                raise Violation("rerun-differs", "the rerun ends with status %s, an undisturbed run with %s" % (r.status, a.status))
        elif ok and mine(p, aft) != mine(p, aft2):
            x, y = mine(p, aft), mine(p, aft2)
            raise Violation("rerun-differs", "the rerun leaves another %s than an undisturbed run" % sorted(k for k in set(x) | set(y) if x.get(k) != y.get(k))[0])


def reductions(p):
    for i in range(len(p["attempts"] or [])):
        q = copy.deepcopy(p)
        del q["attempts"][i]
        yield q
        for j in range(len(p["attempts"][i]["faults"])):
            q = copy.deepcopy(p)
            del q["attempts"][i]["faults"][j]
            yield q
        for k, v in (("loss", False), ("cm", p["cm"]), ("dot", p["dot"])):
            if p["attempts"][i][k] != v:
                q = copy.deepcopy(p)
                q["attempts"][i][k] = v
                yield q
    for i in range(len(p["extra"])):
        q = copy.deepcopy(p)
        del q["extra"][i]
        yield q
    for w in list(p["stale"]):
        q = copy.deepcopy(p)
        del q["stale"][w]
        yield q
        for j in range(len(p["stale"][w][1])):
            q = copy.deepcopy(p)
            del q["stale"][w][1][j]
            yield q
    for key, val in (("hclink", False), ("hc", "hostconfigs/local.cmake"), ("cwd", "/sim/work"), ("bp", "" if not p["nest"] else p["bp"]), ("ip", "" if not p["nest"] else p["ip"]), ("bt", None), ("gvz", False), ("ecc", False), ("gen", None), ("long", False), ("relhc", False), ("cm", [0, 0]), ("dot", [0, 0]), ("hcthere", True), ("hctext", "")):
        if p.get(key, False) != val:
            q = copy.deepcopy(p)
            q[key] = val
            yield q
