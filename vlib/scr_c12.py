"""C12: the continuous-integration scripts under failing, killed and missing steps."""
import copy
import os
import posixpath as pp
import random
import re

from . import scr
from .scr import Violation

NAME = "C12"
STUBS = ["cmake", "make", "ninja", "ctest", "docker", "nproc", "cp", "python3"]
PROBES = ["all steps succeed", "configure fails", "build fails", "coverage fails", "copy fails", "tests fail", "step dies from a signal", "no host configuration", "no build type", "missing build directory", "configured by the real script", "style check", "documentation check", "code checks",
          "coverage", "build and test", "build without tests", "configure only", "coverage and build", "launched", "container fails", "settings reach the container", "number of processors not given", "fault in the shell", "crash"]
MODES = {"style": ["--test-code-style"], "doxygen": ["--test-doxygen"], "checks": ["--code-checks"], "coverage": ["--code-coverage"], "exe": ["--build-exe"], "exe-notest": ["--build-exe", "--disable-unit-tests"], "none": [],
         "cov+exe": ["--code-coverage", "--build-exe"], "cov+exe-notest": ["--code-coverage", "--build-exe", "--disable-unit-tests"], "notest": ["--disable-unit-tests"]}
STEPS = {"style": ["configure", "style"], "doxygen": ["configure", "doxygen"], "checks": ["configure", "checks"], "coverage": ["configure", "build", "coverage", "copy"], "exe": ["configure", "build", "tests"], "exe-notest": ["configure", "build"], "none": ["configure"],
         "cov+exe": ["configure", "build", "coverage", "copy", "tests"], "cov+exe-notest": ["configure", "build", "coverage", "copy"], "notest": ["configure"]}
TESTS = ["testUncrustifyCheck", "testDoxygenCheck", "testCppCheck", "testClangTidy", "testCArray", "testSequenceUtilities", "testLagrangeBasis", "testNCube", "testLinearTransform", "testSmoke", "test_checks"]
SETS = {"style": {TESTS[0]}, "doxygen": {TESTS[1]}, "checks": {TESTS[2], TESTS[3]}, "tests": set(TESTS[4:])}
SETTINGS = ["HOST_CONFIG", "CMAKE_C_COMPILER", "CMAKE_CXX_COMPILER", "ENABLE_CUDA", "CMAKE_CUDA_ARCHITECTURES", "CMAKE_BUILD_TYPE", "NPROC"]
REPO = "/tmp/Shiva"
# options of other projects, and words that resemble options
OTHER = ["--disable-schema-deployment", "--disable", "--disable-unit", "--disable-unit_tests", "-disable-unit-tests", "--enable-unit-tests", "--test", "--test-code", "--test-documentation", "--build", "build-exe", "--code", "--code-cover", "--code-check", "--coverage", "-v", "all", "--install", "--repository=x"]


def gen(rng, tier):
    mode = rng.choice(sorted(MODES))
    args = list(MODES[mode])
    if rng.random() < 0.2:          # words that ask for nothing
        args += rng.sample(OTHER, rng.choice([1, 1, 2]))
    rng.shuffle(args)
    bad = {}
    steps = STEPS[mode]
    if rng.random() < 0.6:
        s = rng.choice(steps[1:] if len(steps) > 1 and rng.random() < 0.8 else steps)
        bad[s] = rng.choice([[1, 0], [2, 0], [8, 0], [77, 0], [126, 0], [127, 0], [128, 0], [129, 0], [137, 0], [192, 0], [254, 0], [255, 0], [0, 9], [0, 11], [0, 15], [0, 2], [0, 13]])
        if rng.random() < 0.15:
            bad[rng.choice(steps)] = [3, 0]
    sp = rng.random() < 0.12
    env = {"HOST_CONFIG": rng.choice(["hostconfigs/ci/gcc.cmake", "/tmp/Shiva/hostconfigs/ci/gcc.cmake"] + (["hostconfigs/my host.cmake"] if sp else [])), "CMAKE_BUILD_TYPE": rng.choice(["Debug", "Release", "RelWithDebInfo"]),
           "CMAKE_C_COMPILER": rng.choice(["gcc-12", "/usr/bin/clang", None]), "CMAKE_CXX_COMPILER": rng.choice(["g++-12", "/usr/bin/clang++", None]), "ENABLE_CUDA": rng.choice(["ON", "OFF", None]),
           "CMAKE_CUDA_ARCHITECTURES": rng.choice(["70", "70;80", "all major" if sp else "all-major", None]), "NPROC": rng.choice(["1", "8", "64", None]), "GITHUB_WORKSPACE": rng.choice(["/sim/ws", "/sim/my ws" if sp else "/sim/ws"]),
           "DOCKER_REPOSITORY": rng.choice(["geosx/image:1", "img"]), "DOCKER_RUN_ARGS": rng.choice([None, "", "--gpus=all", "--network=none --runtime=nvidia"])}
    x = rng.random()
    if x < 0.06:
        env["HOST_CONFIG"] = rng.choice([None, ""])
    elif x < 0.12:
        env["CMAKE_BUILD_TYPE"] = rng.choice([None, ""])
    return {"which": rng.choice(["container", "container", "launch", "both"]), "mode": mode, "args": args, "env": env, "bad": bad, "real": rng.random() < 0.4, "builddir": rng.random() > 0.05, "covfile": rng.random() > 0.08, "destlocked": rng.random() < 0.05,
            "stale": rng.random() < 0.5, "docker": [0, 0] if rng.random() < 0.5 else rng.choice([[1, 0], [2, 0], [125, 0], [126, 0], [127, 0], [128, 0], [130, 0], [137, 0], [254, 0], [255, 0], [77, 0], [0, 9], [0, 15]]), "nproc": rng.choice(["4", "16", "fails"]), "callas": rng.choice(["abs", "rel", "dir"]),
            "cwd": rng.choice(["/tmp/Shiva", "/sim", "/tmp"]), "natt": rng.choice([0, 0, 1, 1, 2]), "attempts": None, "fseed": rng.randrange(1 << 30)}


def scripts(ctx):
    if not hasattr(ctx, "texts"):
        d = ctx.tools["scripts"]
        ctx.texts = [(n, open(os.path.join(d, n), encoding="utf-8").read()) for n in sorted(os.listdir(d)) if n != "__pycache__"]
    return ctx.texts


def setup(ctx, name, p):
    f = [["toolbin", "d", ""], ["tmp/Shiva/hostconfigs/ci/gcc.cmake", "f", "# x\n"], ["tmp/Shiva/hostconfigs/my host.cmake", "f", "# x\n"], ["tmp/Shiva/CMakeLists.txt", "f", "project\n"]]
    for w in ("tmp/Shiva", "ws", "my ws"):
        for n, t in scripts(ctx):
            f.append([w + "/scripts/" + n, "x", t])
    if p["stale"]:
        f += [["tmp/build/shiva_coverage.info.cleaned", "f", "stale\n"], ["tmp/build/CMakeCache.txt", "f", "stale\n"], ["tmp/install/x", "f", "stale\n"], ["tmp/Shiva/shiva_coverage.info.cleaned", "u" if p["destlocked"] else "f", "stale\n"]]
    elif p["destlocked"]:
        f.append(["tmp/Shiva/shiva_coverage.info.cleaned", "u", "stale\n"])
    ctx.make(name, f)
    b = os.path.join(ctx.root(name), "toolbin")
    for n in STUBS:
        os.symlink(os.path.join(ctx.tools["stubs"], n), os.path.join(b, n))


def stub_plan(p):
    bad = p["bad"]
    g = lambda s: "%d %d" % tuple(bad.get(s, [0, 0]))  # noqa: E731
    mk = " dir:/tmp/build" if p["builddir"] else " rm:/tmp/build/shiva_coverage.info.cleaned rm:/tmp/build/CMakeCache.txt rmdir:/tmp/build"
    real = p["real"] and p["builddir"]
    return ["python3 0 0 0 exec:/usr/bin/python3" if real else "python3 0 %s%s" % (g("configure"), mk),
            "cmake!--build 0 %s mk:CMakeCache.txt" % g("configure"),
            "make~shiva_coverage 0 %s%s" % (g("coverage"), " mk:shiva_coverage.info.cleaned" if p["covfile"] else " rm:shiva_coverage.info.cleaned"), "make!shiva_coverage 0 %s" % g("build"),
            "cmake~shiva_coverage 0 %s%s" % (g("coverage"), " mk:shiva_coverage.info.cleaned" if p["covfile"] else ""), "cmake~--build 0 %s" % g("build"),
            "ctest 0 %s" % g([s for s in STEPS[p["mode"]] if s in SETS][0] if set(STEPS[p["mode"]]) & set(SETS) else "tests"),
            "cp 0 %s" % g("copy") if "copy" in bad else "cp 0 0 0 exec:/bin/cp",
            "nproc 0 1 0" if p["nproc"] == "fails" else "nproc 0 0 0 say:" + p["nproc"], "docker 0 %d %d" % tuple(p["docker"])]


def selection(av):
    inc = exc = None
    i = 0
    while i < len(av):
        a = av[i]
        for keys, which in ((("-R", "--tests-regex"), "i"), (("-E", "--exclude-regex"), "e")):
            v = None
            if a in keys and i + 1 < len(av):
                v = av[i + 1]
            elif a.startswith(keys[1] + "="):
                v = a.split("=", 1)[1]
            if v is not None:
                if which == "i":
                    inc = v
                else:
                    exc = v
        i += 1
    if any(a in ("-N", "-F", "--rerun-failed", "-L", "--label-regex", "--print-labels") or a.startswith(("--show-only", "--label-regex=")) for a in av):
        return set()  # nothing is run: no test failed before, and no test has a label
    part = sorted(TESTS)[::2] if any(a.startswith("-I") or a.startswith("--tests-information") for a in av) else TESTS
    return {t for t in part if (inc is None or re.search(inc, t)) and (exc is None or not re.search(exc, t))}


def empty_make(av):
    """whether make only shows, asks for or touches what it would build, or builds without noticing errors"""
    for a in av:
        if a in ("--dry-run", "--just-print", "--recon", "--question", "--touch", "--ignore-errors", "--help", "--version"):
            return True
        if len(a) > 1 and a[0] == "-" and a[1] != "-":
            flags = re.match("[a-zA-Z]*?(?=[CfIjloWEO]|[^a-zA-Z]|$)", a[1:]).group()
            if set(flags) & set("nqtihv"):
                return True
    return False


def shell(ctx, name, p, script, args, env, faults):
    e = {k: v for k, v in env.items() if v is not None}
    e["PATH"] = ctx.root(name) + "/toolbin:/usr/bin:/bin"
    e["SIMIO_PLAN"] = "".join("%s %d %s %d %s\n" % (f["kind"], f["nth"], f["act"], f.get("arg", 0), f.get("path") or "-") for f in faults)
    cwd = p["cwd"]
    if p["callas"] == "rel":
        script = pp.relpath(script, cwd)
    elif p["callas"] == "dir":
        cwd, script = pp.dirname(script), "./" + pp.basename(script)
    full = ctx.env(name, stub_plan(p), extra=e, stub_env="".join(":%s:" % s for s in SETTINGS))
    return ctx.cmd(name, "/bin/bash", ["bash", script] + args, cwd[4:] if cwd.startswith("/sim") else cwd, full)


def hard(r):
    return [x for x in r.fired if not (x[1] in ("short", "eintr") and x[0] in ("read", "write"))]


def container(ctx, name, p, env, args, faults, what):
    """one run of the container script; returns the result after checking it"""
    r = shell(ctx, name, p, REPO + "/scripts/ci_build_and_test_in_container.sh", args, env, faults)
    if r.escapes:
        raise Violation("outside-changed", "%s: tried to change %s" % (what, r.escapes[0]))
    if r.hang:
        raise Violation("does-not-terminate", what)
    calls = ctx.stub_log(name)
    steps, bad = STEPS[p["mode"]], p["bad"]
    cov = "coverage" in steps
    seen, failed, ran, bdir = [], None, set(), "/tmp/build"
    start = all(env.get(k) for k in ("HOST_CONFIG", "CMAKE_BUILD_TYPE"))
    for n, cwd, av, ev in calls:
        text = "%s %s" % (n, " ".join(av))
        if not start and n in ("python3", "cmake", "make", "ninja", "ctest", "cp"):
            raise Violation("not-refused", "%s: '%s' is run although the host configuration or build type is missing" % (what, text))
        if failed:
            raise Violation("step-after-failure", "%s: '%s' is run although the step %s failed" % (what, text, failed))
        if n == "python3" and any(a.endswith("config-build.py") for a in av):
            s = "configure"
            bdir = config_args(p, cwd, av, env, cov, what) or bdir
        elif n == "cmake" and "--build" not in av:
            s = "configure"
            o = " ".join(av)
            if "-DCMAKE_BUILD_TYPE=" + env["CMAKE_BUILD_TYPE"] not in av or "-DENABLE_COVERAGE:BOOL=" + ("ON" if cov else "OFF") not in av or not any(pp.normpath(pp.join(REPO, env["HOST_CONFIG"])) == a for a in av):
                raise Violation("wrong-settings", "%s: cmake is given other settings than requested: %s" % (what, o))
        elif n == "make" and empty_make(av):
            continue
        elif n in ("make", "cmake", "ninja"):
            s = "coverage" if any("shiva_coverage" in a for a in av) else "build"
        elif n == "ctest":
            sel = selection(av)
            want = [k for k in SETS if k in steps]
            if not want or not sel <= SETS[want[0]]:
                raise Violation("not-requested", "%s: '%s' runs %s, which is not a step of the mode %s" % (what, text, sorted(sel - (SETS[want[0]] if want else set())), p["mode"]))
            s = want[0]
            ran |= sel
        elif n == "cp":
            s = "copy"
        else:
            continue
        if s not in steps:
            raise Violation("not-requested", "%s: '%s' is not a step of the mode %s" % (what, text, p["mode"]))
        if n in ("make", "ninja", "ctest") and cwd != bdir and not any(a in ("-C", "--test-dir", "-S") for a in av):
            raise Violation("wrong-directory", "%s: '%s' is run in %s instead of %s" % (what, text, cwd, bdir))
        if n == "make" and env.get("NPROC") and s == "build" and not ("-j" + env["NPROC"] in av or ("-j" in av and env["NPROC"] in av)):
            raise Violation("wrong-settings", "%s: '%s' does not use the %s processors requested" % (what, text, env["NPROC"]))
        if seen[-1:] != [s]:
            seen.append(s)
        if s in bad and not (n == "python3" and p["real"] and p["builddir"]):
            failed = s
        if s == "copy" and not failed and not (p["covfile"] and not p["destlocked"]):
            failed = s
    need = list(steps)
    complete = start and not failed and not (set(need) - set(seen)) and p["builddir"]
    for a, b in (("configure", None), ("build", "coverage"), ("coverage", "copy"), ("build", "tests")):
        if b and b in seen and (a not in seen or seen.index(a) > seen.index(b)):
            raise Violation("wrong-order", "%s: %s runs before %s" % (what, b, a))
    if len(seen) > 1 and "configure" in seen[1:]:
        raise Violation("wrong-order", "%s: configures after %s" % (what, seen[0]))
    want = [k for k in SETS if k in steps]
    if complete and want and ran != SETS[want[0]]:
        complete = False
    dest = os.path.join(ctx.root(name), "tmp/Shiva/shiva_coverage.info.cleaned")
    if complete and "copy" in steps:
        with open(dest) as f:
            if f.read() != "shiva_coverage.info.cleaned":
                raise Violation("success-after-failure", "%s: the coverage report was not copied" % what) if r.status == 0 else Violation("fails-without-reason", what)
    if r.status == 0 and not complete:
        raise Violation("success-after-failure", "%s: exit status 0 although %s" % (what, "the step %s failed" % failed if failed else "the host configuration or build type is missing" if not start else "there is no build directory" if not p["builddir"] else "not every step was run: %s%s" % (seen, sorted(ran))))
    if r.status != 0 and complete and not hard(r):
        raise Violation("fails-without-reason", "%s: exit status %d although every step succeeded" % (what, r.status))
    if r.status != 0 and not failed and start and p["builddir"] and not hard(r):
        raise Violation("fails-without-reason", "%s: exit status %d after the steps %s: %s" % (what, r.status, seen, r.err.strip().splitlines()[-1:]))
    return r, failed, start


def config_args(p, cwd, av, env, cov, what):
    o, i = {}, 0
    names = {"-hc": "hc", "--hostconfig": "hc", "-bt": "bt", "--buildtype": "bt", "-bp": "bp", "--buildpath": "bp", "-ip": "ip", "--installpath": "ip"}
    while i < len(av):
        if av[i] in names and i + 1 < len(av):
            o[names[av[i]]] = av[i + 1]
            i += 1
        i += 1
    script = [a for a in av if a.endswith("config-build.py")][0]
    if pp.normpath(pp.join(cwd, script)) != REPO + "/scripts/config-build.py":
        raise Violation("wrong-settings", "%s: another configuration script is run: %s" % (what, script))
    if o.get("hc") is None or pp.normpath(pp.join(cwd, o["hc"])) != pp.normpath(pp.join(REPO, env["HOST_CONFIG"])) or o.get("bt") != env["CMAKE_BUILD_TYPE"]:
        raise Violation("wrong-settings", "%s: configured with %s" % (what, av))
    if "-DENABLE_COVERAGE:BOOL=" + ("ON" if cov else "OFF") not in av:
        raise Violation("wrong-settings", "%s: coverage is %sconfigured: %s" % (what, "not " if cov else "", av))
    return o.get("bp") and pp.normpath(pp.join(cwd, o["bp"]))


def launcher(ctx, name, p, faults, what):
    env = dict(p["env"])
    env["BUILD_AND_TEST_ARGS"] = " ".join(p["args"])
    r = shell(ctx, name, p, env["GITHUB_WORKSPACE"] + "/scripts/ci_build_and_test.sh", [], env, faults)
    if r.escapes:
        raise Violation("outside-changed", "%s: tried to change %s" % (what, r.escapes[0]))
    calls = ctx.stub_log(name)
    d = [c for c in calls if c[0] == "docker"]
    other = [c for c in calls if c[0] not in ("docker", "nproc")]
    if other:
        raise Violation("not-requested", "%s: the launching script runs %s" % (what, other[0][0]))
    if len(d) > 1:
        raise Violation("not-requested", "%s: %d containers are started" % (what, len(d)))
    want = p["docker"][0] if not p["docker"][1] else 128 + p["docker"][1]
    if not hard(r):
        if not d:
            raise Violation("fails-without-reason", "%s: no container is started" % what)
        if (128 - r.status if r.status < 0 else r.status) != want:
            raise Violation("status-lost", "%s: the container ended with status %d, the launching script with %d" % (what, want, r.status))
    if r.status == 0 and (not d or want != 0):
        raise Violation("status-lost", "%s: exit status 0, but the container %s" % (what, "was not started" if not d else "ended with status %d" % want))
    if not d:
        return r, None
    try:
        return r, handed_on(ctx, p, env, d[0], r, what)
    except Violation as e:
        torn = [k for k, v in sorted(env.items()) if v and " " in v and k in SETTINGS + ["GITHUB_WORKSPACE"]]
        if not torn:
            raise
        late(ctx, Violation("settings-with-spaces-torn", "%s: a setting with a space in it (%s) does not reach the container whole: %s" % (what, torn[0], e.msg)))
        return r, None


def late(ctx, v):
    """reported when the run has shown nothing else"""
    ctx.info.setdefault("late", []).append(v)


def handed_on(ctx, p, env, call, r, what):
    av, inherited = list(call[2]), call[3]
    if av[:1] != ["run"]:
        raise Violation("wrong-settings", "%s: docker %s" % (what, av))
    got, vols, rest, i = {}, [], [], 1
    image = None
    while i < len(av):
        a = av[i]
        v = None
        if a in ("-e", "--env") and i + 1 < len(av):
            i += 1
            v = av[i]
        elif a.startswith("--env="):
            v = a[6:]
        if v is not None:
            if "=" in v:
                got[v.split("=", 1)[0]] = v.split("=", 1)[1]
            elif v in inherited:
                got[v] = inherited[v]
        elif a in ("-v", "--volume") and i + 1 < len(av):
            i += 1
            vols.append(av[i])
        elif a.startswith("--volume="):
            vols.append(a[9:])
        elif a.startswith("-"):
            rest.append(a)
        else:
            image = a
            break
        i += 1
    cmd = av[i + 1:] if image else []
    if image != env["DOCKER_REPOSITORY"]:
        raise Violation("wrong-settings", "%s: the image %s is run instead of %s: %s" % (what, image, env["DOCKER_REPOSITORY"], av))
    for w in (env["DOCKER_RUN_ARGS"] or "").split():
        if w not in rest:
            raise Violation("wrong-settings", "%s: docker is not given %s" % (what, w))
    mount = [v for v in vols if v.split(":")[0] == env["GITHUB_WORKSPACE"]]
    if not mount:
        raise Violation("wrong-settings", "%s: the workspace %s is not mounted: %s" % (what, env["GITHUB_WORKSPACE"], vols))
    m = mount[0].split(":")[1]
    if not cmd or cmd[0] != m + "/scripts/ci_build_and_test_in_container.sh" or cmd[1:] != p["args"]:
        raise Violation("wrong-settings", "%s: the container runs %s instead of the build script with %s" % (what, cmd, p["args"]))
    for k in SETTINGS + ["CC", "CXX"]:
        w = env.get({"CC": "CMAKE_C_COMPILER", "CXX": "CMAKE_CXX_COMPILER"}.get(k, k))
        if k == "NPROC" and not w:
            w = "" if p["nproc"] == "fails" or hard(r) else p["nproc"]
            if hard(r) or not w:
                continue
        if k == "NPROC" and not env["NPROC"] and not got.get(k):
            late(ctx, Violation("processors-not-handed-on", "%s: NPROC is not set, the number of processors found (%s) does not reach the container" % (what, w)))
        elif (got.get(k) or "") != (w or ""):
            raise Violation("wrong-settings", "%s: the container is given %s=%s instead of %s" % (what, k, got.get(k), w))
    return got, m, cmd[1:]


def attempt(ctx, name, p, faults, what):
    probes = ctx.info["probes"]
    if p["which"] in ("launch", "both"):
        r, handed = launcher(ctx, name, p, faults, what)
        probes.append("launched")
        if p["docker"] != [0, 0]:
            probes.append("container fails")
        if not p["env"]["NPROC"]:
            probes.append("number of processors not given")
        if p["which"] == "both" and handed and not faults and handed[1] == REPO:
            env = dict(handed[0])
            q = dict(p, callas="abs", cwd="/sim")
            container(ctx, name, q, env, handed[2], [], what + ", in the container")
            probes.append("settings reach the container")
        return r
    r, failed, start = container(ctx, name, p, p["env"], p["args"], faults, what)
    if failed:
        probes.append({"style": "tests fail", "doxygen": "tests fail", "checks": "tests fail", "tests": "tests fail"}.get(failed, failed + " fails"))
        if p["bad"].get(failed, [0, 0])[1]:
            probes.append("step dies from a signal")
    elif r.status == 0:
        probes.append("all steps succeed")
    return r


def run(ctx, p):
    ctx.info["late"] = []
    walk(ctx, p)
    if ctx.info["late"]:
        raise ctx.info["late"][0]


def walk(ctx, p):
    probes = ctx.info["probes"] = []
    probes.append({"style": "style check", "doxygen": "documentation check", "checks": "code checks", "coverage": "coverage", "exe": "build and test", "exe-notest": "build without tests", "none": "configure only", "notest": "configure only"}.get(p["mode"], "coverage and build"))
    for on, what in ((not p["env"]["HOST_CONFIG"], "no host configuration"), (not p["env"]["CMAKE_BUILD_TYPE"], "no build type"), (not p["builddir"], "missing build directory"), (p["real"] and p["builddir"], "configured by the real script")):
        if on:
            probes.append(what)
    setup(ctx, "A", p)
    ctx.info["nontrivial"] = bool(p["bad"]) or p["docker"] != [0, 0] or not p["builddir"] or not p["covfile"]
    a = attempt(ctx, "A", p, [], "undisturbed run")
    frng = random.Random(p["fseed"])
    if p["attempts"] is None:
        p["attempts"] = [[f for f in [scr.pick_fault(frng, a.ops, skip=("read", "openr", "close"))] if f] for _ in range(p["natt"])]
    for n, fs in enumerate(p["attempts"]):
        r = attempt(ctx, "A", p, fs, "run %d with %s" % (n + 1, "; ".join("%s at %s %d" % (f["act"], f["kind"], f["nth"]) for f in fs)))
        if r.fired:
            ctx.info["nontrivial"] = True
            probes.append("fault in the shell")
        if r.crashed:
            probes.append("crash")
    if p["attempts"]:
        r = attempt(ctx, "A", p, [], "rerun")
        if r.status != a.status:
            raise Violation("rerun-differs", "the rerun ends with status %s, the first run with %s" % (r.status, a.status))


def reductions(p):
    for i in range(len(p["attempts"] or [])):
        q = copy.deepcopy(p)
        del q["attempts"][i]
        yield q
    for k in list(p["bad"]):
        q = copy.deepcopy(p)
        del q["bad"][k]
        yield q
    for key, val in (("which", "container"), ("which", "launch"), ("real", False), ("builddir", True), ("covfile", True), ("destlocked", False), ("stale", False), ("docker", [0, 0]), ("callas", "abs"), ("cwd", "/sim"), ("nproc", "4")):
        if p[key] != val:
            q = copy.deepcopy(p)
            q[key] = val
            yield q
    for k in ("CMAKE_C_COMPILER", "CMAKE_CXX_COMPILER", "ENABLE_CUDA", "CMAKE_CUDA_ARCHITECTURES", "DOCKER_RUN_ARGS", "NPROC"):
        if p["env"][k]:
            q = copy.deepcopy(p)
            q["env"][k] = None
            yield q
