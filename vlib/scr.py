"""Engine of the script simulator: seeded exploration of simulated script executions, self-checks, minimisation, evidence."""
import copy
import errno
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import stat
import subprocess
import sys
import tempfile
import time

from . import common
from .common import CORES, REPO, SEED, TIER, VERIF, CheckError

NOBODY = 65534
KINDS = ["openr", "openw", "read", "write", "close", "stat", "mkdir", "rmdir", "unlink", "rename", "link", "chmod", "chdir", "readdir", "fork", "wait", "truncate", "sync", "stdout", "readlink", "time", "pipe", "exec", "other"]
HASHSEEDS = 12


class Res:
    """Outcome of one simulated process."""

    def __init__(self, status, hang, log, out, err):
        self.status, self.hang, self.out, self.err = status, hang, out, err
        self.lines = log.splitlines()
        self.ops, self.escapes, self.fired, self.synced, self.written = [], [], [], set(), []
        self.capped = False
        for ln in self.lines:
            w = ln.split(" ")
            if w[0] == "escape":
                self.escapes.append(ln[7:])
            elif w[0] in KINDS:
                self.ops.append((w[0], w[1] if len(w) > 1 else ""))
                if w[0] in ("openw", "write") and len(w) > 1 and w[1] not in self.written:
                    self.written.append(w[1])
                    self.synced.discard(w[1])
                if "fault" in w:
                    i = w.index("fault")
                    self.fired.append((w[0], w[i + 2], w[i + 3]))
            elif w[0] == "synced":
                self.synced.add(w[1])
            elif w[0] == "cap":
                self.capped = True
        self.hang = hang or self.capped
        self.crashed = "crash" in self.lines


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, msg)
        self.cls, self.msg = cls, msg


class Ctx:
    """What a workload uses to run things; one per worker."""

    def __init__(self, scratch, wid, tools):
        self.dir = os.path.join(scratch, "w%03d" % wid)
        os.makedirs(self.dir, exist_ok=True)
        os.chmod(self.dir, 0o755)
        self.tools = tools
        self.servers = {}
        self.trace = None
        self.counts = {}
        self.stamps = 0

    def drop(self):
        os.chown(self.dir, NOBODY, NOBODY)
        if os.getuid() == 0:
            os.setgroups([])
            os.setresgid(NOBODY, NOBODY, NOBODY)
            os.setresuid(NOBODY, NOBODY, NOBODY)
        os.chdir(self.dir)

    def server(self, hs):
        if hs not in self.servers:
            r, w = os.pipe()
            env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": str(hs), "PYTHONDONTWRITEBYTECODE": "1", "LD_PRELOAD": self.tools["shim"]}

            def pre():
                os.dup2(w, 3, inheritable=True)
            p = subprocess.Popen(["/usr/bin/python3", "-S", self.tools["server"]], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=open(os.path.join(self.dir, "srv%d.err" % hs), "w"), env=env, close_fds=False, pass_fds=(), preexec_fn=pre, text=True)
            os.close(w)
            self.servers[hs] = (p, os.fdopen(r))
        return self.servers[hs]

    def request(self, hs, q):
        p, r = self.server(hs)
        try:
            p.stdin.write(json.dumps(q) + "\n")
            p.stdin.flush()
            line = r.readline()
        except OSError:
            line = ""
        if not line:
            raise CheckError("the launcher died: " + open(os.path.join(self.dir, "srv%d.err" % hs)).read()[-2000:])
        return json.loads(line)

    def close(self):
        for p, r in self.servers.values():
            try:
                p.stdin.close()
            except OSError:
                pass
            p.wait()
            r.close()
        self.servers = {}

    # ---- trees ----
    def root(self, name):
        return os.path.join(self.dir, name)

    def make(self, name, files):
        """files: list of [path, kind, content]; kind: f(ile), x (executable), d(irectory), l(ink), u (unreadable file), U (directory that cannot be entered or changed)"""
        r = self.root(name)
        self.wipe(r)
        os.makedirs(os.path.join(r, "tmp"))
        late = []
        for path, kind, content in files:
            p = os.path.join(r, path)
            if kind == "d":
                os.makedirs(p, exist_ok=True)
                continue
            if kind == "U":
                os.makedirs(p, exist_ok=True)
                late.append((p, 0o500))
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if kind == "l":
                os.symlink(content, p)
                continue
            with open(p, "w", encoding="utf-8", errors="surrogateescape", newline="") as f:
                f.write(content)
            if kind == "x":
                os.chmod(p, 0o755)
            if kind == "u":
                late.append((p, 0))
        for p, m in late:
            os.chmod(p, m)
        # file times are part of the plan, too: all equal, in order of creation or the other way round
        for n, x in enumerate(files):
            t = 1600000000 + (0, 60 * n, -60 * n)[self.stamps]
            os.utime(os.path.join(r, x[0]), (t, t), follow_symlinks=False)
        return r

    def wipe(self, r):
        if not os.path.isdir(r):
            return
        for d, ds, _ in os.walk(r):
            for x in ds:
                p = os.path.join(d, x)
                if not os.path.islink(p):
                    os.chmod(p, 0o755)
        os.chmod(r, 0o755)
        shutil.rmtree(r)

    def snap(self, name, skip=("tmp",)):
        """everything in the tree: path -> (type, mode bits, content)"""
        r = self.root(name)
        out = {}
        stack = [""]
        while stack:
            d = stack.pop()
            p = os.path.join(r, d)
            try:
                names = sorted(os.listdir(p))
            except PermissionError:
                os.chmod(p, 0o755)
                names = sorted(os.listdir(p))
                os.chmod(p, 0)
            for n in names:
                rel = n if not d else d + "/" + n
                if not d and n in skip:
                    continue
                q = os.path.join(r, rel)
                st = os.lstat(q)
                if stat.S_ISLNK(st.st_mode):
                    out[rel] = ("l", 0, os.readlink(q))
                elif stat.S_ISDIR(st.st_mode):
                    out[rel] = ("d", st.st_mode & 0o777, "")
                    stack.append(rel)
                else:
                    m = st.st_mode & 0o777
                    if not m & 0o400:
                        os.chmod(q, 0o600)
                    with open(q, "rb") as f:
                        out[rel] = ("f", m, f.read())
                    if not m & 0o400:
                        os.chmod(q, m)
        return out

    def add(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    # ---- runs ----
    def env(self, name, stub_plan=None, path=True, extra=None, stub_env=""):
        r = self.root(name)
        e = {"PATH": (self.tools["stubs"] + ":" if path else "") + "/usr/bin:/bin", "HOME": "/sim", "LANG": "C.UTF-8", "PWD": "/sim", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
             "SIMIO_ROOT": r, "SIMIO_LOGFD": "250", "LD_PRELOAD": self.tools["shim"]}
        if stub_plan is not None:
            lp, pp = os.path.join(self.dir, name + ".stublog"), os.path.join(self.dir, name + ".stubplan")
            with open(lp, "w"):
                pass
            with open(pp, "w") as f:
                f.write("\n".join(stub_plan) + "\n")
            e.update({"SIMSTUB_LOG": lp, "SIMSTUB_PLAN": pp, "SIMSTUB_ENV": stub_env})
        if extra:
            e.update(extra)
        return e

    def stub_log(self, name):
        """calls recorded by the stand-in tools: (name, cwd, argv, env)"""
        with open(os.path.join(self.dir, name + ".stublog"), encoding="utf-8", errors="surrogateescape") as f:
            s = f.read()
        calls = []
        for rec in s.split("\x1e")[1:]:
            a = rec[:-1].split("\x1f")
            n = int(a[2])
            calls.append((a[0], a[1], a[3:3 + n], dict(x.split("=", 1) for x in a[3 + n:])))
        return calls

    def _finish(self, name, tag, ans):
        def rd(x):
            with open(x, encoding="utf-8", errors="replace") as f:
                return f.read()
        log = rd(os.path.join(self.dir, tag + ".log"))
        r = Res(ans["status"], ans["hang"], log, rd(os.path.join(self.dir, tag + ".out")), rd(os.path.join(self.dir, tag + ".err")))
        self.add("simulated processes")
        self.add("operations", len(r.ops))
        for k, a, _ in r.fired:
            self.add("fault:" + a)
        self.note("%s %s %s" % (tag, r.status, r.hang))
        self.note(log)
        return r

    def note(self, s):
        self.trace.update(s.replace(self.dir, "@").encode("utf-8", "surrogateescape"))

    def py(self, name, script, argv, cwd, faults=(), seed=1, hs=0, env=None):
        for ext in (".log", ".out", ".err"):
            p = os.path.join(self.dir, name + ext)
            if os.path.exists(p):
                os.unlink(p)
        ft = "".join("%s %d %s %d %s\n" % (f["kind"], f["nth"], f["act"], f.get("arg", 0), f.get("path") or "-") for f in faults)
        q = {"kind": "py", "code": os.path.join(self.tools["scripts"], script), "argv": argv, "root": self.root(name), "cwd": cwd, "faults": ft, "seed": seed,
             "out": os.path.join(self.dir, name + ".out"), "err": os.path.join(self.dir, name + ".err"), "log": os.path.join(self.dir, name + ".log"), "env": env or self.env(name), "quiet": os.path.dirname(argv[0])}
        return self._finish(name, name, self.request(hs, q))

    def cmd(self, name, exe, argv, cwd, env):
        for ext in (".log", ".out", ".err"):
            p = os.path.join(self.dir, name + ext)
            if os.path.exists(p):
                os.unlink(p)
        q = {"kind": "cmd", "exe": exe, "argv": argv, "root": self.root(name), "cwd": cwd, "out": os.path.join(self.dir, name + ".out"), "err": os.path.join(self.dir, name + ".err"), "log": os.path.join(self.dir, name + ".log"), "env": env}
        return self._finish(name, name, self.request(0, q))


# ---- faults ---------------------------------------------------------------------------------------------------
HARD = {
    "openr": [errno.EIO, errno.EACCES, errno.ENOENT, errno.EMFILE, errno.ENFILE, errno.ENOMEM],
    "openw": [errno.EIO, errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE, errno.EDQUOT],
    "read": [errno.EIO, errno.ENOMEM], "write": [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG], "close": [errno.EIO, errno.ENOSPC, errno.EDQUOT],
    "stat": [errno.EIO, errno.EACCES, errno.ENOMEM], "mkdir": [errno.ENOSPC, errno.EACCES, errno.EIO, errno.EROFS], "rmdir": [errno.EBUSY, errno.EACCES, errno.ENOTEMPTY, errno.EIO],
    "unlink": [errno.EACCES, errno.EIO, errno.EBUSY, errno.EROFS], "rename": [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EXDEV], "link": [errno.ENOSPC, errno.EACCES],
    "chmod": [errno.EPERM, errno.EIO, errno.EROFS], "chdir": [errno.EACCES, errno.ENOENT, errno.EIO], "readdir": [errno.EACCES, errno.EIO, errno.EMFILE],
    "fork": [errno.EAGAIN, errno.ENOMEM], "pipe": [errno.EMFILE, errno.ENFILE], "truncate": [errno.EIO], "sync": [errno.EIO], "readlink": [errno.EIO], "time": [errno.EPERM], "stdout": [errno.ENOSPC, errno.EIO, errno.EPIPE],
    "wait": [], "exec": [], "other": [errno.EPERM],
}
WEIGHT = {"stat": 1, "openr": 3, "openw": 4, "read": 2, "write": 4, "close": 2, "mkdir": 4, "rmdir": 3, "unlink": 3, "chmod": 4, "chdir": 4, "readdir": 3, "fork": 5, "pipe": 2, "wait": 4, "stdout": 1, "rename": 5, "sync": 3}


def pick_fault(rng, ops, vanish=(), skip=()):
    """a fault for one operation of the recorded run"""
    pool, seen = [], {}
    for k, path in ops:
        seen[k] = seen.get(k, 0) + 1
        if k in skip:
            continue
        pool.append((k, seen[k], WEIGHT.get(k, 1)))
    if not pool:
        return None
    # every kind of operation gets its share, whatever its number
    kinds = sorted({p[0] for p in pool})
    k = rng.choices(kinds, [WEIGHT.get(x, 1) for x in kinds])[0] if rng.random() < 0.7 else rng.choice(pool)[0]
    nth = rng.choice([p[1] for p in pool if p[0] == k])
    f = {"kind": k, "nth": nth}
    x = rng.random()
    if k == "wait":
        f.update(rng.choice([{"act": "crash", "arg": 1}, {"act": "signal", "arg": -2}, {"act": "signal", "arg": -15}]))
    elif k == "fork" and x >= 0.42:          # a child outliving its parent would run at its own pace
        f.update(rng.choice([{"act": "crash", "arg": 0}, {"act": "signal", "arg": 15}]))
    elif x < 0.42 and HARD.get(k):
        f.update(act="errno", arg=rng.choice(HARD[k]))
    elif x < 0.62:
        f.update(act="crash", arg=rng.choice([0, 1, 2]) if k == "write" else rng.choice([0, 1]))
    elif x < 0.70:
        f.update(act="signal", arg=rng.choice([2, -2, 15]))
    elif x < 0.80 and k in ("read", "write"):
        f.update(act=rng.choice(["short", "eintr"]), arg=0)
    elif x < 0.88 and k in ("write", "mkdir", "openw"):
        f.update(act="full", arg=0)
    elif vanish:
        f.update(act=rng.choice(["vanish", "deny"]), arg=0, path=rng.choice(vanish))
    elif HARD.get(k):
        f.update(act="errno", arg=rng.choice(HARD[k]))
    else:
        f.update(act="crash", arg=0)
    return f


def soft(f):
    """faults a program must not even notice"""
    return f["act"] in ("short", "eintr") and f["kind"] in ("read", "write", "stdout")


def lose_unsynced(ctx, name, res, rng_seed, root_prefix="/sim/"):
    """power loss: data written and not synced may be missing"""
    rng = random.Random(rng_seed)
    n = 0
    for v in res.written:
        if v in res.synced:
            continue
        p = ctx.root(name) + ("/" + v[len(root_prefix):] if v.startswith(root_prefix) else v)
        if not os.path.isfile(p) or os.path.islink(p):
            continue
        x = rng.random()
        if x < 0.4:
            with open(p, "r+b") as f:
                f.truncate(rng.randint(0, os.path.getsize(p)))
            n += 1
        elif x < 0.55:
            os.truncate(p, 0)
            n += 1
        elif x < 0.7:
            os.unlink(p)
            n += 1
    if n:
        ctx.add("fault:lost-unsynced-data", n)
    return n


# ---- exploration ------------------------------------------------------------------------------------------------
def one(W, ctx, plan):
    """carries out one plan; returns (violation or None, hash, info)"""
    ctx.trace = hashlib.sha256()
    ctx.info = {}
    v = None
    try:
        ctx.stamps = plan["seed"] % 4 % 3
        W.run(ctx, plan)
    except Violation as e:
        v = (e.cls, e.msg)
        ctx.note("violation " + e.cls)
    return v, ctx.trace.hexdigest()[:24], ctx.info


def plan_of(W, i):
    rng = random.Random("%s/%d/%d" % (W.NAME, SEED, i))
    p = W.gen(rng, TIER)
    p.setdefault("hs", rng.randrange(HASHSEEDS))
    p.setdefault("hs2", rng.randrange(HASHSEEDS))
    p.setdefault("seed", rng.randrange(1 << 30))
    return p


def worker(W, scratch, wid, step, first, count, deadline, tools, path, maxviol):
    ctx = Ctx(scratch, wid, tools)
    out = open(path, "w")
    ctx.drop()
    res = {"runs": 0, "hashes": {}, "viols": [], "nontrivial": [], "samples": [], "probes": {}, "known": [], "error": None}
    fresh = 0
    try:
        for i in range(first, count, step):
            if time.time() > deadline:
                break
            plan = plan_of(W, i)
            v, h, info = one(W, ctx, plan)
            res["runs"] += 1
            res["hashes"][i] = h
            if info.get("nontrivial"):
                res["nontrivial"].append(i)
                if len(res["samples"]) < 1:
                    res["samples"].append(plan)
            for k in info.get("probes", ()):
                res["probes"][k] = res["probes"].get(k, 0) + 1
            if v and common.matches_known(W.NAME, {"cls": v[0], "msg": v[1]}):
                if v[0] not in res["known"]:
                    res["known"].append(v[0])
                    res["viols"].append({"i": i, "cls": v[0], "msg": v[1], "plan": plan})
            elif v:
                fresh += 1
                res["viols"].append({"i": i, "cls": v[0], "msg": v[1], "plan": plan})
                if fresh >= maxviol:
                    break
    except CheckError as e:
        res["error"] = str(e)
    except BaseException:
        import traceback
        res["error"] = traceback.format_exc()
    ctx.close()
    res["counts"] = ctx.counts
    json.dump(res, out)
    out.close()
    os._exit(0)


def explore(W, scratch, workers, count, secs, tools, base=0, maxviol=3):
    mp = multiprocessing.get_context("fork")
    ps = []
    deadline = time.time() + secs
    for w in range(workers):
        path = os.path.join(scratch, "res-%d.json" % (base + w))
        p = mp.Process(target=worker, args=(W, scratch, base + w, workers, w, count, deadline, tools, path, maxviol))
        p.start()
        ps.append((p, path))
    m = {"runs": 0, "hashes": {}, "viols": [], "nontrivial": set(), "counts": {}, "probes": {}, "samples": []}
    for p, path in ps:
        p.join()
        try:
            with open(path) as f:
                r = json.load(f)
        except ValueError:
            raise CheckError("a worker left no result")
        if r["error"]:
            raise CheckError("worker: " + r["error"])
        m["runs"] += r["runs"]
        m["hashes"].update({int(k): v for k, v in r["hashes"].items()})
        m["nontrivial"].update(r["nontrivial"])
        m["viols"] += r["viols"]
        m["samples"] += r["samples"]
        for src in ("counts", "probes"):
            for k, v in r[src].items():
                m[src][k] = m[src].get(k, 0) + v
    m["viols"].sort(key=lambda v: v["i"])
    return m


def isolated(W, scratch, wid, tools, plans):
    """carries plans out in a fresh worker process; returns a list of (violation, hash)"""
    path = os.path.join(scratch, "iso-%d.json" % wid)

    def body():
        ctx = Ctx(scratch, wid, tools)
        out = open(path, "w")
        ctx.drop()
        r = []
        try:
            for p in plans:
                v, h, _ = one(W, ctx, copy.deepcopy(p))
                r.append([v, h])
        except CheckError as e:
            r = {"error": str(e)}
        ctx.close()
        json.dump(r, out)
        out.close()
        os._exit(0)
    p = multiprocessing.get_context("fork").Process(target=body)
    p.start()
    p.join()
    with open(path) as f:
        r = json.load(f)
    if isinstance(r, dict):
        raise CheckError(r["error"])
    return r


def gate(W, scratch, tools, plan):
    a = isolated(W, scratch, 300, tools, [plan])[0]
    b = isolated(W, scratch, 301, tools, [plan])[0]
    if not a[0] or not b[0] or a[0] != b[0] or a[1] != b[1]:
        return None
    return a[0]


def minimise(W, scratch, tools, plan, cls, secs):
    end = time.time() + secs
    best = plan
    progress = True
    while progress and time.time() < end:
        progress = False
        cands = list(W.reductions(best))
        for k in range(0, len(cands), 8):
            if time.time() > end:
                break
            group = cands[k:k + 8]
            for c, (v, _) in zip(group, isolated(W, scratch, 302, tools, group)):
                if v and v[0] == cls:
                    best = c
                    progress = True
                    break
            if progress:
                break
    return best


def prepare(W, scratch):
    """builds the simulated layer and the stand-in tools, copies the scripts of the current tree"""
    os.chmod(scratch, 0o755)
    t = {"shim": os.path.join(scratch, "ioshim.so"), "stubs": os.path.join(scratch, "bin"), "scripts": os.path.join(scratch, "scripts"), "server": os.path.join(scratch, "scr_srv.py")}
    r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", t["shim"], os.path.join(VERIF, "sim", "ioshim.c"), "-ldl"], stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise CheckError("shim: " + r.stderr)
    os.makedirs(t["stubs"])
    r = subprocess.run(["gcc", "-O1", "-w", "-o", os.path.join(t["stubs"], "stub"), os.path.join(VERIF, "sim", "stub.c")], stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise CheckError("stub: " + r.stderr)
    for n in getattr(W, "STUBS", ["cmake", "make", "ninja", "ctest", "dot", "docker", "nproc"]):
        os.link(os.path.join(t["stubs"], "stub"), os.path.join(t["stubs"], n))
    os.makedirs(t["scripts"])
    for f in os.listdir(os.path.join(REPO, "scripts")):
        src = os.path.join(REPO, "scripts", f)
        if os.path.isfile(src):
            shutil.copyfile(src, os.path.join(t["scripts"], f))
            os.chmod(os.path.join(t["scripts"], f), 0o755)
    shutil.copyfile(os.path.join(VERIF, "vlib", "scr_srv.py"), t["server"])
    return t


def scratch_dir(prop):
    for base in ("/dev/shm", os.path.join(VERIF, "build")):
        try:
            os.makedirs(base, exist_ok=True)
            d = tempfile.mkdtemp(prefix="shiva-%s-" % prop, dir=base)
            if os.statvfs(d).f_bavail * os.statvfs(d).f_frsize > (64 << 20):
                return d
            shutil.rmtree(d)
        except OSError:
            pass
    raise CheckError("no room for scratch files")


def check(prop, spec, replay_file=None):
    W = spec["module"]
    t0 = time.time()
    scratch = scratch_dir(prop)
    try:
        tools = prepare(W, scratch)
        if replay_file:
            with open(replay_file) as f:
                d = json.load(f)
            v, h = isolated(W, scratch, 300, tools, [d["plan"]])[0]
            print(json.dumps({"ok": not v, "hash": h, "violation": v}))
            if v:
                common.report_violation(prop, replay_file, {"cls": v[0], "msg": v[1]})
                return 1
            print("the replay does not violate the property on this tree")
            return 0
        total = spec[TIER]
        secs = spec.get("cap_" + TIER, 100 if TIER == "quick" else 1500)
        te = time.time()
        m = explore(W, scratch, CORES, total, secs, tools)
        te = time.time() - te
        result, cov = 0, {}
        known = set()
        left = []
        for v in m["viols"]:
            k = common.matches_known(prop, v)
            if k:
                known.add("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            else:
                left.append(v)
        if left:
            result = 2
            for v in left[:6]:
                g = gate(W, scratch, tools, v["plan"])
                if not g:
                    print("note: run %d (%s: %s) did not replay" % (v["i"], v["cls"], v["msg"]))
                    continue
                best = minimise(W, scratch, tools, v["plan"], g[0], 40 if TIER == "quick" else 200)
                g2 = gate(W, scratch, tools, best)
                if not g2:
                    best, g2 = v["plan"], g
                path = common.replay_path(prop, "seed%d-run%d" % (SEED, v["i"]), "json")
                with open(path, "w") as f:
                    json.dump({"property": prop, "seed": SEED, "run": v["i"], "class": g2[0], "message": g2[1], "replay": "python3 check.py %s --replay %s" % (prop, path), "plan": best}, f, indent=1)
                    f.write("\n")
                common.report_violation(prop, path, {"cls": g2[0], "msg": g2[1]})
                cov["violation"] = {"class": g2[0], "message": g2[1], "replay": path}
                result = 1
                break
        # the same runs again with another number of workers
        det = 0
        if result != 1:
            d = explore(W, scratch, 3, min(spec.get("det", 150), m["runs"]), 3600, tools, base=100)
            bad = [i for i in d["hashes"] if i in m["hashes"] and d["hashes"][i] != m["hashes"][i]]
            det = len(d["hashes"])
            if bad:
                print("error: run(s) %s are not deterministic" % bad[:5])
                result = 2
        distinct = {m["hashes"][i] for i in m["nontrivial"]}
        cov.update({
            "evaluations": m["runs"], "distinct_nontrivial": len(distinct),
            "rule": spec["rule"] + " A run counts as distinct and non-trivial when at least one fault fired, a process crashed, a step failed or the input was one the script has to refuse, and the hash of all its "
                                   "operations, results and statuses differs from every other run's.",
            "samples": [re.sub(r"(.)\1{40,}", r"\1(repeated)", json.dumps(s))[:3000] for s in m["samples"][:3]],
            "operations": m["counts"].get("operations", 0), "simulated_processes": m["counts"].get("simulated processes", 0),
            "faults_fired": {k[6:]: v for k, v in sorted(m["counts"].items()) if k.startswith("fault:")},
            "probes": {k: m["probes"].get(k, 0) for k in sorted(set(m["probes"]) | set(getattr(W, "PROBES", ())))},
            "runs_per_hour": int(m["runs"] / max(te, 0.001) * 3600), "seeds_per_hour": int(m["runs"] / max(te, 0.001) * 3600),
            "simulated_time": "the clock advances one second per file operation: %d s" % m["counts"].get("operations", 0),
            "determinism_replayed_runs": det, "real_components": spec["real"], "stub_components": spec["stub"],
        })
        common.write_evidence(prop, cov, len(left), spec["assumptions"])
        for k in sorted(known):
            print(k)
        if result == 0:
            print("%s: %d runs, %d distinct non-trivial, %d determinism replays, %.0f s: held" % (prop, m["runs"], len(distinct), det, time.time() - t0))
        return result
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", scratch)
        else:
            for d, ds, _ in os.walk(scratch):
                for x in ds:
                    if not os.path.islink(os.path.join(d, x)):
                        try:
                            os.chmod(os.path.join(d, x), 0o755)
                        except OSError:
                            pass
            shutil.rmtree(scratch, ignore_errors=True)
