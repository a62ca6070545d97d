"""Driver of the C++ simulator: build from the current tree, explore, self-check, minimise, gate, report."""
import concurrent.futures as cf
import json
import os
import subprocess
import time

from . import common, devtrans
from .common import CORES, REPO, SEED, TIER, VERIF, CheckError

WRAP = "-Wl," + ",".join("--wrap=" + s for s in ("malloc", "free", "calloc", "realloc", "memcpy", "memmove", "memset", "strlen", "strcpy", "strcat", "strncpy", "strncat", "strdup", "strndup"))

CONFIG = """#pragma once
#define SHIVA_VERSION_MAJOR 0
#define SHIVA_VERSION_MINOR 1
#define SHIVA_VERSION_PATCHLEVEL 0
%s
#define SHIVA_CUDA_MAJOR %d
#define SHIVA_CUDA_MINOR %d
"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build(wl, out, variant):
    """variant: dict(cxx, flags, defines(list of config macros), incs)"""
    os.makedirs(os.path.join(out, "inc", "shiva"), exist_ok=True)
    macros = "\n".join("#define " + m for m in variant.get("config", ["SHIVA_ENABLE_BOUNDS_CHECK"]))
    cuda = 12 if any("CUDA" in m for m in variant.get("config", [])) else 0
    with open(os.path.join(out, "inc", "shiva", "ShivaConfig.hpp"), "w") as f:
        f.write(CONFIG % (macros, cuda, 0))
    cxx = variant.get("cxx", "g++")
    base = [cxx, "-std=c++17", "-w"] + variant.get("flags", ["-O0"])
    inc0 = [os.path.join(out, "inc")]
    if variant.get("device"):
        inc0.append(devtrans.translate(os.path.join(REPO, "include"), os.path.join(out, "devinc")))
    incs = ["-I" + i for i in inc0] + ["-I" + os.path.join(VERIF, i) for i in variant.get("incs", [])] + [
        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "wl")]
    jobs = []
    objs = []
    for src in variant["sources"]:
        o = os.path.join(out, os.path.basename(src) + ".o")
        objs.append(o)
        jobs.append(base + ["-fsanitize=thread"] + incs + ["-c", os.path.join(VERIF, "wl", src), "-o", o])
    for src in variant.get("plain", []):
        o = os.path.join(out, os.path.basename(src) + ".o")
        objs.append(o)
        jobs.append(["g++", "-std=c++17", "-O2", "-w", "-fno-threadsafe-statics"] + incs[-2:] + ["-c", os.path.join(VERIF, "sim", src), "-o", o])
    o = os.path.join(out, "simrt.o")
    objs.append(o)
    jobs.append(["g++", "-std=c++17", "-O2", "-w", "-fno-threadsafe-statics", "-I" + os.path.join(VERIF, "sim"), "-c", os.path.join(VERIF, "sim", "simrt.cpp"), "-o", o])

    with cf.ThreadPoolExecutor(CORES) as ex:
        for cmd, r in zip(jobs, ex.map(lambda c: run(c), jobs)):
            if r.returncode != 0:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    exe = os.path.join(out, wl)
    r = run(["g++", "-no-pie", WRAP] + objs + ["-o", exe, "-lpthread", "-ldl"])
    if r.returncode != 0:
        raise CheckError("link failed:\n" + r.stderr[-4000:])
    return exe


def explore(exe, seed, count, secs, workers, out, tag, maxviol=6, tier=0):
    os.makedirs(out, exist_ok=True)
    procs = []
    for w in range(workers):
        of = os.path.join(out, "%s-%d.jsonl" % (tag, w))
        hf = os.path.join(out, "%s-%d.hash" % (tag, w))
        procs.append((subprocess.Popen([exe, "explore", str(seed), str(w), str(workers), str(count), str(secs), of, hf, str(maxviol), str(tier), out],
                                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), of, hf))
    viols, sums, hashes = [], [], {}
    for p, of, hf in procs:
        _, err = p.communicate()
        if p.returncode != 0:
            raise CheckError("explorer exited %s: %s" % (p.returncode, err[-2000:]))
        with open(of) as f:
            for line in f:
                d = json.loads(line)
                (viols if d["t"] == "viol" else sums).append(d)
        with open(hf) as f:
            for line in f:
                a = line.split()
                hashes[int(a[0])] = (a[1], a[2], int(a[3]), int(a[4]), int(a[5]))
    viols.sort(key=lambda v: v["i"])
    return viols, sums, hashes


def add(d, e):
    for k, v in e.items():
        d[k] = d.get(k, 0) + v


def merge(sums):
    m = {"seen": {}, "fired": {}, "probes": {}, "kinds": {}, "policies": [0] * 5}
    for s in sums:
        for k in ("runs", "steps", "accesses", "switches", "ops", "terms", "outbytes", "simtime", "faultruns"):
            m[k] = m.get(k, 0) + s[k]
        m["secs"] = max(m.get("secs", 0), s["secs"])
        for k in ("seen", "fired", "probes", "kinds"):
            add(m[k], s[k])
        m["policies"] = [a + b for a, b in zip(m["policies"], s["policies"])]
    return m


# ---- plans ----------------------------------------------------------------------------------------------------
class PlanText:
    def __init__(self, text):
        self.head, self.ops, self.switches = [], [], []
        for line in text.splitlines():
            if line.startswith("#") or not line.strip() or line == "end":
                continue
            if line.startswith("op "):
                self.ops.append(line)
            elif line.startswith("switch "):
                self.switches.append(line)
            else:
                self.head.append(line)

    def text(self, ops=None, switches=None, head=None, comment=""):
        return comment + "\n".join((self.head if head is None else head) + (self.ops if ops is None else ops) + (self.switches if switches is None else switches) + ["end", ""])


def replay(exe, text, tmp, rec=None, timeout=260):
    fn = tmp + ".plan"
    with open(fn, "w") as f:
        f.write(text)
    cmd = [exe, "replay", fn] + ([rec] if rec else [])
    try:
        r = run(cmd, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"ok": False, "cls": "internal-timeout", "msg": "", "hash": "?"}
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except (IndexError, ValueError):
        raise CheckError("replay produced no result: %s %s" % (r.stdout, r.stderr))


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        if len(items) == 1:
            if test([]):
                items = []
            break
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        cands = [sum(chunks[:k] + chunks[k + 1:], []) for k in range(len(chunks))]
        done = False
        for c in cands:
            if time.time() > deadline:
                break
            if test(c):
                items = c
                n = max(n - 1, 2)
                done = True
                break
        if not done:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(exe, text, cls, scratch, budget):
    deadline = time.time() + budget
    p = PlanText(text)
    pool = cf.ThreadPoolExecutor(CORES)
    ctr = [0]

    def pol(head, k):
        if k == 0:
            return head
        out = []
        for h in head:
            if h.startswith("policy "):
                a = h.split()
                variants = [("1", "4", "0"), ("1", "20", "1"), ("4", "900", "200"), ("3", "0", "0")]
                if k <= 3:
                    a[6] = str(k * 7919)
                elif k <= 5:
                    a[1:4] = ["1", "6" if k == 4 else "40", "1" if k == 4 else "0"]
                    a[6] = str(k)
                else:
                    a[1:4] = ["3", "900", "300"]
                    a[6] = str(k * 31)
                h = " ".join(a)
            out.append(h)
        return out

    def attempt(ops, head):
        ctr[0] += 1
        base = os.path.join(scratch, "min%d" % ctr[0])
        order = [head] + [pol(head, k) for k in range(1, 8)]

        def one(kh):
            k, h = kh
            r = replay(exe, p.text(ops=ops, switches=[], head=h), base + "-%d" % k)
            return h if (not r["ok"] and r["cls"] == cls) else None
        res = list(pool.map(one, enumerate(order)))
        for h in res:
            if h is not None:
                return h
        return None

    head = [p.head]

    def test_ops(ops):
        h = attempt(ops, head[0])
        if h is not None:
            head[0] = h
            return True
        return False
    ops = ddmin(p.ops, test_ops, deadline) if cls != "hang" else p.ops
    # drop faults one by one
    if cls != "hang":
        for i in range(len(ops)):
            if time.time() > deadline:
                break
            if " faults 0" not in ops[i]:
                cand = list(ops)
                cand[i] = ops[i].split(" faults ")[0] + " faults 0 # " + ops[i].split(" # ")[-1].split()[0]
                if test_ops(cand):
                    ops = cand
    best = p.text(ops=ops, switches=[], head=head[0])
    # make the schedule explicit and minimise it
    rec = os.path.join(scratch, "rec.plan")
    r = replay(exe, best, os.path.join(scratch, "rec0"), rec)
    if not r["ok"] and r["cls"] == cls and os.path.exists(rec):
        q = PlanText(open(rec).read())
        n = [0]

        def test_sw(sw):
            n[0] += 1
            r2 = replay(exe, q.text(switches=sw), os.path.join(scratch, "sw%d" % n[0]))
            return not r2["ok"] and r2["cls"] == cls
        if test_sw(q.switches):
            sw = ddmin(q.switches, test_sw, deadline) if len(q.switches) <= 600 and cls != "hang" else q.switches
            best = q.text(switches=sw)
    pool.shutdown()
    return best


def gate(exe, text, scratch, tag):
    a = replay(exe, text, os.path.join(scratch, tag + "-a"))
    b = replay(exe, text, os.path.join(scratch, tag + "-b"))
    if a["ok"] or b["ok"] or a["cls"] != b["cls"] or a["hash"] != b["hash"] or a["msg"] != b["msg"]:
        return None
    if a["cls"].startswith("internal"):
        return None
    return a


def check(prop, spec, replay_file=None):
    """spec: dict(workload, variants=[(name, variant, share)], quick, thorough, cap, rule, real, stub, assumptions, nontrivial)"""
    with common.Scratch(prop) as scratch:
        variants = [v for v in spec["variants"] if TIER == "thorough" or not v.get("thorough_only")]
        if replay_file:
            text = open(replay_file).read()
            name = "base"
            for line in text.splitlines():
                if line.startswith("# variant "):
                    name = line.split()[2]
            v = [v for v in spec["variants"] if v["name"] == name][0]
            exe = build(spec["workload"], os.path.join(scratch, name), v)
            r = replay(exe, text, os.path.join(scratch, "r"))
            print(json.dumps(r))
            if not r["ok"]:
                common.report_violation(prop, replay_file, r)
                return 1
            print("the replay does not violate the property on this tree")
            return 0
        t_build = time.time()
        exes = []
        with cf.ThreadPoolExecutor(len(variants)) as ex:
            def attempt(v):
                try:
                    return build(spec["workload"], os.path.join(scratch, v["name"]), v)
                except CheckError as e:
                    return e
            exes = list(ex.map(attempt, variants))
        # a variant that cannot be built leaves the check without an answer, unless another one has found a violation
        # (dialects and devices that the project's own tests are not built for are left out then: the suite says nothing about them, either)
        left_out = [v["name"] for v, e in zip(variants, exes) if isinstance(e, CheckError) and v.get("optional")]
        unbuilt = [e for v, e in zip(variants, exes) if isinstance(e, CheckError) and not v.get("optional")]
        t_build = time.time() - t_build
        total = spec[TIER]
        cap = spec.get("cap_" + TIER, 60 if TIER == "quick" else 1500)
        cov = {"build_s": round(t_build, 1), "variants": {}}
        if left_out:
            cov["variants_that_do_not_compile"] = left_out
            print("%s: left out, does not compile: %s" % (prop, ", ".join(left_out)))
        evaluations = 0
        distinct = set()
        trivial = 0
        samples = []
        allsum = []
        det_runs = 0
        known_lines = set()
        violations = 0
        result = 0
        t_ex = time.time()
        for v, exe in zip(variants, exes):
            if isinstance(exe, CheckError):
                continue
            share = v.get("share", 1.0)
            viols, sums, hashes = explore(exe, SEED, max(8, int(total * share)), cap * share, CORES, os.path.join(scratch, "x-" + v["name"]), "e", tier=1 if TIER == "thorough" else 0)
            m = merge(sums)
            allsum.extend(sums)
            evaluations += m["runs"]
            for i, h in hashes.items():
                if h[2] > 0 and (h[3] > 0 or h[4]):
                    distinct.add((v["name"], h[0]))
                else:
                    trivial += 1
            cov["variants"][v["name"]] = {"runs": m["runs"], "compiler": v.get("cxx", "g++") + " " + " ".join(v.get("flags", ["-O0"])), "config": v.get("config", ["SHIVA_ENABLE_BOUNDS_CHECK"]),
                                         "distinct_interleavings": len({h[1] for h in hashes.values()})}
            sd = os.path.join(scratch, "x-" + v["name"])
            for fn in sorted(os.listdir(sd)):
                if fn.startswith("sample-") and len(samples) < 3:
                    samples.append(open(os.path.join(sd, fn)).read()[:3000])
            # violations
            remaining = []
            for x in viols:
                k = common.matches_known(prop, x)
                if k:
                    known_lines.add("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                else:
                    remaining.append(x)
            violations += len(remaining)
            if remaining:
                done = False
                for x in remaining[:8]:
                    text = open(x["plan"]).read()
                    g = gate(exe, text, scratch, "g%d" % x["i"])
                    if g is None:
                        print("note: run %d (%s: %s) did not replay" % (x["i"], x["cls"], x["msg"]))
                        continue
                    best = minimise(exe, text, g["cls"], scratch, 60 if TIER == "quick" else 240)
                    g2 = gate(exe, best, scratch, "m%d" % x["i"])
                    if g2 is None:
                        best, g2 = text, g
                    path = common.replay_path(prop, "%s-seed%d-run%d" % (v["name"], SEED, x["i"]), "plan")
                    with open(path, "w") as f:
                        f.write("# property %s\n# variant %s\n# VERIF_SEED %d run %d\n# violation %s: %s\n# replay: python3 check.py %s --replay %s\n" % (
                            prop, v["name"], SEED, x["i"], g2["cls"], g2["msg"].replace("\n", " "), prop, path) + best)
                    common.report_violation(prop, path, g2)
                    cov["violation"] = {"class": g2["cls"], "message": g2["msg"], "replay": path}
                    result = 1
                    done = True
                    break
                if not done:
                    result = 2
                break
            # determinism: the same runs again, with another number of workers
            dn = min(spec.get("det", 240), m["runs"])
            v2, _, h2 = explore(exe, SEED, dn, 0, 3, os.path.join(scratch, "d-" + v["name"]), "d", tier=1 if TIER == "thorough" else 0)
            bad = [i for i in h2 if i in hashes and hashes[i][0] != h2[i][0]]
            det_runs += len([i for i in h2 if i in hashes])
            if bad or v2:
                print("error: run(s) %s are not deterministic" % bad[:5])
                result = 2
                break
        t_ex = time.time() - t_ex
        if unbuilt and result != 1:
            raise unbuilt[0]
        m = merge(allsum)
        cov.update({
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": spec["rule"] + " A run counts as distinct and non-trivial when at least one thread was preempted inside an operation or at least one fault fired, "
                                   "and the hash of its whole event sequence (thread, access kind, address, results) differs from every other run's.",
            "samples": samples,
            "trivial_runs": trivial,
            "operations": m.get("ops", 0),
            "scheduling_points": m.get("steps", 0),
            "shared_accesses_observed": m.get("accesses", 0),
            "context_switches": m.get("switches", 0),
            "simulated_time_ticks": m.get("simtime", 0),
            "process_terminations_simulated": m.get("terms", 0),
            "runs_with_faults": m.get("faultruns", 0),
            "faults_scheduled": m.get("seen", {}),
            "faults_fired": m.get("fired", {}),
            "probes": m.get("probes", {}),
            "operation_kinds": m.get("kinds", {}),
            "policies": dict(zip(["serial", "random-walk", "pct", "targeted", "explicit"], m.get("policies", []))),
            "runs_per_hour": int(evaluations / max(t_ex, 0.001) * 3600),
            "seeds_per_hour": int(evaluations / max(t_ex, 0.001) * 3600),
            "determinism_replayed_runs": det_runs,
            "real_components": spec["real"],
            "stub_components": spec["stub"],
        })
        common.write_evidence(prop, cov, violations, spec["assumptions"])
        for line in sorted(known_lines):
            print(line)
        if result == 0:
            print("%s: %d runs, %d distinct non-trivial, %d determinism replays, %.0f s: held" % (prop, evaluations, len(distinct), det_runs, time.time() - common.T0))
        return result
