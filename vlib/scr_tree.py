"""Header trees and the reference model of aggregation."""
import copy
import posixpath as pp
import re

DIRS = ["include/shiva/common", "include/shiva/geometry/shapes", "include/shiva", "src", "third/inc", "include"]
CONFIG = "ShivaConfig.hpp"


def gen_tree(rng, nmax=8, tricky=True):
    """a project under /sim/proj: {"headers": [...], "incpaths": [...], ...}; header: path, items (list of [kind, text])"""
    n = rng.randint(1, nmax)
    many = None
    if tricky and rng.random() < 0.035:          # many headers: a long chain of includes, or one header with many
        many = rng.choice(["chain", "wide"])
        n = rng.choice([12, 18, 35, 70]) if rng.random() < 0.93 else 650 if many == "wide" else rng.choice([140, 300])
    dup = not many and rng.random() < 0.25
    dirs = rng.choice([DIRS, ["include/shiva", "third/inc/shiva", "shiva"], ["include", "third/inc", "src"]]) if dup else DIRS
    odd = tricky and not dup and rng.random() < 0.25
    used, headers = set(), []
    for i in range(n):
        while True:
            d = rng.choice(dirs)
            base = "h%d.hpp" % (rng.randrange(max(1, n // 2)) if dup else i)
            if odd and rng.random() < 0.5:          # names that are easily taken for one another
                j = rng.randrange(i + 1)
                base = rng.choice(["H%d.hpp", "h%d.HPP", "h%d.h", "h %d.hpp", "h%d+.hpp", "h%d.hpp.hpp", "xh%d.hpp", "h%d", "h%d\u0301.hpp", "My%dShivaConfig.hpp", "ShivaConfig%d.hpp", "ShivaConfig.hpp.%d.hpp", "%d.ShivaConfig.hpp"]) % j
                if headers and rng.random() < 0.6:
                    d = pp.dirname(rng.choice(headers)["path"])[5:]
            p = "proj/" + d + "/" + base
            if p not in used:
                break
        used.add(p)
        headers.append({"path": p, "items": []})
    incpaths = ["/sim/proj/include", "/sim/proj/third/inc", "/sim/proj"]
    rng.shuffle(incpaths)
    incpaths = incpaths[:rng.randint(1, 3)]
    for i, h in enumerate(headers):
        it = h["items"]
        tok = [0]

        def line():
            tok[0] += 1
            t = "tok_%d_%d" % (i, tok[0])
            x = rng.random()
            if x < 0.6 or not tricky:
                return "int %s = %d;" % (t, rng.randrange(1000))
            return rng.choice([
                "#include <vector> // %s", "// #include \"h0.hpp\" %s", "const char * %s = \"#include <x> \\\"h1.hpp\\\"\";", "  // indented %s   ", "#if defined(A) // %s", "#endif // %s",
                "\tint %s; // \u00e9\u4e2d", "int %s; // page\x0c, \x0b, \x1c, \u0085, \u2028 and more", "//" + rng.choice("\x0c\x0b\x1c\x1d\x1e\u0085\u2028\u2029") + rng.choice(["#include \"h1.hpp\" %s", "#include \"none.hpp\" %s", "#pragma once %s", "# include \"none.hpp\" // %s"]), "int %s; \\", "int %s;\t \t", "/* %s */", "// see shapes/*.hpp %s", "const char * %s = \"/*\"; // or \"*/\"", "int %s; // */ /*", "/* one */ int %s; /* two */", "#define " + "%s \\", "namespace x%s { // ===== almost a marker", "int %s; //" + "y" * rng.choice([10, 300, 5000]), "%s;;#pragma once", "//%s ", "   %s"]) % t
        if rng.random() < 0.7:
            it.append(["line", "// license " + "tok_%d_0" % i])
        if rng.random() < 0.85:
            it.append(["pragma", "#pragma once"])
        incs = []
        for j in range(i + 1, n):
            if many and j > i + 2:
                break
            if rng.random() < (0.35 if j > i + 1 else 0.6):
                incs.append(j)
        if many == "chain" and i + 1 < n:
            incs = sorted(set(incs) | {i + 1})
        elif many == "wide" and i == 0:
            incs = list(range(1, n))
        if rng.random() < 0.25:
            incs.append("config")
        rng.shuffle(incs)
        for j in incs:
            if rng.random() < 0.4:
                it.append(["line", line()])
            if rng.random() < 0.2:
                it.append(["blank", ""])
            it.append(["include", include_text(rng, h["path"], CONFIG if j == "config" else headers[j]["path"], incpaths, tricky)])
        for _ in range(rng.choice([0, 1]) if many else rng.choice([0, 1, 2, 3, 6]) if rng.random() < 0.93 else rng.randint(40, 300)):
            it.append(["line", line()])
            if rng.random() < 0.15:
                it += [["blank", ""]] * rng.choice([1, 1, 2, 3])
        if tricky and not many and rng.random() < 0.12:
            surround(rng, i, it)
        h["eol"] = "\n" if rng.random() < 0.95 else "\r\n"
        h["final"] = rng.random() < 0.85
    if tricky and not many and not dup and rng.random() < 0.1:
        # a header with the same text elsewhere, and included as well
        h = headers[-1]
        d = rng.choice([x for x in DIRS if "proj/" + x + "/" + pp.basename(h["path"]) not in used])
        w = {"path": "proj/" + d + "/" + pp.basename(h["path"]), "items": copy.deepcopy(h["items"]), "eol": h["eol"], "final": h["final"]}
        for j in {0, rng.randrange(n)} - {n - 1}:
            it = headers[j]["items"]
            it.insert(rng.randrange(len(it) + 1), ["include", include_text(rng, headers[j]["path"], w["path"], incpaths, tricky)])
        headers.append(w)
    if tricky and not many and not dup and n > 1 and rng.random() < 0.05:
        headers[-1].update(items=[["line", ";"]])          # a tiny one
    t = {"headers": headers, "incpaths": incpaths, "dup": dup, "config": None}
    if rng.random() < 0.3:
        t["config"] = "proj/" + rng.choice(["include/shiva/", "include/", "src/"]) + CONFIG
    return t


def surround(rng, i, it):
    """conditions around a part of a header, or around all of it"""
    tok = "tok_%d_%d"
    if rng.random() < 0.5:
        name = rng.choice(["%s", "%s_HPP", "SHIVA_%s_HPP_", "%s_H", "__%s__", "_%s_INCLUDED"]) % tok % (i, 900)
        it[:0] = [["line", "#ifndef " + name], ["line", "#define " + name]]
        it += [["line", "int " + tok % (i, 901) + ";"], ["line", rng.choice(["#endif", "#endif // the end", "#endif // " + name, "#endif /* " + name + " */"])]]
        return
    at = rng.choice([k for k, x in enumerate(it) if x[0] == "include"] or [len(it)])
    off = [["line", "int " + tok % (i, 910) + ";"], ["line", rng.choice(["#if 0", "#if 0 // off", "#ifdef NEVER", "#if false"])]] + [["line", "int " + tok % (i, 911) + ";"]] * rng.randint(0, 1) + [["line", "#else"]]
    it[at:at + 1] = off + it[at:at + 1] + [["line", "#endif"], ["line", "int " + tok % (i, 912) + ";"]]


def include_text(rng, frm, to, incpaths, tricky):
    forms = []
    if to == CONFIG:
        forms = [CONFIG, "shiva/" + CONFIG]
    else:
        full = "/sim/" + to
        rel = pp.relpath(to, pp.dirname(frm))
        forms.append(rel)
        for ip in incpaths:
            if full.startswith(ip + "/"):
                forms += [full[len(ip) + 1:]] * 2
        if tricky and rng.random() < 0.1:
            forms.append("./" + rel)
    f = rng.choice(forms)
    x = rng.random()
    if not tricky or x < 0.7:
        return '#include "%s"' % f
    return rng.choice(['#include  "%s"', '  #include "%s"', '# include "%s"', '#include"%s"', '#include "%s" // why', '\t#\tinclude\t"%s"', '#include "%s"   ']) % f


def text(h):
    s = h["eol"].join(x[1] for x in h["items"])
    return s + h["eol"] if h["final"] and h["items"] else s


def files(t):
    out = [["proj", "d", ""]]
    for h in t["headers"]:
        out.append([h["path"], h.get("mode", "f"), text(h)])
    if t["config"]:
        out.append([t["config"], "f", "#pragma once\n#define tok_cfg_1 1\n"])
    for d in t.get("dirs", []):
        out.append([d, "d", ""])
    return out


INC = re.compile(r'\s*#\s*include\s*"([^"]+)"')


class Model:
    """what aggregation has to do with this tree"""

    def __init__(self, t, roots, incpaths):
        self.by = {"/sim/" + h["path"]: h for h in t["headers"]}
        self.exists = set(self.by) | {"/sim/" + d for d in t.get("dirs", [])}
        if t["config"]:
            self.exists.add("/sim/" + t["config"])
        for p in list(self.exists):
            while p not in ("/sim", "/"):
                p = pp.dirname(p)
                self.exists.add(p)
        self.incpaths = incpaths
        self.edges, self.problem, self.config_missing = {}, None, False
        self.order = []
        for r in roots:
            self.visit(r, ())

    def resolve(self, inc, base):
        for d in [base] + list(self.incpaths):
            c = pp.normpath(pp.join(d, inc))
            if c in self.exists:
                return c
        return None

    def visit(self, h, stack):
        if h in stack:
            self.problem = self.problem or "cycle"
            return
        if h in self.edges:
            return
        if h not in self.by or self.by[h].get("mode", "f") == "u":
            if pp.basename(h) == CONFIG and h in self.exists:
                self.edges[h] = []
                return
            self.problem = self.problem or ("unreadable" if h in self.exists else "missing")
            return
        if self.by[h].get("binary"):
            self.problem = self.problem or "undecodable"
        self.edges[h] = []
        for kind, s in self.by[h]["items"]:
            if kind != "include":
                continue
            inc = INC.match(s).group(1)
            r = self.resolve(inc, pp.dirname(h))
            if r is None:
                if pp.basename(inc) == CONFIG:
                    self.config_missing = True
                else:
                    self.problem = self.problem or "missing"
                continue
            self.edges[h].append(r)
            self.visit(r, stack + (h,))
        self.order.append(h)

    def headers(self):
        return [h for h in self.edges if h in self.by]


def tokens(h):
    return [x[1] for x in h["items"] if "tok_" in x[1]]


def body(h):
    """the lines from the first to the last marked one, without those that are commented out"""
    it = [x for x in h["items"] if x[0] in ("line", "blank")]
    k = [n for n, x in enumerate(it) if "tok_" in x[1]]
    return [x[1] for x in it[k[0]:k[-1] + 1]]


GONE = re.compile(r"\s*(//|/\*)\s*#\s*(include|pragma)\b")


def judge(model, out):
    """is this a complete aggregation? returns None or a description"""
    lines = re.split(r"\r\n|\n|\r", out)
    at = [n for n, ln in enumerate(lines) if "tok_" in ln and "tok_cfg" not in ln]
    seq = [lines[n] for n in at]
    pos = {}
    k, left = 0, {}          # headers may have the same text
    for h in model.headers():
        if tokens(model.by[h]):
            left.setdefault(tokens(model.by[h])[0], []).append(h)
    want_total = sum(len(tokens(model.by[h])) for h in model.headers())
    while k < len(seq):
        if not left.get(seq[k]):
            return "line %r of the output is not where the headers have it" % seq[k][:80]
        h = max(left[seq[k]], key=lambda x: (seq[k:k + len(tokens(model.by[x]))] == tokens(model.by[x])) * len(tokens(model.by[x])))
        left[seq[k]].remove(h)
        want = tokens(model.by[h])
        got = seq[k:k + len(want)]
        if got != want:
            return "the content of %s is not complete and in order" % h
        if [ln for ln in lines[at[k]:at[k + len(want) - 1] + 1] if "tok_" in ln or not GONE.match(ln)] != body(model.by[h]):
            return "the content of %s is not complete and in order" % h
        pos[h] = k
        k += len(want)
    if sum(ln == ";" for ln in lines) < sum([x[1] for x in model.by[h]["items"]] == [";"] for h in model.headers()):
        return "the content of the header with the line ';' is missing"
    rest = sorted(h for s in left.values() for h in s)
    if rest:
        return "the content of %s is missing" % rest[0]
    if len(seq) != want_total:
        return "the output holds %d lines, the headers %d" % (len(seq), want_total)
    same = {}
    for h in pos:
        same.setdefault(tuple(tokens(model.by[h])), []).append(h)
    for h in pos:
        at = max(pos[x] for x in same[tuple(tokens(model.by[h]))])          # which of them it is cannot be told
        for d in set(model.edges[h]) & set(pos):
            s = same[tuple(tokens(model.by[d]))]
            need = len(set(model.edges[h]) & set(s))
            if sum(pos[x] < at for x in s) < need:
                return "%s comes before %s, which it includes" % (h, d)
    for ln in lines:
        m = INC.match(ln)
        if m and pp.basename(m.group(1)) != CONFIG:
            return "an include of an aggregated header is still in force: %s" % ln.strip()
    return None
