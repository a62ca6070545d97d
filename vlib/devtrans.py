"""Kernel-launch translation: what a device compiler does with `kernel<<<grid, block>>>( args )`, for the simulated device.

Copies the include tree and replaces every launch by a call of simdev::launch; nothing else changes."""
import os
import re
import shutil


def _close(s, i, o, c):
    d = 0
    while i < len(s):
        if s[i] == o:
            d += 1
        elif s[i] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError("unbalanced")


def translate_text(s):
    while True:
        i = s.find("<<<")
        if i < 0:
            return s
        j = s.index(">>>", i)
        p = s.index("(", j)
        if s[j + 3:p].strip():
            raise ValueError("launch without arguments")
        q = _close(s, p, "(", ")")
        # the kernel's name, possibly with template arguments, ends at i
        k = i
        while s[k - 1].isspace():
            k -= 1
        b = k
        if s[b - 1] == ">":
            d = 0
            while True:
                b -= 1
                d += {">": 1, "<": -1}.get(s[b], 0)
                if d == 0:
                    break
            while s[b - 1].isspace():
                b -= 1
        while re.match(r"[\w:]", s[b - 1]):
            b -= 1
        name = s[b:k]
        args = s[p + 1:q].strip()
        s = s[:b] + "::simdev::launch( ::simdev::Cfg( %s ), []( auto & ... simdev_a ) { %s( simdev_a ... ); }%s )" % (
            s[i + 3:j].strip(), name, ", " + args if args else "") + s[q + 1:]


def translate(src, dst):
    shutil.copytree(src, dst)
    for d, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, encoding="utf-8", errors="surrogateescape") as h:
                t = h.read()
            if "<<<" in t:
                with open(p, "w", encoding="utf-8", errors="surrogateescape") as h:
                    h.write(translate_text(t))
    return dst
