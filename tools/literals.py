"""Harvest integer and string literals from Rust sources: seeds for the generators.

They only widen the workload (magic lengths, keys, tags...); no verdict depends on them.
"""
import os, re


def harvest(repo):
    ints, strs = set(), set()
    for sub in ("src", "value/src", "derive/src", "difffuzz/src"):
        for d, _, fs in os.walk(os.path.join(repo, sub)):
            for f in fs:
                if not f.endswith(".rs"):
                    continue
                try:
                    t = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
                except OSError:
                    continue
                for m in re.finditer(r"(?<![A-Za-z_0-9.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)", t):
                    try:
                        x = m.group(1).replace("_", "")
                        if x[:2] in ("0x", "0b", "0o"):
                            v = int(x, 0)
                        else:
                            v = int(x)
                    except ValueError:
                        continue
                    if v < 1 << 64:
                        ints.add(v)
                for m in re.finditer(r"(\d+)\s*<<\s*(\d+)", t):
                    v = int(m.group(1)) << min(int(m.group(2)), 64)
                    if v < 1 << 64:
                        ints.add(v)
                for m in re.finditer(r'"((?:[^"\\\n]|\\.){1,40})"', t):
                    s = m.group(1)
                    if "\\" in s:
                        try:
                            s = bytes(s, "utf-8").decode("unicode_escape")
                        except Exception:
                            continue
                    strs.add(s.encode("utf-8", "replace"))
                for m in re.finditer(r"'((?:[^'\\\n]|\\.|\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}))'", t):
                    s = m.group(1)
                    u = re.match(r"\\[ux]\{?([0-9a-fA-F]+)", s)
                    if u:
                        ints.add(int(u.group(1), 16))
                    elif len(s) == 1:
                        ints.add(ord(s))
    return ints, strs


BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "base-literals.txt")


def lines(repo):
    ints, strs = harvest(repo)
    return ["i %d" % i for i in sorted(ints)[:4000]] + ["s " + s.hex() for s in sorted(strs)[:1500]]


def write(repo, path):
    """Literals the pinned tree did not have are marked: the generators use them more often."""
    base = set(open(BASE).read().split("\n"))
    ls = lines(repo)
    with open(path, "w") as f:
        for l in ls:
            f.write(l + "\n")
            if l not in base:
                f.write(l[0].upper() + l[1:] + "\n")
    return len(ls)


if __name__ == "__main__":
    import sys

    # Renew the list of known literals.
    open(BASE, "w").write("\n".join(lines(sys.argv[1])) + "\n")
