#!/usr/bin/env python3
"""Compare the record of observations (sim golden OUT TEXT) with what llvm-objdump and readelf say about the same files.

Development tool: usage crosscheck.py OBS.txt [FILE...]. Sections (name, size, address), symbols (value, name) and
relocations (offset, for ELF also the type) are compared; every difference is printed for a human to judge.
"""
import collections, os, re, subprocess, sys

L = "/usr/lib/llvm-18/bin/"
C = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../sim/data/corpus/")


def run(*a):
    return subprocess.run(a, capture_output=True, text=True, errors="replace").stdout


def load(p):
    out, f = {}, None
    for l in open(p, errors="replace"):
        l = l.rstrip("\n")
        if l.startswith("F "):
            f = out.setdefault(l[2:], {})
        elif l.startswith("- "):
            k, _, v = l[2:].partition("\t")
            f.setdefault(k, []).append(v)
    return out


def sections(path):
    r = []
    for l in run(L + "llvm-objdump", "-h", path).splitlines():
        m = re.match(r"\s*(\d+) (.*?)\s+([0-9a-f]{8,}) ([0-9a-f]{8,})\s", l + " ")
        if m:
            r.append((m[2].strip(), int(m[3], 16), int(m[4], 16)))
    return r


def symbols(path, kind, dyn=False):
    r = []
    for l in run(L + "llvm-objdump", "-T" if dyn else "-t", path).splitlines():
        if kind == "coff":
            m = re.match(r"\[ *\d+\]\(sec +(-?\d+)\)\(fl \S+\)\(ty +\S+\)\(scl +(\S+)\) \(nx \d+\) 0x([0-9a-f]+) (.*)", l)
            if m:
                r.append((int(m[3], 16), m[4]))
            continue
        m = re.match(r"([0-9a-f]{8,}) (.{7}) (\S+)(?:\t([0-9a-f]{8,}))?(?: (.*))?$", l)
        if m:
            n = (m[5] or "").strip()
            if m[2][5:6] == "d" and m[2][6:7] != "f" and kind == "elf":
                n = ""  # the tool shows the name of the section
            if dyn:
                n = re.sub(r"^(\(\S+\)|\S+) +(?=\S)", "", n)
            if kind == "elf":
                n = re.sub(r"^(\.hidden|\.internal|\.protected) ", "", n)
                n = re.sub(r"^0x[0-9a-f]+ ", "", n)
                if dyn:
                    n = re.sub(r"^(\.hidden|\.internal|\.protected) ", "", n)
            if kind == "wasm":
                n = re.sub(r"^\.hidden ?", "", n)
            r.append((int(m[1], 16), n))
    return r


def relocs(path, kind):
    if kind == "elf":
        r = []
        for l in run("readelf", "-rW", path).splitlines():
            m = re.match(r"([0-9a-f]{8,16})  ([0-9a-f]{8,16}) ", l)
            if m:
                r.append((int(m[1], 16), int(m[2], 16)))
        return r
    r = []
    for l in run(L + "llvm-objdump", "-r", path).splitlines():
        m = re.match(r"([0-9a-f]{8,}) (\S+)", l)
        if m:
            r.append((int(m[1], 16),))
    return r


def diff(name, what, a, b):
    a, b = collections.Counter(a), collections.Counter(b)
    x, y = a - b, b - a
    if x or y:
        print(f"{name}: {what}: {sum(x.values())} only in the record {list(x.items())[:6]}, {sum(y.values())} only in the tool {list(y.items())[:6]} (of {sum(a.values())}/{sum(b.values())})")


def num(v):
    return int(v.split()[0].split("..")[0], 0)


obs = load(sys.argv[1])
done = 0
for name, o in sorted(obs.items()):
    path = C + name
    if sys.argv[2:] and name not in sys.argv[2:] or not os.path.exists(path):
        continue
    kind = name.split("-")[0]
    if kind not in ("elf", "coff", "pe", "macho", "xcoff", "wasm"):
        continue
    done += 1
    kind = "coff" if kind == "pe" else kind
    idx = sorted({int(m[1]) for k in o if (m := re.match(r"sec\[(\d+)\]\.size$", k))})
    mine = [(o[f"sec[{i}].name"][0].replace("\\u{0}", ""), int(o[f"sec[{i}].size"][0], 0), int(o[f"sec[{i}].addr"][0], 0)) for i in idx]
    tool = sections(path)
    if kind == "elf" and tool:
        tool = tool[1:]
    diff(name, "sections", mine, tool)
    SN = {m[0] for m in mine}
    for p, dyn in (("sym", False), ("dsym", True)):
        if dyn and kind != "elf":
            continue
        si = sorted({int(m[1]) for k in o if (m := re.match(rf"{p}\[(\d+)\]\.val$", k))})
        mine = [(int(o[f"{p}[{i}].val"][0].split()[0], 0), "" if kind == "elf" and o[f"{p}[{i}].@kind"][0].startswith("Section") else ".file" if kind == "coff" and o[f"{p}[{i}].@kind"][0].startswith("File") else o[f"{p}[{i}].name"][0]) for i in si]
        diff(name, "dynamic symbols" if dyn else "symbols", mine, symbols(path, kind, dyn))
    ri = [k for k in o if re.match(r"sec\[\d+\]\.reloc\[\d+\]$|dynreloc\[\d+\]$", k)]
    mine = []
    for k in ri:
        for v in o[k]:
            w = v.split()
            s = re.search(r"sym(\d+)", v)
            mine.append((int(w[0], 0), int(w[-1].split(":")[1], 0), int(s[1]) if s else 0) if kind == "elf" else (int(w[0], 0),))
    t = relocs(path, kind)
    if kind == "elf":
        c64 = len(open(path, "rb").read(5)) and open(path, "rb").read(5)[4] == 2
        t = [(a, i & 0xffffffff, i >> 32) if c64 else (a, i & 0xff, i >> 8) for a, i in t]
    diff(name, "relocations", mine, t)
print(done, "files compared")
