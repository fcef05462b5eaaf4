#!/usr/bin/env python3
"""Development tool: automut.py PATH PROPS > FILE: simple mutants of a source
file of /repo in mut.py's format (mutated by line number)."""
import re, sys
path, props = sys.argv[1:3]
lo, hi = (int(x) for x in sys.argv[3].split("-")) if len(sys.argv) > 3 else (1, 10**9)
L = open("/repo/" + path).read().split("\n")
n = 0


def emit(kind, ln, new):
    global n
    old = L[ln]
    if new == old:
        return
    # occurrence number of this whole line (with its newline context)
    occ = sum(1 for k in range(ln + 1) if ("\n" + L[k] + "\n").count("\n" + old + "\n"))
    full = "\n".join(L)
    pos = sum(len(x) + 1 for x in L[:ln])
    occ = full[:pos + len(old)].count(old)
    n += 1
    print("### %s-%d-%s | %s\n@@ %s #%d\n<<<<\n%s\n====\n%s\n>>>>" % (path.replace("/", "_").replace(".c", ""), ln + 1, kind, props, path, occ, old, new))


for i, l in enumerate(L):
    if not lo <= i + 1 <= hi:
        continue
    s = l.strip()
    if s.startswith(("/*", "*", "#", "//", "static", "struct", "return", "break", "continue", "goto", "unsigned", "extern", "typedef")) or not l.startswith(" "):
        continue
    cont = l.endswith("\\")
    if re.match(r"GGC_PUSH_(\d+)\((.*)\);$", s):
        m = re.match(r"GGC_PUSH_(\d+)\((.*)\);$", s)
        vs = [v.strip() for v in m.group(2).split(",")]
        for k, v in enumerate(vs):
            if len(vs) > 1:
                emit("root-" + re.sub(r"\W", "", v), i, l.replace(s, "GGC_PUSH_%d(%s);" % (len(vs) - 1, ", ".join(vs[:k] + vs[k + 1:]))))
        continue
    decl = re.match(r"(const )?(ggc_\w+|size_t|int|void|char|GGC_\w+|unsigned|long) \**\w+( =.*)?(,.*)?;", s)
    if re.match(r"[\w\*\(].*;( \\)?$", s) and not decl and not s.startswith(("if", "for", "while", "do")):
        emit("del", i, re.match(r"\s*", l).group(0) + ";" + (" \\" if cont else ""))
    m = re.search(r"\b(if|while) \((.*)\)", l)
    if m and m.group(2).count("(") == m.group(2).count(")"):
        emit("neg", i, l[:m.start(2)] + "!(" + m.group(2) + ")" + l[m.end(2):])
        if m.group(1) == "if":
            emit("true", i, l[:m.start(2)] + "1" + l[m.end(2):])
            emit("false", i, l[:m.start(2)] + "0" + l[m.end(2):])
    for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" + 1", ""), (" - 1", ""), (" && ", " || "), (" || ", " && "), ("++", "+=2"), ("--", ""), (" + ", " - "), (" * 2", " * 3"), (" % ", " / ")):
        k = l.find(a)
        if k >= 0 and "for (" not in l[:0]:
            if a == "++" and not re.search(r"\+\+;|\w\+\+\)", l):
                continue
            emit("op" + {"<": "lt", ">": "gt"}.get(a.strip(), re.sub(r"\W", "", a) or "x") + str(abs(hash(a)) % 97), i, l[:k] + b + l[k + len(a):])
