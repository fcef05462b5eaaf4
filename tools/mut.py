#!/usr/bin/env python3
"""Development tool: apply small changes to copies of /repo and see which
checks notice.   mut.py FILE [-k REGEX] [-p C01,C02] [-j N]
FILE holds entries:  ### name | properties
                     @@ path [#OCCURRENCE]
                     <<<<
                     old text
                     ====
                     new text
                     >>>>
or "### revert-HASH | properties" (undo that commit)."""
import argparse, concurrent.futures as cf, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse(path):
    out = []
    for blk in re.split(r"^### ", open(path).read(), flags=re.M)[1:]:
        head, _, body = blk.partition("\n")
        name, _, props = head.partition("|")
        eds = re.findall(r"^@@ (\S+)(?: #(\d+))?\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>", body, flags=re.M | re.S)
        out.append((name.strip(), props.strip().split(), eds))
    return out


def run(m, props, extra):
    name, dflt, eds = m
    d = "/tmp/mut/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    try:
        if name.startswith("revert-"):
            p = subprocess.run(["git", "-C", d, "revert", "--no-commit", name[7:].split("-")[0]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return name, "does not revert: " + p.stdout[-200:]
        for f, nth, a, b in eds:
            t = open(d + "/" + f).read()
            nth = int(nth or 1)
            if t.count(a) < nth:
                return name, "no match in %s: %r" % (f, a[:60])
            parts = t.split(a)
            open(d + "/" + f, "w").write(a.join(parts[:nth]) + b + a.join(parts[nth:]))
        res = []
        for p in props or dflt:
            env = dict(os.environ, GGGGC_REPO=d, VERIF_NOEVIDENCE="1")
            r = subprocess.run([sys.executable, HERE + "/check.py", p] + extra, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.split("\n") if "VIOLATION" in l or "ERROR" in l]
            res.append("%s: %s" % (p, "missed" if r.returncode == 0 else "rc%d %s" % (r.returncode, " / ".join(re.sub(r"VIOLATION property=\S+ replay=\S+", "", x)[:170] for x in v[:2]))))
        return name, "\n      ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


ap = argparse.ArgumentParser()
ap.add_argument("file")
ap.add_argument("-k", default="")
ap.add_argument("-p", default="")
ap.add_argument("-j", type=int, default=2)
ap.add_argument("-o", default="")
a = ap.parse_args()
ms = [m for m in parse(a.file) if re.search(a.k, m[0])]
with cf.ThreadPoolExecutor(a.j) as ex:
    for f in cf.as_completed([ex.submit(run, m, a.p.split(",") if a.p else None, ["--only", a.o] if a.o else []) for m in ms]):
        n, r = f.result()
        print("%-28s %s" % (n, r))
        sys.stdout.flush()
