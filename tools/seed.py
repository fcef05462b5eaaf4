#!/usr/bin/env python3
"""Development tool: seed.py make ID FILE  (stdin: old text, a line ====, new
text) writes seeded/ID/patch.diff; seed.py try ID... runs the demonstrations on
scratch copies without and with the patch, and the stable tests if -t."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def clone(i):
    d = "/tmp/seed/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/seed", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    return d


def main():
    if sys.argv[1] == "make":
        i, f = sys.argv[2:4]
        d = clone(i)
        p = HERE + "/seeded/" + i + "/patch.diff"
        if os.path.exists(p) and "-a" in sys.argv:
            subprocess.run(["git", "-C", d, "apply", p], check=True)
        a, b = sys.stdin.read().split("====\n")
        nth = int(sys.argv[4]) if len(sys.argv) > 4 and sys.argv[4] != "-a" else 1
        t = open(d + "/" + f).read()
        parts = t.split(a)
        assert len(parts) > nth, "no match"
        assert len(parts) == 2 or len(sys.argv) > 4, "%d matches" % (len(parts) - 1)
        open(d + "/" + f, "w").write(a.join(parts[:nth]) + b + a.join(parts[nth:]))
        open(p, "w").write(subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE, text=True).stdout)
        shutil.rmtree(d)
        return
    for i in sys.argv[2:]:
        d = clone(i)
        s = HERE + "/seeded/" + i
        r = []
        for patched in (0, 1):
            if patched:
                subprocess.run(["git", "-C", d, "apply", s + "/patch.diff"], check=True)
            q = subprocess.run(["bash", s + "/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r.append(q.returncode)
        print("%-22s clean %d patched %d %s" % (i, r[0], r[1], "ok" if r[0] == 0 and r[1] not in (0, 99) else "NOT OK " + q.stdout[-300:]))
        shutil.rmtree(d)


main()
