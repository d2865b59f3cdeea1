"""usage: mutate.py <list.py> [-j N] [id-prefix...]  -- try changes of /repo (a list M of (id, property, file, old, new)) in scratch copies and print whether the property's quick check reports them."""
import os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
j = 2
if "-j" in a: k = a.index("-j"); j = int(a[k + 1]); del a[k:k + 2]
d = {}
exec(open(a[0]).read(), d)
def one(m):
    i, prop, f, old, new = m[:5]
    w = "/tmp/mut/" + i
    shutil.rmtree(w, ignore_errors=True)
    try:
        shutil.copytree("/repo", w, symlinks=True)
        subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
        for (ff, o, n) in [(f, old, new)] + list(m[5:]):
            p = os.path.join(w, ff); s = open(p).read()
            if o not in s: return print(i, "TEXT NOT FOUND", o[:60], flush=True)
            open(p, "w").write(s.replace(o, n, 1))
        t = time.time()
        r = subprocess.run(["timeout", "900", "python3", os.path.join(V, "lib/run.py"), prop, "quick"], env=dict(os.environ, VP_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        open("/tmp/mut/%s.log" % i, "w").write(r.stdout)
        v = [l for l in r.stdout.splitlines() if l.startswith("  ")]
        print("%-28s %s %s %4.0f s  %s" % (i, prop, {0: "MISSED", 1: "caught" if "VIOLATION" in r.stdout else "rc1?"}.get(r.returncode, "rc=%d" % r.returncode), time.time() - t, (v or r.stdout.splitlines()[-1:] or [""])[0][:150]), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(j) as ex:
    list(ex.map(one, [m for m in d["M"] if len(a) == 1 or any(m[0].startswith(x) for x in a[1:])]))
