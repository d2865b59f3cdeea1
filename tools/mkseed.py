"""usage: mkseed.py <def.py>...   -- make /verif/seeded/<id>/ from a definition (a Python file with ID, PROP, NEEDS, BREAKS, EDITS, FILES, DEMO[, KIT]),
after confirming on /repo (clean afterwards): builds, stable tests pass, demo 0 without and non-zero with the change."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def tests():
    if run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"]).returncode: pass
    j = json.load(open("/tmp/seedtest.json"))
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) <= set(j["passed"])
def clean():
    run(["git", "-C", R, "checkout", "--", "."])
for f in sys.argv[1:]:
    d = {"V": V}
    exec(open(f).read(), d)
    if run(["git", "-C", R, "status", "--porcelain"]).stdout.strip():
        sys.exit("repo not clean")
    print(d["ID"], flush=True)
    o = os.path.join(V, "seeded", d["ID"])
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    if d.get("KIT", "field") == "field":
        shutil.copytree(os.path.join(V, "tools", "seedkit"), os.path.join(o, "kit"))
    elif d["KIT"] == "group":
        shutil.copytree(os.path.join(V, "tools", "seedkit2"), os.path.join(o, "kit"))
    for n, t in d.get("FILES", {}).items():
        open(os.path.join(o, n), "w").write(t.lstrip("\n"))
    open(os.path.join(o, "demo.sh"), "w").write("#!/bin/bash\n" + d["DEMO"].lstrip("\n"))
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    try:
        a = run(["bash", os.path.join(o, "demo.sh")], cwd=R, timeout=300)
        for (fn, old, new, cnt) in d["EDITS"]:
            p = os.path.join(R, fn); s = open(p).read()
            assert s.count(old) >= 1 and (cnt == "first" or s.count(old) == cnt), (fn, s.count(old), old)
            open(p, "w").write(s.replace(old, new, 1) if cnt == "first" else s.replace(old, new))
        open(os.path.join(o, "patch.diff"), "wb").write(run(["git", "-C", R, "diff"]).stdout)
        ok = tests()
        b = run(["bash", os.path.join(o, "demo.sh")], cwd=R, timeout=300)
    finally:
        clean()
    base = {l.decode() for l in run(["git", "-C", R, "show", "bc38e14:" + d["EDITS"][0][0]]).stdout.split(b"\n")}
    own = [l for l in open(os.path.join(o, "patch.diff")) if l.startswith("-") and not l.startswith("---") and l[1:].rstrip("\n") not in base]
    good = a.returncode == 0 and b.returncode != 0 and ok
    print(d["ID"], "OK" if good else "BAD", "clean demo", a.returncode, "patched demo", b.returncode, "tests", ok, "own-lines" if own else "")
    if not good:
        print(a.stdout.decode()[-1500:]); print(b.stdout.decode()[-1500:])
        shutil.rmtree(o)
run(["bash", "/opt/vp/build.sh"])
