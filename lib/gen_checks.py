"""C22: the generator: answers to histories of requests, the command's files, builds, several fields in one program."""
from field import *
from group import run_trace_module
import glob, shutil, vp

JS = os.path.join(VERIF, "harness", "js")
NAMES = {"a": "Qzq", "b": "wxvUj_7"}

def thorough():
    return vp.TIER == "thorough"

def node_env():
    e = dict(os.environ); e["NODE_PATH"] = os.path.join(JS, "node_modules")
    return e

def run_gen_trace(chk, events, what):
    """Validate one growing history; returns the rejected events."""
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
        f.write("\n".join(json.dumps(e) for e in events) + "\n")
    try:
        r = tlc("GenTrace", "INIT TInit\nNEXT TNext\nINVARIANT TypeOK\n", env={"TRACE": f.name}, workers=1)
    finally:
        os.unlink(f.name)
    whole(r, len(events) + 1)
    chk.states(r)
    for n, fails in sorted(r.rejects.items()):
        e = events[n - 1]
        key = "%s:%s:%s:%s" % (what, e["k"], e.get("be", "") or ",".join(sorted(e.get("o", {}))), ",".join(sorted(fails)))
        chk.violation(key, "%s: %s broken by event %d: %s" % (what, ",".join(sorted(fails)), n, json.dumps(e)[:1500]),
                      {"event.json": json.dumps(e) + "\n", "history.ndjson": "\n".join(json.dumps(x) for x in events[:n]) + "\n"})
    chk.cov["traces_validated_against_impl"] += len(set(e.get("h", 0) for e in events))
    chk.sample({"what": what, "event": json.dumps(events[len(events) // 2])[:300]})

def histories(hs):
    p = subprocess.run(["node", os.path.join(JS, "history.js"), REPO], input="\n".join(json.dumps(h) for h in hs).encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    ev = [json.loads(l) for l in p.stdout.decode().splitlines()]
    want = sum(len(h["r"]) for h in hs)
    if p.returncode or len(ev) != want:
        ev.append({"k": "error", "msg": "the generator's process ended (%d) after %d of %d answers: %s" % (p.returncode, len(ev), want, p.stderr.decode()[-300:])})
    return ev

def builds(prime, name, d):
    """Assemble and compile everything generated for one prime: one event per target."""
    q = PRIMES[prime]
    try:
        g = gen(prime, name)
    except ToolError as e:
        return [{"k": "error", "q": "%x" % q, "n": name, "msg": str(e)[-300:]}]
    low, b = os.path.join(g, name.lower()), os.path.join(d, "%s-%s" % (prime, name))
    cc = CXX + ["-fsyntax-only", "-I", g]
    jobs = [("nasm", ["nasm", "-felf64", low + ".asm", "-o", b + ".o"]), ("arm64", ["clang", "--target=aarch64-linux-gnu", "-c", low + "_raw_arm64.s", "-o", b + ".arm.o"])]
    jobs.append(("nasm-macho", ["nasm", "-fmacho64", "--prefix", "_", low + ".asm", "-o", b + ".macho.o"]))
    objs = {"asm": [b + ".o"], "gen": [], "arm": [b + ".arm.o"]}
    for be in objs:
        for x in [".cpp"] if be == "asm" else [".cpp", "_generic.cpp", "_raw_generic.cpp"]:
            objs[be].append(b + "." + be + x + ".o")
            jobs.append((be, CXX + ["-O0", "-I", g] + DEFS[be] + ["-c", low + x, "-o", objs[be][-1]]))
    for h in (".hpp", "_element.hpp"):      # each header on its own
        f = b + h + ".cpp"
        with open(f, "w") as o: o.write('#include "%s%s"\n#include "%s%s"\n' % ((name.lower(), h) * 2))
        jobs.append(("header" + h, cc + [f]))
    out = []
    for be, cmd in jobs:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        out.append({"k": "build", "q": "%x" % q, "n": name, "be": be, "ok": p.returncode == 0, "msg": p.stderr.decode(errors="replace")[-300:]})
    for be in objs if all(e["ok"] for e in out) else []:
        out.append({"k": "link", "q": "%x" % q, "n": name, "be": be, **symbols(name, low, DEFS[be], objs[be])})
    for f in glob.glob(b + "*"): os.unlink(f)
    return out

DEFS = {"asm": ["-DUSE_ASM", "-DARCH_X86_64"], "gen": [], "arm": ["-DUSE_ASM", "-DARCH_ARM64"]}
def symbols(name, low, defs, objs):
    """The linker's view of one configuration: the symbols a user of everything the header declares asks for, those the
    objects define (one entry for each strong definition) and those the objects ask for; only the field's own."""
    own, f = r"%s_\w+" % re.escape(name), objs[0] + ".refs"
    text = sh(CXX + ["-E", "-P"] + defs + [low + ".hpp"]).stdout.decode()
    names = sorted(set(re.findall(r"\b(%s)\s*(?:\(|;|\[)" % own, text)))
    for _ in range(3):
        with open(f + ".cpp", "w") as o:
            o.write('#include "%s.hpp"\nextern "C" { const void *vp_refs[] = {%s}; }\n' % (low, ",".join("(const void *)&" + n for n in names)))
        p = subprocess.run(CXX + ["-O0"] + defs + ["-c", f + ".cpp", "-o", f + ".o"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode == 0: break
        odd = set(re.findall(own, " ".join(l for l in p.stderr.decode().splitlines() if "error:" in l)))    # no address to take: not a declaration
        names = [n for n in names if n not in odd]
    else: raise ToolError("the declared names of %s cannot be used: %s" % (name, p.stderr.decode()[-500:]))
    def nm(files):
        plain, nice = (sh(["llvm-nm", "--format=posix"] + x + files).stdout.decode().splitlines() for x in ([], ["-C"]))
        d, u, w = [], set(), set()
        for l, c in zip(plain, nice):
            if not re.match(own + r"(\(| |$)", c): continue
            s, k = l.split()[:2]
            if k == "U": u.add(s)
            elif k in "TDBRC": d.append(s)
            elif k in "VW": w.add(s)
        return d + sorted(w - set(d)), sorted(u)
    want = nm([f + ".o"])[1]
    d, u = nm(objs)
    return {"declared": want, "defined": d, "needed": u}

def c22():
    chk = Check("C22")
    tasks = []
    # the design: labels are independent of other requests if every request counts its own
    def model(shared, nreq, labels):
        r = tlc("Generator", "CONSTANTS Primes <- KP Reqs <- KR Labels <- KL Shared = %s\nSPECIFICATION GSpec\nINVARIANT Independent\nINVARIANT Fresh\n" % str(shared).upper(),
                defs="KP == {1, 2}\nKR == 1..%d\nKL == [p \\in KP |-> [k \\in 1..7 |-> IF k \\in {%s} THEN p ELSE 0]]" % (nreq, labels), check_ok=False, workers=2)
        if r.ok == shared: raise ToolError("the model of the generator %s" % ("accepts a shared counter" if shared else "fails:\n" + r.out[-2000:]))
        if not shared: chk.states(r)
    tasks += [lambda: model(False, 3 if thorough() else 2, "1, 2, 5"), lambda: model(True, 2, "1, 2")]

    def hist():
        ps = ["bn128r", "edge2hi"]
        w = tempfile.mkdtemp(prefix="vpgen.")
        try:
            tlc("GenPlan", 'CONSTANTS Primes = {0, 1} Names = {"a", "b"} MaxLen = %d\nINIT PInit\nNEXT PNext\n' % (4 if thorough() else 3), env={"PLAN": w + "/p.ndjson", "PLAN2": w + "/o.ndjson"}, workers=1)
            plan = [json.loads(l) for l in open(w + "/p.ndjson")]
            opts = [json.loads(l) for l in open(w + "/o.ndjson")]
            hs = [{"m": h["m"], "r": [{"q": str(PRIMES[ps[r["q"]]]), "n": NAMES[r["n"]]} for r in h["r"]]} for h in plan]
            hs.sort(key=lambda h: (len(h["r"]), h["m"], json.dumps(h)))
            allp = sorted(PRIMES)
            rng = random.Random("C22/%d" % SEED)
            for n in "ab":       # every prime, one after the other and all at once, shuffled
                o = list(allp); rng.shuffle(o)
                hs.append({"m": "seq" if n == "a" else "par", "r": [{"q": str(PRIMES[p]), "n": NAMES[n]} for p in o]})
            ev = histories(hs)
            # the command, for every set of output options
            def cli(k_o):
                k, o = k_o
                d = os.path.join(w, "cli%d" % k); os.makedirs(d + "/sub")
                p, n = ps[k % 2], NAMES["ab"[k // 2 % 2]]
                names = {x: ("sub/" if k % 3 == 0 else "") + {"oa": "given.S", "oc": "given.cxx", "oh": "given_header.h"}[x] for x in o["o"]}
                cmd = ["node", os.path.join(REPO, "src", "buildzqfield.js"), "--prime" if o["long"] else "-q", str(PRIMES[p]), "--name" if o["long"] else "-n", n] + sum((["--" + x, names[x]] for x in sorted(names)), [])
                r = subprocess.run(cmd, cwd=d, env=node_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
                fs = sorted(os.path.relpath(os.path.join(a, f), d) for a, _, c in os.walk(d) for f in c)
                sg = sh(["node", os.path.join(JS, "sig.js"), n] + [os.path.join(d, f) for f in fs]).stdout.decode().splitlines() if fs else []
                return {"k": "cli" if r.returncode == 0 else "error", "q": str(PRIMES[p]), "n": n, "l": n.lower(), "o": names, "f": dict(zip(fs, sg)), "h": "cli%d" % k, "msg": r.stderr.decode()[-300:]}
            ev += parmap(cli, list(enumerate(opts)), 3)
            for e in ev: 
                for x in ("o", "f"):
                    if x in e and not e[x]: e[x] = {"": ""} if x == "f" else e[x]
            run_gen_trace(chk, ev, "generate")
            chk.cov["histories"] = len(hs) + len(opts)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    tasks.append(hist)

    def build_all():
        w = tempfile.mkdtemp(prefix="vpgen.")
        try:
            jobs = [(p, n) for p in sorted(PRIMES) for n in (["Fr"] + (["Qzq", "my_Field2", "x"] if thorough() or p in ("bn128r", "goldilocks", "full3", "wide7") else []))]
            ev = sum(parmap(lambda j: builds(j[0], j[1], w), jobs, 5), [])
            run_gen_trace(chk, ev, "build")
            chk.cov["inputs"] = len(ev)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    tasks.append(build_all)

    OPS = CONV + ARITH + BITS + CMP + NUM + ["str", "copyn"]
    GROUPS = [[("Fr", "bn128r"), ("Zq", "goldilocks"), ("Ab", "mnt6753q"), ("Sq", "secp256k1q")],
              [("Fa", "bn128r"), ("Fb", "bn128q"), ("q", "edge2hi")]]
    if thorough(): GROUPS += [[("F", "full3"), ("RawF", "edge2lo"), ("Fr", "bls12381r"), ("Fq", "bls12381q")], [("Fr", "tiny2"), ("Fr2", "edge1"), ("Fr3", "tiny2")]]
    def together(fields, be):
        what = "together:%s:%s" % (be, "+".join("%s=%s" % f for f in fields))
        try:
            exe = coexist(fields, be)
        except ToolError as e:
            for n, p in fields: backend(p, be)      # each alone is all right (otherwise this raises)
            chk.violation(what + ":link", "the fields build alone but not together: " + str(e)[-2500:])
            return
        rng = random.Random("C22/%d/%s" % (SEED, what))
        streams = []
        for n, p in fields:
            k = (20 if thorough() else 1) * (1 if p == "mnt6753q" else 2)
            cm = rnd_sessions(rng, p, OPS, 12 * k, 30) + with_sessions(rnd_pairs(rng, p, ARITH + BITS + CMP + NUM, 300 * k)) + with_sessions(rnd_raw(rng, p, RAW, 200 * k))
            cm += with_sessions([item_cmd(it, "class") for it in rng.sample(CP[p], min(len(CP[p]), 300 * k))])
            streams.append(cm)
        # interleaved: long and short runs of each field's commands
        at, order = [0] * len(fields), []
        while any(a < len(s) for a, s in zip(at, streams)):
            k = rng.choice([j for j in range(len(fields)) if at[j] < len(streams[j])])
            for _ in range(rng.choice([1, 1, 2, 5, 40])):
                if at[k] < len(streams[k]): order.append((k, streams[k][at[k]])); at[k] += 1
        p = subprocess.run([exe], input=("".join("%d %s\n" % x for x in order)).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        lines = p.stdout.decode().splitlines()
        if p.returncode or len(lines) != len(order):
            chk.violation(what + ":crash", "the program ended (%d) executing %s" % (p.returncode, order[len(lines)] if len(lines) < len(order) else "?"))
        for k, (n, pr) in enumerate(fields):
            mine = [(c, l[2:]) for (j, c), l in zip(order, lines) if j == k]
            r = validate(pr, [l for c, l in mine], 1)
            chk.states(r)
            chk.cov["traces_validated_against_impl"] += sum(c == "S" for c, l in mine)
            bad = {m: f for m, f in r.rejects.items()}
            for m, f in sorted(bad.items())[:5]:
                chk.violation("%s:%s:%s" % (what, n, json.loads(mine[m - 1][1]).get("op", "?")), "%s, field %s: %s broken by %s: %s" % (what, n, ",".join(sorted(f)), mine[m - 1][0], mine[m - 1][1]),
                              {"commands.txt": "\n".join("%d %s" % x for x in order) + "\n", "event.json": mine[m - 1][1] + "\n"})
    def arm_together(fields):
        what = "together:arm:%s" % "+".join("%s=%s" % f for f in fields)
        w = tempfile.mkdtemp(prefix="vpgen.")
        try:
            objs = []
            for n, p in fields:
                o = os.path.join(w, n + ".o"); objs.append(o)
                sh(["clang", "--target=aarch64-linux-gnu", "-c", os.path.join(gen(p, n), n.lower() + "_raw_arm64.s"), "-o", o])
            p = sh(["lld", "-flavor", "gnu", "-m", "aarch64linux", "-r", "-o", os.path.join(w, "all.o")] + objs, ok=False)
            if p.returncode: chk.violation(what + ":link", "the ARM64 parts assemble alone but do not link together: " + p.stderr.decode()[-1500:])
        finally:
            shutil.rmtree(w, ignore_errors=True)
    CP = {}
    ps = sorted({p for g in GROUPS for n, p in g})
    CP.update(zip(ps, parmap(lambda p: plan_grid(p, "class", CLASS, ["none"], False), ps)))
    for g in GROUPS:
        tasks.append(lambda g=g: arm_together(g))
        for be in ("asm", "gen"): tasks.append(lambda g=g, be=be: together(g, be))
    errs = []
    def run(t):
        t0 = time.time()
        try: t()
        except Exception as e: errs.append(e)
        if os.environ.get("VP_TIME"): print("%.1f" % (time.time() - t0), t.__name__)
    parmap(run, tasks)
    if errs and not chk.viol: raise errs[0]
    chk.assumptions = ["ejs, big-integer and yargs are offline stand-ins with the documented behaviour", "no two output options name the same file"]
    chk.finish()

CHECKS = {"C22": c22}
