"""C15, C16: the pool and the algorithms on it under a cooperative scheduler."""
from group import *
from group_checks import spread, thorough
import vp

PAR = os.path.join(CPP, "par")

def par_driver():
    key = "par-" + thash(repo_c(), GRP, PAR)
    def make(d):
        base = CXX + ["-O1", "-I", repo_c(), "-I", GRP, "-U_FORTIFY_SOURCE"]
        tsan = ["-fsanitize=thread"]
        jobs = [(os.path.join(PAR, "rt.cpp"), ["-fno-threadsafe-statics"]), (os.path.join(PAR, "main.cpp"), []), (os.path.join(PAR, "progs.cpp"), tsan + ["-fopenmp", "-DUSE_OPENMP", "-include", os.path.join(PAR, "mem.h")]),
                (os.path.join(repo_c(), "misc.cpp"), tsan), (os.path.join(repo_c(), "naf.cpp"), []), (os.path.join(repo_c(), "splitparstr.cpp"), [])]
        objs = [os.path.join(d, os.path.basename(s)[:-4] + ".o") for s, f in jobs]
        parmap(lambda j: sh(base + j[0][1] + ["-c", j[0][0], "-o", j[1]], timeout=600), list(zip(jobs, objs)))
        sh(CXX + ["-no-pie"] + objs + ["-lgmp", "-ldl", "-lpthread", "-o", os.path.join(d, "drv")])
    return os.path.join(cached(key, make), "drv")

def par_drive(exe, cmds, timeout=800):
    p = subprocess.run([exe], input=("\n".join(cmds) + "\nstat\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.dirname(exe))
    err = p.stderr.decode(errors="replace")
    if p.returncode:
        raise ToolError("scheduler driver ended with %d: %s" % (p.returncode, err[-500:]))
    runs = sum(int(x) for x in re.findall(r"#runs (\d+)", err))
    return p.stdout.decode(errors="replace").splitlines(), runs, err.count("#complete")

# ---- C15 ----------------------------------------------------------------------------------------------------------
def tok_of(c):
    return "block" if c[0] == "block" else "for %d %d" % (c[1], c[2])

def pool_model(chk, nt, prog, spur, locked=True):
    r = tlc("PoolImpl", "CONSTANTS NT=%d Spurious=%d StopLocked=%s Record=FALSE Program<-KP\nSPECIFICATION Spec\nINVARIANT OneHolder\nINVARIANT NotOverwritten\nPROPERTY Implements\nPROPERTY Terminates\n" % (nt, spur, "TRUE" if locked else "FALSE"),
            defs="KP == " + lit(prog), extra=("-checkdeadlock",), check_ok=False, workers=2)
    if r.ok != locked:
        raise ToolError("the pool model %s: %s" % ("fails" if locked else "does not show the lost wake-up", r.out[-3000:]))
    chk.states(r)

def pool_schedules(nt, prog, num, seed):
    """Behaviours of the model, as the order in which its threads took their steps."""
    r = tlc("PoolImpl", "CONSTANTS NT=%d Spurious=0 StopLocked=TRUE Record=TRUE Program<-KP\nSPECIFICATION Spec\nINVARIANT Behaviour\n" % nt, defs="KP == " + lit(prog),
            extra=("-simulate", "num=%d" % num, "-depth", "2000", "-seed", str(seed)), check_ok=False, workers=1)
    return sorted({tuple(map(int, re.findall(r"\d+", m))) for m in re.findall(r'<<\s*"SCHED",\s*<<([^>]*)>>\s*>>', r.out)})

def pool_validate(chk, what, exe, cmds, lines):
    """lines of several programs; every run by itself."""
    runs, cur = [], None
    prog = ""
    for l in lines:
        if l.startswith('{"k":"prog"'): prog = l; continue
        if l.startswith('{"k":"run"'): cur = [prog, l]; runs.append(cur)
        else: cur.append(l)
    size = 6000
    pieces, cur, n = [], [], 0
    for r in runs:
        cur.append(r); n += len(r) - 1
        if n >= size: pieces.append(cur); cur, n = [], 0
    if cur: pieces.append(cur)
    def one(piece):
        ls = [l for r in piece for l in r[1:]]
        res = run_tlc("PoolTrace", "INIT Init\nNEXT Next\n", {"TRACE": ls}, workers=1)
        whole(res, len(ls))
        chk.states(res)
        chk.cov["traces_validated_against_impl"] += len(piece)
        at = 0
        for r in piece:
            bad = {k: f for k, f in res.rejects.items() if at < k <= at + len(r) - 1}
            if bad:
                k = min(bad)
                chk.violation("%s/%s" % (json.loads(r[0])["p"].split()[0], "+".join(sorted(bad[k]))), "%s: program%s: %s not as specified (%s) in the run %s" % (what, json.loads(r[0])["p"], ls[k - 1], ",".join(sorted(bad[k])), r[1]),
                              {"run.ndjson": "\n".join(r) + "\n", "commands.txt": "\n".join(cmds) + "\n", "driver.txt": exe + "\n"})
            at += len(r) - 1
    parmap(one, pieces, 4)

def c15():
    chk = Check("C15")
    full = thorough()
    exe = par_driver()
    rng = random.Random("C15/%d" % SEED)
    tasks = []
    F = lambda b, e: ("for", b, e)
    B = ("block",)
    models = [(1, [F(0, 5), B], 0), (2, [F(0, 3), B, F(2, 2)], 2), (2, [], 1), (2, [F(-3, 1), F(0, 1), F(0, 2)], 1), (3, [F(0, 5)], 1), (3, [B, F(0, 2), F(0, 1)], 1), (3, [F(-1, 7), B], 2), (4, [F(0, 4)], 0), (4, [F(0, 2)], 1), (4, [B], 1), (4, [], 1)]
    if full: models += [(3, [B, B, B], 3), (4, [F(0, 6), F(0, 3)], 1), (4, [B, B], 1), (5, [F(0, 5)], 0), (3, [F(0, 3), F(0, 1), F(5, 9), B], 2)]
    for m in models: tasks.append(lambda m=m: pool_model(chk, *m))
    tasks.append(lambda: pool_model(chk, 2, [F(0, 3)], 0, False))
    tasks.append(lambda: pool_model(chk, 3, [B], 1, False))

    def text(nt, prog): return "prog pool new %d %s del" % (nt, " ".join(map(tok_of, prog)))
    def job(what, cmds):
        t0 = time.time()
        lines, runs, complete = par_drive(exe, cmds)
        chk.cov["runs"] = chk.cov.get("runs", 0) + runs
        chk.cov["complete_enumerations"] = chk.cov.get("complete_enumerations", 0) + complete
        if lines: chk.sample("%s: %s" % (what, " ".join(l for l in lines[:60] if '"run"' not in l)[:200]))
        pool_validate(chk, what, exe, cmds, lines)
        if os.environ.get("VP_TIME"): print("%6.1f s, %d runs, %d lines, %s" % (time.time() - t0, runs, len(lines), what))
    # schedules made by TLC from the model
    def enforced(nt, prog, num):
        ss = pool_schedules(nt, prog, num, SEED)
        if not ss: raise ToolError("no behaviours generated")
        job("behaviours of the model, %d threads" % nt, [text(nt, prog)] + ["given " + " ".join(map(str, s)) for s in ss])
    for nt, prog in ((2, [F(0, 3), B]), (2, [F(-2, 5), F(0, 1), B]), (3, [F(0, 7), B]), (3, [B, F(0, 2)]), (4, [F(0, 4), B])):
        tasks.append(lambda nt=nt, prog=prog: enforced(nt, prog, 4000 if full else 400))
    # schedules of the scheduler's own
    k = 12 if full else 1
    progs = [(1, [F(0, 3), B, F(2, 2), F(-5, -1)]), (2, []), (2, [F(0, 1)]), (2, [F(0, 5), F(-3, -1), B, B]), (3, [F(0, 2), F(0, 3), B]), (3, [F(4, 4), F(9, 2), F(1, 11)]), (4, [F(0, 3), F(0, 9), B]),
             (5, [B, F(-7, 6)]), (8, [F(0, 8), B, F(0, 5)]), (2, [F(0, 2)] * 6), (3, [B] * 4), (3, [F(0, 2147483647), F(-2147483648, -1), F(2147483640, 2147483647)]), (16, [F(0, 40), B]), (70, [B, F(0, 150)]), (140, [F(0, 139), B]), (260, [F(-5, 300), B, F(0, 2)])]
    def walk(nt, prog, seed, what, sets, n):
        return [text(nt, prog), "set " + sets, "many %d %d" % (seed, n)]
    for j in range(0, len(progs), 3):
        cmds = []
        for nt, prog in progs[j:j + 3]:
            for sets, n in (("strat 0", 200), ("strat 1 depth 3", 200), ("strat 1 depth 6", 100), ("strat 0 spurious 3", 100), ("strat 1 depth 4 spurious 2", 60), ("strat 0 fine 1", 30), ("strat 1 depth 4 fine 1", 40)):
                cmds += walk(nt, prog, rng.randrange(10 ** 9), "", sets, max(4, n * k * 5 // (nt * (2 + len(prog)))) if nt > 1 else 20)
        tasks.append(lambda cmds=cmds, j=j: job("walks %d" % j, cmds))
    # pools one after the other in one process
    cmds = []
    for _ in range(6 * k):
        t = "prog pool"
        for _ in range(rng.randrange(1, 4)):
            nt = rng.randrange(1, 6)
            t += " new %d" % nt
            for _ in range(rng.randrange(0, 4)):
                b = rng.randrange(-20, 20)
                t += rng.choice([" block", " for %d %d" % (b, b + rng.randrange(-2, 3 * nt))] * 2 + [" pause"])
            t += " del"
        cmds += [t, "set strat 0", "many %d 60" % rng.randrange(10 ** 9), "set strat 1", "many %d 60" % rng.randrange(10 ** 9)]
    tasks.append(lambda: job("pools one after the other", cmds))
    # every schedule with few preemptions
    dfs = [(2, [], 4, 20000), (2, [F(0, 2)], 3, 20000), (2, [B, F(0, 1)], 2, 20000), (3, [F(0, 3)], 1, 4000), (3, [B], 1, 4000)] if not full else \
          [(2, [], 6, 200000), (2, [F(0, 2)], 4, 200000), (2, [B, F(0, 2)], 3, 200000), (3, [F(0, 3)], 2, 200000), (3, [], 3, 200000), (4, [B], 1, 200000)]
    for nt, prog, bound, most in dfs:
        tasks.append(lambda nt=nt, prog=prog, bound=bound, most=most: job("all schedules of %d threads with up to %d preemptions" % (nt, bound), [text(nt, prog), "dfs %d %d" % (bound, most)]))
    # the division of the work
    pairs = [(n, t) for n in range(1, 200 if not full else 1200) for t in list(range(1, 24)) + [32, 64, 100]] + [(n, t) for n in (2 ** 31 - 1, 2 ** 31 - 2, 2 ** 30, 10 ** 9 + 7, 65536, 65537) for t in (1, 2, 3, 7, 8, 64, 1000)]
    pairs += [(rng.randrange(1, 2 ** 31), rng.randrange(1, 300)) for _ in range(300 * k)]
    def div():
        step = 600
        lines = []
        cs = ["prog div " + " ".join("%d %d" % p for p in pairs[j:j + step]) + "\nmany 1 1" for j in range(0, len(pairs), step)]
        job("division of work", cs)
        ns = sorted({1, 2, 3, 2 ** 32 - 1} | {2 ** b + e for b in range(1, 31) for e in (-1, 0, 1)} | {rng.randrange(1, 2 ** 31) for _ in range(300)})
        job("log2", ["prog log2 " + " ".join(str(n) for n in ns if n < 2 ** 31), "many 1 1"])
    tasks.append(div)
    # no unordered accesses inside the pool itself
    cmds2 = []
    for nt, prog in ((2, [F(0, 3), B]), (3, [F(0, 2), B, F(0, 9)]), (4, [B, F(0, 4)])):
        cmds2 += [text(nt, prog), "set races 1", "many %d %d" % (rng.randrange(10 ** 9), 40 * k)]
    tasks.append(lambda: race_run(chk, exe, "pool", cmds2, keep=lambda l: True))
    spread(tasks, chk)
    chk.assumptions = ["one thread at a time calls a pool; calls are not nested in pieces and pieces do not throw", "the length of a range fits an int",
                       "a schedule switches at synchronisation operations (in the fine mode also at instrumented memory accesses); memory is sequentially consistent, which the absence of races justifies"]
    chk.finish()

# ---- C16 ----------------------------------------------------------------------------------------------------------
POOL_EVENTS = ("new", "for", "block", "start", "end", "ret", "del", "gone", "exit")
def race_run(chk, exe, what, cmds, keep=None, cfg=None):
    t0 = time.time()
    lines, runs, complete = par_drive(exe, cmds)
    if keep is not None:     # programs over the pool itself: their own events are judged by PoolTrace, here they only end the run
        out = []
        for l in lines:
            k = json.loads(l)["k"]
            if k == "exit": out.append('{"k":"res","t":0,"v":"end"}')
            elif k not in POOL_EVENTS: out.append(l)
        lines = out
    maxo = 1 + max([json.loads(l)["o"] for l in lines if l.startswith('{"k":"acq"') or l.startswith('{"k":"rel"')] or [1])
    maxt = 1 + max([json.loads(l)["t"] for l in lines] or [1])
    # one problem after the other
    probs, cur = [], None
    for l in lines:
        if l.startswith('{"k":"prog"'): cur = []; probs.append(cur)
        cur.append(l)
    pieces, cur = [], []
    for p in probs:
        cur = cur + p
        if len(cur) > 15000: pieces.append(cur); cur = []
    if cur: pieces.append(cur)
    for ls in pieces:
        r = run_tlc("RaceTrace", "CONSTANTS MaxT=%d MaxO=%d\nINIT Init\nNEXT Next\nINVARIANT Known\n" % (maxt, maxo), {"TRACE": ls}, workers=1)
        whole(r, len(ls))
        chk.states(r)
        chk.cov["traces_validated_against_impl"] += sum(1 for l in ls if l.startswith('{"k":"run"'))
        for k, f in sorted(r.rejects.items()):
            j = k - 1
            while not ls[j].startswith('{"k":"prog"') and not ls[j].startswith('{"k":"vary"'): j -= 1
            prog = json.loads(ls[j])["p"].split()
            run = [x for x in range(j, k) if ls[x].startswith('{"k":"run"')]
            chk.violation("%s/%s" % (prog[0], "+".join(sorted(f))), "%s: problem %s: %s at %s" % (what, " ".join(prog), ",".join(sorted(f)), ls[k - 1][:300]),
                          {"run.ndjson": "\n".join(ls[run[-1] if run else j:k]) + "\n", "commands.txt": "\n".join(cmds) + "\n", "driver.txt": exe + "\n"})
    chk.cov["runs"] = chk.cov.get("runs", 0) + runs
    if lines: chk.sample("%s: %d lines, e.g. %s" % (what, len(lines), lines[len(lines) // 2][:120]))
    if os.environ.get("VP_TIME"): print("%6.1f s, %d runs, %d lines, %s" % (time.time() - t0, runs, len(lines), what))

def c16():
    chk = Check("C16")
    full = thorough()
    exe = par_driver()
    rng = random.Random("C16/%d" % SEED)
    tasks = []
    k = 6 if full else 1
    sd = lambda: rng.randrange(10 ** 9)
    def pool_prog(p, procs, logged, plain, fine=0):
        cmds = ["prog " + p]
        for n in procs:
            cmds += ["set procs %d races 1" % n, "set strat 0", "many %d %d" % (sd(), logged * k), "set strat 1", "many %d %d" % (sd(), logged * k)]
            cmds += ["set races 0 strat 0", "many %d %d" % (sd(), plain * k), "set strat 1 depth 4", "many %d %d" % (sd(), plain * k)]
            if fine: cmds += ["set fine 1 strat 0", "many %d %d" % (sd(), fine * k), "set strat 1 depth 5", "many %d %d" % (sd(), fine * k), "set fine 0"]
        return cmds
    def omp_prog(name, rest, nts, logged, plain, fine=0):
        cmds = []
        for j, n in enumerate(nts):
            cmds += ["%s %s %d %s" % ("prog" if j == 0 else "vary", name, n, rest), "set races 1 strat 0", "many %d %d" % (sd(), logged * k), "set strat 1", "many %d %d" % (sd(), logged * k), "set races 0 strat 0",
                     "many %d %d" % (sd(), plain * k), "set strat 1 depth 4", "many %d %d" % (sd(), plain * k)]
            if fine: cmds += ["set fine 1 strat 0", "many %d %d" % (sd(), fine * k), "set fine 0"]
        return cmds
    def phases():
        r = tlc("Phases", "CONSTANTS MaxPow=%d MaxNt=%d MaxPoints=%d MaxChunks=%d MaxK=%d\nINIT Init\nNEXT Next\nINVARIANT Disjoint\nINVARIANT Complete\n" % ((8, 20, 16, 12, 5) if full else (5, 9, 9, 6, 4)), workers=1)
        chk.states(r)
    tasks.append(phases)
    P = [1, 2, 3, 4, 5, 8]
    for p, dom in ((3, 2), (5, 4), (17, 16), (97, 32), (193, 64)):
        tasks.append(lambda p=p, dom=dom: race_run(chk, exe, "set-up of transforms", pool_prog("roots %d %d %d" % (p, dom, dom), P + [7, 16, dom - 1 if 1 < dom < 20 else 6], 2, 10, 2)))
    for alg in ("fft", "ifft"):
        for p, dom, n in ((5, 4, 4), (17, 16, 8), (17, 16, 16), (97, 32, 32), (193, 64, 64), (17, 2, 1), (17, 2, 2)):
            tasks.append(lambda alg=alg, p=p, dom=dom, n=n: race_run(chk, exe, alg, pool_prog("%s %d %d %d" % (alg, p, dom, n), P if n < 33 else [2, 3, 4, 7], 2 if n < 33 else 1, 8, 2 if n < 20 else 0)))
    for ss, n in ((1, 2), (1, 3), (2, 5), (3, 9), (32, 4), (8, 20)) + (((4, 70), (32, 40), (1, 200)) if full else ()):
        tasks.append(lambda ss=ss, n=n: race_run(chk, exe, "msm", pool_prog("msm 0 %d %d" % (ss, n), P if n < 33 else [2, 3, 5], 2 if n < 10 else 1, 8, 1 if n < 10 else 0)))
        tasks.append(lambda ss=ss, n=n: race_run(chk, exe, "mex", omp_prog("mex", "%d %d" % (ss, n), [1, 2, 3, 4, 8] if ss < 32 else [1, 2, 4], 1, 6, 1 if n < 6 else 0)))
    tasks.append(lambda: race_run(chk, exe, "msm", pool_prog("cmsm 0 2 7", [1, 2, 3, 6], 2, 10)))
    tasks.append(lambda: race_run(chk, exe, "mex", omp_prog("cmex", "2 7", [1, 2, 3, 6], 2, 10)))
    for rest in ("1 9 3 2 2", "2 12 4 3 1", "1 40 20 20", "3 5 1 0 2 1"):
        tasks.append(lambda rest=rest: race_run(chk, exe, "sectioned mex", omp_prog("sec", rest, [1, 2, 3, 4], 1, 6)))
    spread(tasks, chk)
    chk.assumptions = ["accesses are those the compiler's thread instrumentation reports in the templates, their elements and memory copies; big-number library calls are not among them",
                       "orders are those of locks, conditions, thread starts and ends, OpenMP barriers and atomics of the runs explored"]
    chk.finish()

CHECKS = {"C15": c15, "C16": c16}
