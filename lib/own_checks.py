"""C23: calls give back what they take; C24: calls in different threads leave each other alone."""
from group import *
from group_checks import spread, thorough
import vp, io_checks

OWN = os.path.join(CPP, "own")
IO = os.path.join(CPP, "io")

def own_driver(omp):
    gq, gr = gen("bn128q", "Fq"), gen("bn128r", "Fr")
    key = "own-%d-%s" % (omp, thash(repo_c(), OWN, IO, os.path.join(REPO, "src")))
    def make(d):
        flags = CXX + ["-O1", "-include", "stdexcept", "-I", repo_c(), "-I", os.path.join(IO, "inc"), "-I", gq, "-I", gr]
        par = ["-fopenmp", "-DUSE_OPENMP"] if omp else ["-pthread"]
        jobs = [(os.path.join(OWN, "track.cpp"), []), (os.path.join(OWN, "own.cpp"), par), (os.path.join(repo_c(), "alt_bn128.cpp"), par), (os.path.join(repo_c(), "binfile_utils.cpp"), ["-fopenmp"])]
        jobs += [(os.path.join(repo_c(), f), par) for f in ("naf.cpp", "misc.cpp", "splitparstr.cpp", "zkey_utils.cpp", "wtns_utils.cpp")]
        jobs += [(os.path.join(g, n + s + ".cpp"), []) for g, n in ((gq, "fq"), (gr, "fr")) for s in ("", "_generic", "_raw_generic")]
        objs = [os.path.join(d, os.path.basename(s)[:-4] + ".o") for s, f in jobs]
        parmap(lambda j: sh(flags + j[0][1] + ["-c", j[0][0], "-o", j[1]], timeout=600), list(zip(jobs, objs)))
        sh(CXX + ["-no-pie"] + objs + ["-fopenmp", "-lgmp", "-ldl", "-lpthread", "-o", os.path.join(d, "drv")])
    return os.path.join(cached(key, make), "drv")

def le(v, n): return list(int(v).to_bytes(n, "little"))
def sectioned(ty, version, secs):
    b = list(ty) + le(version, 4) + le(len(secs), 4)
    for i, d in secs: b += le(i, 4) + le(len(d), 8) + list(d)
    return bytes(b).hex()
def zkey_secs(proto=1, n8=32, skip=()):
    q, r = PRIMES["bn128q"], PRIMES["bn128r"]
    head = le(n8, 4) + le(q, n8) + le(n8, 4) + le(r, n8) + le(7, 4) + le(2, 4) + le(8, 4) + [i & 255 for i in range(n8 * 18)]
    return [(i, d) for i, d in ((1, le(proto, 4)), (2, head), (4, [1] * (3 * (12 + n8)))) if i not in skip]
def wtns_secs(n8=32, skip=()):
    return [(i, d) for i, d in ((1, le(n8, 4) + le(PRIMES["bn128r"], n8) + le(5, 4)), (2, [3] * (5 * n8))) if i not in skip]

PLAIN = {
    "fr": lambda a, b: "fr %s" % FR[a % len(FR)](b),
    "fq": lambda a, b: "fq %s" % FR[(a * 7 + b) % len(FR)](b + 1),
    "g1": lambda a, b: "g1 %s %d %d %d" % (("mul", "msm", "mex", "sec")[a % 4], (0, 1, 2, 5, 19)[b % 5], (1, 3, 8, 32)[(a + b) % 4], (0, 1, 2, 3, 5, 8)[(a // 4 * 5 + b) % 6]),
    "g2": lambda a, b: "g2 %s %d %d %d" % (("mul", "msm", "mex", "sec")[b % 4], (0, 1, 3, 7)[a % 4], (1, 4, 9)[(a + b) % 3], (2, 1, 0, 6, 9)[b % 5]),
    "tower": lambda a, b: "tower",
    "naf": lambda a, b: "naf %d" % (1 + a * 3 + b),
    "split": lambda a, b: "split %s" % ("1,2", "(1,2),(3,4)", "(((1,2)))", "((1),(2)),3", " (a , b) ,c", "((1,2),(3,4),(5,6))", "(1", "1)")[(a * 3 + b) % 8].encode().hex(),
    "divide": lambda a, b: "divide %d %d" % (1 + a * 5, 1 + b),
}
NUMS = ("0", "1", "123", "-5", "21888242871839275222246405745257275088548364400416034343698204186575808495616", "99999999999999999999999999999999999999999999999999999999999999999999999999999999", "4294967296", "7")
FR = [lambda b, op=op: "%s %s %s %d" % (op, NUMS[b % 8], NUMS[(b * 3 + 1) % 8] if op not in ("idiv", "mod", "div", "rdiv") else NUMS[1 + b % 2 * 5], (10, 16)[b % 2] if op not in ("fromString",) or "-" not in NUMS[b % 8] else 10)
      for op in ("parse", "print", "idiv", "mod", "pow", "inv", "div", "small", "mpz", "fromString", "toString", "fromUI", "set", "rinv", "rdiv", "rexp", "rmpz", "toBE", "toBEshort", "fromBE", "fromBEshort", "object", "print", "parse")]
def nonzero(s):      # an inverse exists
    t = s.split()
    if t[0] in ("fr", "fq") and t[1] in ("inv", "rinv") and t[2] in ("0",): t[2] = "123"
    return " ".join(t)

def make_of(kind, a, b):
    """(command tail, before) of making an object; a = 0: one that is refused."""
    if kind == "fft": return ("fft %d" % ((1, 2, 4, 16, 64, 256)[b % 6] if a else 1 << (29 + b % 3)), None)
    if kind == "pool": return ("pool %d" % (1 + b if a else 2 + b), None if a else "fail %d 0" % (1 + (b * 5 + 2) % (1 + b)))
    if kind == "field": return ("field %s" % ("-1", "5", "0", "1")[b % 4], None)
    if kind == "curve": return ("curve %s" % ("0", "-1", "1", "7")[b % 4], None)
    if kind == "engine": return ("engine", None)
    f = [sectioned(b"zkey", 1, zkey_secs()), sectioned(b"zkey", 1, zkey_secs(n8=40)), sectioned(b"zkey", 0, [(1, [1, 0, 0, 0]), (1, [5]), (9, [])]), sectioned(b"zkey", 1, [])][b % 4]
    src = ("mem", "disk", "exist")[(a + b) % 3]
    if a: return ("file %s zkey 1 %s" % (src, f), None)
    return [("file %s wtns 1 %s" % (src, f), None), ("file %s zkey 0 %s" % (src, sectioned(b"zkey", 1, zkey_secs())), None), ("file none zkey 1 -", None), ("file %s zkey 1 %s" % (("disk", "exist")[b % 2], f), "fail 0 1")][b % 4]

KINDS = ("fft", "pool", "file", "wtns", "zkey", "field", "curve", "engine")
CAN_REFUSE = ("fft", "pool", "file", "wtns", "zkey")

def use_of(kind, a, b):
    if kind == "fft": return ["%s %d" % (("fft", "ifft", "log2", "root")[b % 4], 1)]
    if kind == "pool": return [("for %d" % (a * 7 + b), "block 0", "wide %d" % (3 + b), "for 0")[(a + b) % 4]]
    if kind == "file": return ["start %d 0" % (1 + b % 2), "end 1", "size 1 0", "data %d %d" % (1 + a, b % 2), "end 1", "start 77 0", "start 1 9", "end 0"]
    return ["x"]

def play(h):
    """A history of the model as commands of the driver; headers get a file of their own."""
    out, what = [], {}
    seen = {}
    for op, s, k, v in h:
        a, b = v
        if op == "plain": out.append("plain 0 " + nonzero(PLAIN[k](a, b)))
        elif op == "make":
            a = a if k in CAN_REFUSE else 1
            if k in ("wtns", "zkey"):
                secs = (wtns_secs if k == "wtns" else zkey_secs)
                long = [(i, list(d) + [0] if i == (2 if k == "zkey" else 1) else d) for i, d in secs()]
                bad = [secs(skip=(1,)), long, secs(skip=(4,)), secs(skip=(2,)), zkey_secs(proto=2)] if k == "zkey" else [secs(skip=(1,)), long, secs(n8=48, skip=(1, 2))]
                f = bad[b % 5 % len(bad)] if not a and b != 7 else secs() if b % 2 else secs(n8=40)
                out.append("make 0 %sF file mem %s 1 %s" % (s, k, sectioned(k.encode(), 1, f)))
                if not a and b == 7: out.append("use 0 %sF start 1 0" % s)      # already reading
                out.append("make 0 %s %s %sF" % (s, k, s))
                if not a: out.append("use 0 %sF end 0" % s)
                out.append("drop 0 %sF" % s)
            else:
                t, before = make_of(k, a, b)
                if before: out.append(before)
                out.append("make 0 %s %s" % (s, t))
            seen = {x: n for x, n in seen.items() if x[0] != s}
        elif op == "use":
            for u in use_of(k, a, b):
                n = seen[s, u] = seen.get((s, u), 0) + 1
                out.append("use %d %s %s" % (2 if n > 2 else 0, s, u))
        else: out.append("drop 0 %s" % s)
    return out

def warm():
    """Every call once or twice, to set up what stays for the life of the process."""
    out = []
    for k in PLAIN:
        for a in range(len(FR) if k in ("fr", "fq") else 8 if k == "g1" else 4):
            for b in range(8 if k in ("fr", "fq") else 5): out.append(["plain", "p", k, (a, b)])
    for k in KINDS:
        for b in range(10 if k in CAN_REFUSE else 4 if k != "engine" else 1):
            out += [["make", "w", k, (1, b)], ["use", "w", k, (1, b)], ["use", "w", k, (0, b)], ["drop", "w", k, (1, 1)]]
            if k in CAN_REFUSE: out.append(["make", "w", k, (0, b)])
    return out

def own_run(chk, what, exe, hists, repeat=1):
    """Each history in turn, in one process, after a first round of everything."""
    ws = [re.sub(r"^(plain|make|use|drop) \d ", r"\1 1 ", c) for c in play(warm())]
    cmds = ws * 2 + [c for h in hists for c in play(h)]
    d = tempfile.mkdtemp(prefix="vpown.")
    try:
        env = dict(os.environ); env.update(OMP_DYNAMIC="false", OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0", OMP_NUM_THREADS="3")
        p = subprocess.run([exe, d], input=("\n".join(cmds) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800, env=env)
    finally: shutil.rmtree(d, ignore_errors=True)
    lines = p.stdout.decode(errors="replace").splitlines()
    if p.returncode == 3: raise ToolError("driver: " + p.stderr.decode()[-300:])
    files = {"commands.txt": "\n".join(cmds) + "\n", "driver.txt": exe + "\n"}
    if p.returncode:
        last = [l for l in lines if '"op"' in l][-1:]
        chk.violation("%s/crash" % what, "%s: driver ended with %d in %s: %s" % (what, p.returncode, last, p.stderr.decode(errors="replace")[-300:]), files); return
    lines = ['{"k":"run"}'] + lines
    res = run_tlc("LedgerTrace", "INIT Init\nNEXT Next\n", {"TRACE": lines}, workers=1)
    whole(res, len(lines))
    chk.states(res)
    chk.cov["traces_validated_against_impl"] += len(hists)
    chk.cov["calls"] = chk.cov.get("calls", 0) + len(cmds)
    chk.sample("%s: %d calls, %d events" % (what, len(cmds), len(lines)))
    calls, cur = {}, None
    for n, l in enumerate(lines):
        if '"op"' in l: cur = json.loads(l)
        calls[n + 1] = cur
    for n, f in sorted(res.rejects.items()):
        c = calls[n]
        if "plan" in f: raise ToolError("line %d: %s" % (n, lines[n - 1]))
        word = (c["op"].split() + ["", ""])
        chk.violation("%s %s/%s" % (c["k"], " ".join(word[:2]) if c["k"] == "plain" else word[1], "+".join(sorted(f))), "%s: %s %s (object %s): %s at %s" % (what, c["k"], c["op"], c["o"], ",".join(sorted(f)), lines[n - 1]),
                      dict(files, **{"events.ndjson": "\n".join(lines[max(0, n - 60):n]) + "\n"}))

def ledger_histories(length, num, seed, kinds=KINDS, plains=tuple(PLAIN)):
    vs = "KV == (0..1) \\X (0..9)"
    r = tlc("LedgerModel", "CONSTANTS Slots={\"a\",\"b\",\"c\"} Kinds <- KK Stages <- KS Careless=FALSE Variants <- KV PlainOps <- KP Length=%d\nINIT Init\nNEXT HNext\nINVARIANT Printed\n" % length,
            defs="KK == %s\nKS == <<>>\n%s\nKP == %s" % (lit(set(kinds)), vs, lit(set(plains))), extra=("-simulate", "num=%d" % num, "-depth", str(length + 1), "-seed", str(seed)), check_ok=False, workers=1)
    flat_ = re.sub(r"\s+", " ", r.out)
    hs = sorted(set(re.findall(r'<< ?"HIST", <<(.*?)>> ?>> ?>>', flat_)))
    out = [[[m[0], m[1], m[2], (int(m[3]), int(m[4]))] for m in re.findall(r'<< ?"(\w+)", "(\w+)", "(\w+)", << ?(\d+), (\d+) ?>>', h)] for h in hs]
    out = [close(h) for h in out if h]
    if len(out) < num // 3: raise ToolError("no histories generated: " + r.out[-800:])
    return out

def close(h):
    """Refusals make no object where the kind cannot refuse: uses and drops of what is not there are left out; all is dropped at the end."""
    live, out = {}, []
    for op, s, k, v in h:
        if op == "make":
            if s in live: continue
            if not (k in CAN_REFUSE and v[0] == 0): live[s] = k
        elif op in ("use", "drop"):
            if live.get(s) != k: continue
            if op == "drop": del live[s]
        out.append([op, s, k, v])
    return out + [["drop", s, k, (1, 1)] for s, k in sorted(live.items())]

def ledger_model(chk, full):
    stages = {"two": ["new", "arr"], "one": ["fd"], "three": ["mem", "map", "thr"]}
    def one(kinds, slots, careless):
        r = tlc("LedgerModel", "CONSTANTS Slots <- KSl Kinds <- KK Stages <- KS Careless=%s Variants={1} PlainOps={} Length=0\nSPECIFICATION Spec\nINVARIANT Balanced\nPROPERTY EndsWell\n" % ("TRUE" if careless else "FALSE"),
                defs="KSl == %s\nKK == %s\nKS == %s" % (lit(set(slots)), lit(set(kinds)), lit({k: stages[k] for k in kinds})), check_ok=False, workers=2)
        if r.ok == careless: raise ToolError("the model of the ledger: %s" % r.out[-2000:])
        chk.states(r)
    one(["two", "one"], ["x", "y"], False)
    if full: one(["three", "two"], ["x", "y"], False)
    one(["two"], ["x"], True)

def c23():
    chk = Check("C23")
    full = thorough()
    chk.assumptions += ["memory, descriptors, mappings and threads are seen through the interposed C library entry points", "a first round of every call may set things up for the life of the process"]
    exes = parmap(own_driver, [0, 1])
    tasks = [lambda: ledger_model(chk, full)]
    rng = random.Random("C23/%d" % SEED)
    # every call and every refusal of each kind, by itself
    w = warm()
    tasks.append(lambda: own_run(chk, "every call by itself", exes[0], [w, w]))
    tasks.append(lambda: own_run(chk, "every call by itself, with OpenMP", exes[1], [w, w]))
    same = []
    for k in KINDS:       # the same use of one object again and again
        for v in ((0, 0), (1, 1), (0, 2), (1, 3)):
            same.append(close([["make", "a", k, (1, v[1] + 2)]] + [["use", "a", k, v]] * 6))
    tasks.append(lambda: own_run(chk, "one object used again and again", exes[0], same))
    for j, n in enumerate((6, 14, 30) + ((60, 20, 20) if full else ())):
        tasks.append(lambda j=j, n=n: own_run(chk, "histories of the model of %d calls" % n, exes[j % 2], ledger_histories(n, (300 if full else 60), SEED + j)))
    parmap(lambda t: t(), tasks, 4)
    chk.finish()

# ---- C24 ----------------------------------------------------------------------------------------------------------
GMPZ = "add sub mul fdiv_q fdiv_r tdiv_q tdiv_r mod and ior xor invert powm add_ui sub_ui mul_ui mul_2exp fdiv_q_2exp fdiv_r_2exp tdiv_q_2exp init clear set init_set com set_ui init_set_ui init2 set_si init_set_si set_str init_set_str fits_sint_p get_si get_ui cmp cmp_ui tstbit sizeinbase get_str export import".split()
GMPN = "add_n sub_n and_n ior_n xor_n mul_1 addmul_1 submul_1 add_1 sub_1 lshift rshift com copyi copyd zero cmp".split()
def sess_driver():
    gq, gr = gen("bn128q", "Fq"), gen("bn128r", "Fr")
    PAR = os.path.join(CPP, "par")
    key = "sess-" + thash(repo_c(), GRP, PAR, IO, os.path.join(REPO, "src"))
    def make(d):
        base = CXX + ["-O1", "-U_FORTIFY_SOURCE", "-include", "stdexcept", "-I", repo_c(), "-I", GRP, "-I", os.path.join(IO, "inc"), "-I", gq, "-I", gr]
        ts = ["-fsanitize=thread", "-include", os.path.join(PAR, "mem.h")]
        jobs = [(os.path.join(PAR, f), ["-fno-threadsafe-statics"]) for f in ("rt.cpp", "main.cpp", "gmpwrap.cpp")] + [(os.path.join(PAR, "sess.cpp"), ts), (os.path.join(repo_c(), "binfile_utils.cpp"), ts + ["-fopenmp"])]
        jobs += [(os.path.join(repo_c(), f), ts) for f in ("alt_bn128.cpp", "naf.cpp", "misc.cpp", "splitparstr.cpp", "zkey_utils.cpp", "wtns_utils.cpp")]
        jobs += [(os.path.join(g, n + s + ".cpp"), ts) for g, n in ((gq, "fq"), (gr, "fr")) for s in ("", "_generic", "_raw_generic")]
        objs = [os.path.join(d, os.path.basename(s)[:-4] + ".o") for s, f in jobs]
        parmap(lambda j: sh(base + j[0][1] + ["-c", j[0][0], "-o", j[1]], timeout=600), list(zip(jobs, objs)))
        sh(CXX + ["-no-pie"] + objs + ["-Wl," + ",".join("--wrap=__gmp%s_%s" % (k, f) for k, fs in (("z", GMPZ), ("n", GMPN)) for f in fs), "-lgmp", "-ldl", "-lpthread", "-o", os.path.join(d, "drv")])
    return os.path.join(cached(key, make), "drv")

KS = ("tfr", "tfq", "cfr", "cfq", "tower", "g1", "g2", "eng", "curve", "naf", "split", "sum", "pool", "file")
def apart_models(chk, full):
    for temp, setup, good in (("own", "start", True), ("own", "guarded", True), ("own", "late", True), ("shared", "start", False), ("own", "flag", False)):
        r = tlc("Apart", "CONSTANTS Threads={1,2%s} Args={1,2} Calls=%d Temp=\"%s\" Setup=\"%s\"\nSPECIFICATION Spec\nINVARIANT AsAlone\n" % (",3" if good else "", 2 if full and good else 1, temp, setup), check_ok=False, extra=("-deadlock",), workers=2)
        if r.ok != good: raise ToolError("the model of threads with objects of their own, %s %s: %s" % (temp, setup, r.out[-2000:]))
        chk.states(r)

def c24():
    import par_checks
    chk = Check("C24")
    full = thorough()
    exe = sess_driver()
    rng = random.Random("C24/%d" % SEED)
    tasks = [lambda: apart_models(chk, full)]
    k = 8 if full else 1
    sd = lambda: rng.randrange(10 ** 9)
    def problem(kinds, logged, fine):
        t = "%d %s" % (sd(), "|".join(kinds))
        cmds = ["prog par 0 " + t, "many 1 1", "vary par 1 " + t, "set limit 400000000 procs 1 races 1 strat 0", "many %d %d" % (sd(), logged)]
        # switches in the middle of calls
        for depth, span in ((4, 3000), (12, 30000), (40, 200000)): cmds += ["set races 0 fine 1 strat 1 depth %d span %d" % (depth, span), "many %d %d" % (sd(), fine)]
        return cmds
    probs = []
    pairs = [(a, b) for i, a in enumerate(KS) for b in KS[i:]]
    for a, b in pairs: probs.append((("%s,%s" % (a, b), "%s,%s" % (b, a)), 1, 12 * k))
    for a in KS: probs.append((tuple(",".join([a] * 3) for _ in range(3)), 1, 30 * k))
    for _ in range(30 * k):
        nt = rng.randrange(2, 7)
        probs.append((tuple(",".join(rng.choice(KS) for _ in range(rng.randrange(1, 6))) for _ in range(nt)), 1, 16))
    rng.shuffle(probs)
    for j in range(0, len(probs), 12):
        tasks.append(lambda j=j: par_checks.race_run(chk, exe, "sessions", [c for p in probs[j:j + 12] for c in problem(*p)]))
    # the assembly keeps nothing in memory of its own
    def asm_statics(p):
        import field, field_checks
        r = random.Random("C24/asm/%d/%s" % (SEED, p))
        ops = field.CONV + field.ARITH + field.BITS + field.CMP + field.NUM
        n = 400 if p == "mnt6753q" else 1500
        cmds = field.with_sessions(field.rnd_pairs(r, p, ops, n * k) + field.rnd_raw(r, p, field.RAW, n * k)) + field.rnd_sessions(r, p, ops + ["str"], 10 * k, 40)
        lines, rc = field.drive(field.backend(p, "asm"), cmds)
        if rc == 0 and len(lines) == len(cmds):       # what fails by itself is no matter of this property
            cmds = [c for c, l in zip(cmds, lines) if c == "S" or c[0] == "L" or '"sig":0' in l or '"sig"' not in l]
        field.run_trace(chk, p, "asmro", cmds, lambda e, f: "crash" in f and e.get("sig") == 11)
    import field_checks
    for p in field_checks.QUICK_PRIMES + field_checks.MORE_PRIMES: tasks.append(lambda p=p: asm_statics(p))
    spread(tasks, chk)
    chk.assumptions = ["transforms and pool-based sums share the default pool, which has one caller at a time", "accesses are those of instrumented code, of its memory copies and of its big-number calls"]
    chk.finish()

CHECKS = {"C23": c23, "C24": c24}
