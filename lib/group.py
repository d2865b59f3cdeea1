"""Curves, towers, recoding, multi-scalar multiplication, transforms: building the drivers, planning and validating with TLC."""
import json, os, tempfile, threading
from vp import *
import vp

GRP = os.path.join(CPP, "grp")
TUS = {"toy": ["main", "toycurve", "toycurve2", "tower", "nafdrv", "fftdrv"], "z": ["main", "nafdrv"], "fft": ["main", "fftdrv"], "real": ["main", "real", "tower_real", "fft_real", "bn128"]}

def repo_c():
    return os.path.join(REPO, "c")

def driver(kind, defs=(), name=None, omp=True):
    """kind 'toy': templates over small fields; 'real-asm' / 'real-c': over the generated bn128 fields."""
    name = name or kind
    key = "grp-%s-%s-%s" % (name, hashlib.sha256(repr((defs, omp)).encode()).hexdigest()[:6], thash(repo_c(), GRP, os.path.join(CPP, "guard.h"), os.path.join(REPO, "src")))
    real = kind.startswith("real")
    if real:
        gq, gr = gen("bn128q", "Fq"), gen("bn128r", "Fr")
    def make(d):
        flags = CXX + ["-O1", "-I", repo_c(), "-I", GRP] + list(defs) + (["-fopenmp", "-DUSE_OPENMP"] if omp else ["-pthread"])
        objs, jobs = [], []
        src = [os.path.join(GRP, t + ".cpp") for t in TUS["real" if real else kind]]
        src += [os.path.join(repo_c(), f) for f in ("naf.cpp", "misc.cpp", "splitparstr.cpp")]
        if real:
            flags += ["-I", gq, "-I", gr]
            src += [os.path.join(repo_c(), "alt_bn128.cpp"), os.path.join(gq, "fq.cpp"), os.path.join(gr, "fr.cpp")]
            if kind == "real-asm":
                flags += ["-DUSE_ASM", "-DARCH_X86_64"]
                for g, n in ((gq, "fq"), (gr, "fr")):
                    o = os.path.join(d, n + "_asm.o")
                    sh(["nasm", "-felf64", os.path.join(g, n + ".asm"), "-o", o]); objs.append(o)
            else:
                for g, n in ((gq, "fq"), (gr, "fr")):
                    src += [os.path.join(g, n + "_generic.cpp"), os.path.join(g, n + "_raw_generic.cpp")]
        for s in src:
            o = os.path.join(d, os.path.basename(s)[:-4] + ".o")
            jobs.append((s, o)); objs.append(o)
        parmap(lambda j: sh(flags + ["-c", j[0], "-o", j[1]], timeout=600), jobs)
        sh(flags + ["-no-pie"] + objs + ["-lgmp", "-o", os.path.join(d, "drv")], timeout=600)
    return os.path.join(cached(key, make), "drv")

def drive(exe, commands, threads=4, timeout=600):
    env = dict(os.environ); env["VP_NT"] = str(threads); env["OMP_DYNAMIC"] = "false"; env["OMP_WAIT_POLICY"] = "passive"; env["GOMP_SPINCOUNT"] = "0"; env.pop("OMP_NUM_THREADS", None)
    p = subprocess.run([exe], input=("\n".join(commands) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=os.path.dirname(exe))
    if p.returncode == 3:
        raise ToolError("driver refused: " + p.stderr.decode()[-500:])
    return p.stdout.decode().splitlines(), p.returncode, p.stderr.decode(errors="replace")[-2000:]

def jfile(obj):
    f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    json.dump(obj, f); f.close()
    return f.name

def run_tlc(module, cfg, files, env=None, **k):
    """files: name -> object (JSON) or list of lines (ndjson), passed by environment variable."""
    e, tmp = dict(env or {}), []
    try:
        for n, o in files.items():
            if isinstance(o, list) and o and isinstance(o[0], str) and o[0].startswith("{"):
                f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False)
                f.write("\n".join(o) + "\n"); f.close(); p = f.name
            else:
                p = jfile(o)
            tmp.append(p); e[n] = p
        return tlc(module, cfg, env=e, **k)
    finally:
        for p in tmp:
            os.unlink(p)

# ---- curves -------------------------------------------------------------------------------------------------------
class CurveCfg:
    """kind: t (prime field), t2 (quadratic extension of a small prime), b1/b2 (bn128 G1/G2)."""
    def __init__(self, name, kind, k):
        self.name, self.kind, self.k = name, kind, k
        self.big = kind[0] in "be"
    def header(self):
        k = self.k
        if self.kind == "t": return ["tc %d %d %d %d %d" % (k["p"], k["a"], k["b"], k["gx"], k["gy"])]
        if self.kind == "t2": return ["tc2 %d %d %s" % (k["p"], k["nr"], " ".join("%d %d" % tuple(k[x]) for x in ("a", "b", "gx", "gy")))]
        return []
    def consts(self, plan):
        if self.big:
            ext = self.kind[1] == "2"
            n = "Q2" if ext else "Q"
            c = "CONSTANTS Q <- KQ FAdd <- %sAdd FSub <- %sSub FMul <- %sMul FInv <- %sInv\n" % (n, n, n, n)
            c += "CONSTANTS FZero <- Q2Zero FOne <- Q2One\n" if ext else 'CONSTANTS FZero = "0" FOne = "1"\n'
            dec = "FDec <- %sDec" % n
            els = "Elements <- TNone"
        else:
            ext = self.kind == "t2"
            n = "T2" if ext else "T"
            c = "CONSTANTS P <- KP Nr <- KNr FAdd <- %sAdd FSub <- %sSub FMul <- %sMul FInv <- %sInv\n" % (n, n, n, n)
            c += "CONSTANTS FZero <- T2Zero FOne <- T2One\n" if ext else "CONSTANTS FZero = 0 FOne = 1\n"
            dec = "FDec <- %sDec" % n
            els = "Elements <- %sElements" % ("T2" if ext else "T1") if plan != "few" else "Elements <- TNone"
        c += "CONSTANTS CA <- KA CB <- KB GenX <- KGX GenY <- KGY\n"
        if plan: c += "CONSTANTS Mults <- KMults Scales <- KScales ZeroXY <- KZero " + els + "\n"
        else: c += "CONSTANTS Order <- KOrder " + dec + "\n"
        return c
    def defs(self, order=None):
        k = self.k
        d = {"KA": k["a"], "KB": k["b"], "KGX": k["gx"], "KGY": k["gy"]}
        if self.big: d["KQ"] = k["q"]
        else: d["KP"], d["KNr"] = k["p"], k["nr"]
        if order is not None: d["KOrder"] = order
        else: d["KScales"], d["KZero"], d["KMults"] = set(k["scales"]), set(k["zeros"]), set(k["mults"])
        return "\n".join("%s == %s" % (n, lit(v)) for n, v in d.items())
    def plan(self):
        """Operand tables chosen (and the specification checked) by TLC: dict aff, ext, n."""
        key = "cplan-%s-%s" % (self.name, hashlib.sha256((json.dumps(self.k, sort_keys=True) + thash(SPEC)).encode()).hexdigest()[:10])
        def make(d):
            r = run_tlc("CurvePlanBig" if self.big else "CurvePlanToy", self.consts(True) + "INIT Init\nNEXT Next\n", {}, defs=self.defs(), env={"OUT": os.path.join(d, "plan.json")}, workers=1)
        with open(os.path.join(cached(key, make), "plan.json")) as f:
            return json.load(f)
    def validate(self, lines, order, workers=1):
        r = run_tlc("CurveTraceBig" if self.big else "CurveTraceToy", self.consts(None) + "INIT Init\nNEXT Next\nINVARIANT TypeOK\n", {"TRACE": lines}, defs=self.defs(order), workers=workers)
        whole(r, len(lines))
        return r


def run_trace_module(module, consts, defs, lines, tail="INIT Init\nNEXT Next\n", chunk=4000, jobs=JOBS):
    """Validate independent events with TLC, in parallel pieces; yields (line number, failed aspects)."""
    pieces = [lines[k:k + chunk] for k in range(0, len(lines), chunk)]
    def one(x):
        n, ls = x
        r = run_tlc(module, consts + tail, {"TRACE": ls}, defs=defs, workers=1)
        whole(r, len(ls) + 1)
        return r, n
    out = parmap(one, enumerate(pieces), jobs)
    return [r for r, n in out], {n * chunk + k - 1: f for r, n in out for k, f in r.rejects.items()}

def judge(chk, what, exe, cmds, lines, rejects, count=lambda e, f: True, cmd_of=None):
    """Report the rejected events."""
    for n, f in sorted(rejects.items()):
        e = json.loads(lines[n])
        if not count(e, f):
            continue
        chk.violation("%s/%s" % (what, e.get("op") or e["k"]), "%s: %s not as specified: %s" % (what, ",".join(sorted(f)), lines[n][:600]),
                      {"event.json": lines[n] + "\n", "commands.txt": "\n".join(cmds[:20000]) + "\n", "driver.txt": exe + "\n"})

# ---- towers -------------------------------------------------------------------------------------------------------
def tower_consts(big):
    n = "Q" if big else "T"
    c = "CONSTANTS FAdd <- %sAdd FSub <- %sSub FMul <- %sMul FDec <- %sDecR FParse <- %sParse FrobL <- %sFrob Nr <- KNr\n" % ((n,) * 6)
    return c + ('CONSTANTS Q <- KQ FZero = "0" FOne = "1"\n' if big else "CONSTANTS P <- KP FZero = 0 FOne = 1\n")
def tower_defs(big, p, nr):
    return ('KQ == "%x"\nKNr == "%x"' % (p, nr % p)) if big else "KP == %d\nKNr == %d" % (p, nr % p)

def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [str(x)]

Q, R = PRIMES["bn128q"], PRIMES["bn128r"]
def toy_curve(p, a, b):
    sq = {y * y % p: y for y in range(p)}
    for x in range(p):
        v = (x ** 3 + a * x + b) % p
        if v in sq and (x, sq[v]) != (0, 0):
            gx, gy = x, sq[v]
            break
    return CurveCfg("p%da%db%d" % (p, a, b), "t", {"p": p, "nr": p - 1, "a": a % p, "b": b % p, "gx": gx, "gy": gy, "scales": list(range(1, p)), "zeros": [0, 1, 2], "mults": []})

def f2mul(x, y, nr, p): return ((x[0] * y[0] + nr * x[1] * y[1]) % p, (x[0] * y[1] + x[1] * y[0]) % p)
def toy_curve2(p, nr, a, b, scales=5):
    nr %= p
    E = [(x, y) for x in range(p) for y in range(p)]
    sq = {f2mul(y, y, nr, p): y for y in E}
    for x in E:
        v = f2mul(f2mul(x, x, nr, p), x, nr, p); ax = f2mul(a, x, nr, p)
        v = ((v[0] + ax[0] + b[0]) % p, (v[1] + ax[1] + b[1]) % p)
        if v in sq and (x, sq[v]) != ((0, 0), (0, 0)):
            gx, gy = x, sq[v]; break
    rng = random.Random("sc%d" % p)
    sc = [(1, 0)] + rng.sample([e for e in E if e not in ((0, 0), (1, 0))], scales)
    return CurveCfg("q%dn%da%d_%db%d_%d" % (p, nr, *a, *b), "t2", {"p": p, "nr": nr, "a": a, "b": b, "gx": gx, "gy": gy, "scales": sc, "zeros": [(0, 0), (1, 0), (1, 2)], "mults": []})

G2X = [10857046999023057135944570762232829481370756359578518086990519993285655852781, 11559732032986387107991004021392285783925812861821192530917403151452391805634]
G2Y = [8495653923123431417604973247489272438418190587263600148770280649306958101930, 4082367875863433681332203403145435568316851327593401208105741076214120093531]
G2B = [19485874751759354771024239261021720505790618469301721065564631296452457478373, 266929791119991161246907387137283842545076965332900288569378510910307636690]
def hx(x): return tuple(hx(y) for y in x) if isinstance(x, (list, tuple)) else "%x" % x
def bn_curve(kind, mults, scales):
    k = {"q": "%x" % Q, "mults": hx(mults)}
    if kind[1] == "1":
        k.update(a="0", b="3", gx="1", gy="2", scales=hx(scales), zeros=["0", "1", "7"])
    else:
        k.update(a=("0", "0"), b=hx(G2B), gx=hx(G2X), gy=hx(G2Y), scales=[hx((s, s * s % 1009 + j)) for j, s in enumerate(scales)], zeros=[("0", "0"), ("1", "0"), ("5", "7")])
    return CurveCfg("bn" + kind, kind, k)
