"""Shared machinery of the checks: builds the real code, runs TLC, judges rejections, writes evidence."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
CPP = os.path.join(VERIF, "harness", "cpp")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = min(8, os.cpu_count() or 4)

PRIMES = {
    "bn128q": 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    "bn128r": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    "goldilocks": 18446744069414584321,
    "secp256k1q": 115792089237316195423570985008687907853269984665640564039457584007908834671663,
    "secp256k1r": 115792089237316195423570985008687907852837564279074904382605163141518161494337,
    "bls12381q": 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787,
    "bls12381r": 52435875175126190479447740508185965837690552500527637822603658699938581184513,
    "mnt6753q": 41898490967918953402344214791240637128170709919953949071783502921025352812571106773058893763790338921418070971888253786114353726529584385201591605722013126468931404347949840543007986327743462853720628051692141265303114721689601,
    # around the no-carry condition of the Montgomery product (top limb 0x7ff..fe / 0x7ff..ff / 0x800..00)
}

class ToolError(Exception):
    pass

def sh(cmd, cwd=None, env=None, timeout=850, inp=None, ok=True, stdout=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, input=inp, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if ok and p.returncode != 0:
        raise ToolError("command failed (%d): %s\n%s\n%s" % (p.returncode, cmd if isinstance(cmd, str) else " ".join(map(str, cmd)),
                        (p.stdout or b"").decode(errors="replace")[-3000:], p.stderr.decode(errors="replace")[-3000:]))
    return p

def parmap(f, items, jobs=JOBS):
    items = list(items)
    if not items:
        return []
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        return list(ex.map(f, items))

# ------------------------------------------------------------------------------------------------- building
def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        fs = []
        if os.path.isdir(p):
            for d, ds, names in os.walk(p):
                ds[:] = [x for x in ds if x not in ("__pycache__",)]
                fs += [os.path.join(d, n) for n in names]
        else:
            fs = [p]
        for f in sorted(fs):
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:20]

def cached(key, make):
    """Directory build/<key>, made by make(dir) once and renamed into place when complete."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, key)
    if os.path.isdir(d):
        try: os.utime(d)
        except OSError: pass
        return d
    t = tempfile.mkdtemp(prefix=key + ".tmp.", dir=BUILD)
    try:
        make(t)
        try:
            os.rename(t, d)
        except OSError:
            if not os.path.isdir(d):
                raise
            shutil.rmtree(t, ignore_errors=True)
    except BaseException:
        shutil.rmtree(t, ignore_errors=True)
        raise
    prune()
    return d

def prune(keep=300):
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if ".tmp." not in x]
    if len(ds) > keep:
        for x in sorted(ds, key=lambda p: os.path.getmtime(p) if os.path.exists(p) else 0)[:len(ds) - keep]:
            shutil.rmtree(x, ignore_errors=True)

_h = {}
def thash(*paths):
    if paths not in _h:
        _h[paths] = tree_hash(paths)
    return _h[paths]

def java_classes():
    src = os.path.join(VERIF, "java")
    def make(d):
        sh(["javac", "-cp", TLAJAR, "-d", d] + [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".java")])
    return cached("java-" + thash(src), make)

def gen(prime, name):
    """Generate the field sources for prime with the repository's generator."""
    q = str(PRIMES.get(prime, prime))
    js = os.path.join(VERIF, "harness", "js")
    key = "gen-%s-%s-%s" % (name, hashlib.sha256(q.encode()).hexdigest()[:8], thash(os.path.join(REPO, "src"), js))
    def make(d):
        sh(["node", os.path.join(js, "gen.js"), REPO, q, name, d])
    return cached(key, make)

CXX = ["g++", "-w", "-std=c++17"]

def n64_of(q):
    return (q.bit_length() - 1) // 64 + 1

# ------------------------------------------------------------------------------------------------- TLC
class TlcResult:
    pass

UNDEFINED = re.compile(r"Error: (Overflow when computing|The error occurred when TLC was evaluating|Attempted to|TLC threw an unexpected exception|Evaluating)")
def whole(r, n):
    """Every recorded event has been looked at."""
    if r.distinct != n and not r.partial: raise ToolError("trace not fully explored: %d states for %d lines" % (r.distinct, n))

def tlc(module, cfg, env=None, workers=2, timeout=800, mem="2g", spec_dir=SPEC, check_ok=True, extra=(), defs=None):
    """Run TLC on spec/<module>.tla with the given configuration text; defs: text of definitions added in a root module on top."""
    jc = java_classes()
    w = tempfile.mkdtemp(prefix="vptlc.")
    try:
        cf = os.path.join(w, "M.cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        lib = []
        if defs is not None:
            with open(os.path.join(w, "MC.tla"), "w") as f:
                f.write("---- MODULE MC ----\nEXTENDS %s\n%s\n====\n" % (module, defs))
            lib, root, spec_dir = ["-DTLA-Library=" + spec_dir], "MC", w
        else:
            root = module
        e = dict(os.environ); e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + w] + lib + [
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigNumOverrides",
               "-cp", ":".join([jc, TLAJAR, COMM]), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(w, "md"), "-deadlock" if "-checkdeadlock" not in extra else "-cleanup",
               "-workers", str(workers), "-fp", "1", "-config", cf] + [x for x in extra if x != "-checkdeadlock"] + [root + ".tla"]
        p = subprocess.run(cmd, cwd=spec_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        r = TlcResult()
        r.out = p.stdout.decode(errors="replace")
        r.rc = p.returncode
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
        r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        r.rejects = {}
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*\{([^}]*)\}\s*>>', r.out):
            r.rejects[int(m.group(1))] = set(re.findall(r'"(\w+)"', m.group(2)))
        if r.out.count('"REJECT"') and not r.rejects:
            raise ToolError("unparsed REJECT output")
        r.ok = ("Model checking completed. No error has been found." in r.out or "Finished in" in r.out) and "Error:" not in r.out
        r.partial = False
        if check_ok and not r.ok and "Trace" in module and UNDEFINED.search(r.out):
            # the specification's step is not defined on a recorded event (a number out of all bounds, a part that is missing): the event is no step of it
            at = re.findall(r"^/\\ i = (\d+)|^i = (\d+)", r.out, re.M)
            if at:
                r.rejects[int(at[-1][0] or at[-1][1]) + 1] = {"undefined"}
                r.partial = r.ok = True
        if check_ok and not r.ok:
            raise ToolError("TLC failed on %s:\n%s" % (module, r.out[-6000:]))
        return r
    finally:
        shutil.rmtree(w, ignore_errors=True)

def lit(x):
    """Python value -> TLA+ text: integers, strings, booleans, lists/tuples as sequences, sets and frozensets as sets, dicts as records."""
    if isinstance(x, bool): return "TRUE" if x else "FALSE"
    if isinstance(x, int): return str(x) if x >= 0 else "(-%d)" % -x
    if isinstance(x, str): return '"%s"' % x
    if isinstance(x, (list, tuple)): return "<<" + ", ".join(map(lit, x)) + ">>"
    if isinstance(x, (set, frozenset)): return "{" + ", ".join(lit(y) for y in sorted(x, key=repr)) + "}"
    if isinstance(x, dict): return "[" + ", ".join("%s |-> %s" % (k, lit(v)) for k, v in x.items()) + "]" if x else "<<>>"
    raise ToolError("no TLA+ literal for %r" % (x,))

def tla_set(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"

# ------------------------------------------------------------------------------------------------- verdicts
def load_known():
    """known-findings.txt: 'finding: property=<id> key=<key> <text>'; 'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out

class Check:
    last = None
    def __init__(self, prop, level="model_checking"):
        Check.last = self
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viol, self.assumptions, self.known_hit = [], [], {}
        self.known = [(k, t) for (p, k, t) in load_known() if p == prop]
        self.rng = random.Random("%s/%d" % (prop, SEED))
        self.replays = os.path.join(VERIF, "replays", prop)
        shutil.rmtree(self.replays, ignore_errors=True)

    def states(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated

    def sample(self, s):
        if len(self.cov["samples"]) < 8:
            self.cov["samples"].append(s)

    def violation(self, key, desc, files=None):
        """key identifies the failing input/call site; a listed finding is reported as such, anything else is a violation."""
        for k, t in self.known:
            if key == k or (k.endswith("*") and key.startswith(k[:-1])):
                self.known_hit[k] = t
                return
        d = os.path.join(self.replays, "v%d" % len(self.viol))
        if len(self.viol) < 20:
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "violation.txt"), "w") as f:
                f.write("property %s\nkey %s\n%s\n" % (self.prop, key, desc))
            for n, c in (files or {}).items():
                with open(os.path.join(d, n), "w") as f:
                    f.write(c)
        self.viol.append((key, desc, d))

    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "wall_s": round(wall, 2), "violations": len(self.viol), "assumptions": self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, t in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        print("%s: %d states, %d transitions, %d traces in %.1fs, %d violations" % (self.prop, self.cov["states"], self.cov["transitions"],
              self.cov["traces_validated_against_impl"], wall, len(self.viol)))
        if self.viol:
            for key, desc, d in self.viol[:10]:
                print("  %s: %s" % (key, desc[:400].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s" % (self.prop, self.viol[0][2]))
            sys.exit(1)
        sys.exit(0)

def main(fn, prop):
    try:
        fn()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        if Check.last is not None and Check.last.viol: Check.last.finish()      # what was found before it went wrong stands
        print("ERROR property=%s: %s" % (prop, e))
        sys.exit(2)
