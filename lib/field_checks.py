"""C01-C08: the generated field library against spec/FrSpec.tla."""
from field import *
import vp

QUICK_PRIMES = ["bn128r", "goldilocks", "secp256k1q", "edge2lo", "edge2eq", "edge2hi", "bls12381q"]
MORE_PRIMES = ["bn128q", "secp256k1r", "bls12381r", "mnt6753q", "edge1", "full2", "full3", "tiny2"]
BE = ["asm", "gen"]

def thorough():
    return vp.TIER == "thorough"

def run_tasks(chk, tasks):
    """tasks: (prime, backend, commands, count); all run concurrently."""
    primes = sorted(set((t[0], t[1]) for t in tasks))
    parmap(lambda x: backend(*x), primes)
    errs = []
    def one(t):
        try:
            run_trace(chk, *t)
        except Exception as e:      # collect, so that violations found elsewhere are still reported
            errs.append(e)
    # split big command lists so that the pool stays busy
    small = []
    for prime, be, cmds, count in tasks:
        starts = [n for n, c in enumerate(cmds) if c == "S"] + [len(cmds)]
        lo = 0
        for s in starts:
            if s - lo >= CHUNK or s == len(cmds):
                if s > lo: small.append((prime, be, cmds[lo:s], count))
                lo = s
    small.sort(key=lambda t: -len(t[2]))
    parmap(one, small)
    if errs and not chk.viol:
        raise errs[0]

def grid_tasks(chk, layer, ops_by_prime, aliases, count, rnd=0, pair=False, bes=BE):
    plans = parmap(lambda p: plan_grid(p, layer, ops_by_prime[p][0], aliases, ops_by_prime[p][1]), list(ops_by_prime))
    tasks = []
    for p, items in zip(ops_by_prime, plans):
        cmds = [item_cmd(it, layer, pair) for it in items]
        for be in bes:
            rng = random.Random("%s/%d/%s/%s" % (chk.prop, SEED, p, be))
            extra = rnd_pairs(rng, p, ops_by_prime[p][0], rnd, aliases, pair) if rnd and layer == "tagged" else []
            tasks.append((p, be, with_sessions(cmds + extra), count))
    return tasks

VALUE = lambda e, f: bool(f & {"value", "crash"})

def tagged(prop, ops, extra_ops=(), sessions=(60, 40)):
    """Value-level check of a group of tagged operations: TLC grid, random operands and random programs."""
    chk = Check(prop)
    qp, mp = QUICK_PRIMES, MORE_PRIMES
    rich = thorough()
    allp = qp + mp
    grid = {p: (list(ops), rich) for p in (allp if thorough() else qp[:5])}
    tasks = grid_tasks(chk, "tagged", grid, ["none"], VALUE)
    for p in allp:
        for be in BE:
            rng = random.Random("%s/r/%d/%s/%s" % (prop, SEED, p, be))
            n = (30000 if thorough() else 1500) if p != "mnt6753q" else (6000 if thorough() else 600)
            cmds = with_sessions(rnd_pairs(rng, p, list(ops), n))
            if extra_ops or True:
                ns, ln = sessions
                cmds += rnd_sessions(rng, p, list(ops) * 2 + list(extra_ops) + ["copy", "toMontgomery", "toNormal", "neg"], ns * (20 if thorough() else 1), ln)
            tasks.append((p, be, cmds, lambda e, f, o=set(ops) | set(extra_ops): VALUE(e, f) and (e["k"] in ("crash",) or e.get("op", "str") in o)))
    run_tasks(chk, tasks)
    chk.assumptions = ["primes of at least 63 bits (two 32-bit short values are multiplied without reduction)",
                       "operands are well-formed elements; division, modulus and inverse by zero are undefined"]
    chk.finish()

def c01(): tagged("C01", ARITH)
def c04(): tagged("C04", BITS)
def c05(): tagged("C05", CMP)
def c06(): tagged("C06", NUM, ["str"])

def c02():
    """Every operation: result well formed, representation asked for, operands and surroundings intact; conversions keep the value."""
    chk = Check("C02")
    ops = CONV + ARITH + BITS + CMP + NUM
    conv = set(CONV) | {"copyn"}
    def count(e, f):
        return bool(f & {"form", "rep", "intact"}) or (bool(f & {"value", "crash"}) and (e.get("op") in conv or e["k"] == "copyn"))
    tasks = []
    primes = QUICK_PRIMES + MORE_PRIMES
    for p in primes:
        for be in BE:
            rng = random.Random("C02/%d/%s/%s" % (SEED, p, be))
            k = 20 if thorough() else 1
            cmds = with_sessions(rnd_pairs(rng, p, ops, 2500 * k))
            cmds += rnd_sessions(rng, p, ops + ["str", "copyn"] + CONV * 3, 60 * k, 40)
            tasks.append((p, be, cmds, count))
    tasks += grid_tasks(chk, "tagged", {p: (CONV, True) for p in primes}, ["none", "r=a"], count)
    tasks += grid_tasks(chk, "tagged", {p: (ARITH + BITS[:4] + CMP[:6], False) for p in (primes if thorough() else ["bn128r"])}, ["none"], count)
    run_tasks(chk, tasks)
    chk.assumptions = ["toNormal of a short Montgomery element may keep its tag: its short part already is the normal value",
                       "callee-saved registers are part of what a call must leave intact (System V ABI)"]
    chk.finish()

def c03():
    """The same call with and without aliasing."""
    chk = Check("C03")
    ops = ARITH + BITS + [o for o in CMP if o not in ("isTrue", "toInt")] + [o for o in NUM if o != "toStr"] + CONV
    al = ["r=a", "r=b", "a=b", "r=a=b"]
    tasks = []
    primes = QUICK_PRIMES + MORE_PRIMES
    cnt = lambda e, f: bool(f & {"value", "form", "crash", "intact"})
    full = primes if thorough() else ["bn128r"]
    tasks += grid_tasks(chk, "tagged", {p: ([o for o in ops if o not in ("shl", "shr", "pow", "div", "idiv", "mod")], False) for p in full}, al, cnt, pair=True)
    for p in primes:
        for be in BE:
            rng = random.Random("C03/%d/%s/%s" % (SEED, p, be))
            n = 50000 if thorough() else 6000
            if p == "mnt6753q": n //= 4
            tasks.append((p, be, with_sessions(rnd_pairs(rng, p, ops, n, al, pair=True)), cnt))
            # raw and class layers: aliased and separate call one after the other
            cmds = []
            for l, o in (("raw", rnd_raw(rng, p, [x for x in RAW if x not in ("rawIsZero",)] + (["rawNegLS", "rawAddLS", "rawSubLS", "rawSubSL", "rawAnd", "rawOr", "rawXor", "rawNot"] if be == "gen" else []), n // 6)),
                         ("class", rnd_class_alias(rng, p, n // 6))):
                for c in o:
                    f = c.split()
                    if f[2] == "0": continue
                    b = f[3] if f[2] in ("3", "4") and f[1] in TWO else f[4]
                    cmds += [c, " ".join([f[0], f[1], "0", f[3], b])]
            tasks.append((p, be, with_sessions(cmds, 40), "pairs"))
    tasks = [(p, be, c, pair_filter(chk) if f == "pairs" else f) for p, be, c, f in tasks]
    run_tasks(chk, tasks)
    chk.finish()

TWO = {"rawAdd", "rawSub", "rawMMul", "rawAnd", "rawOr", "rawXor", "rawIsEq", "rawSwap", "rawCmp", "add", "sub", "mul", "div", "swap", "eq"}

def rnd_class_alias(rng, prime, n):
    q = PRIMES[prime]
    out = []
    for _ in range(n):
        op = rng.choice(["add", "sub", "mul", "div", "neg", "square", "inv", "copy", "exp", "toMontgomery", "fromMontgomery", "mul1"])
        a, b = rnd_value(rng, q) or 1, rnd_value(rng, q) or 1
        al = rng.choice([1, 2, 3, 4]) if op in ("add", "sub", "mul", "div") else 1
        if al in (3, 4): b = a
        bs = "%x" % b
        if op == "exp": bs = "%04x" % rng.getrandbits(16)
        if op == "mul1": bs = "%x" % rng.getrandbits(64)
        out.append("C %s %d %x %s" % (op, al, a, bs))
    return out

def pair_filter(chk):
    """Aliased raw/class events count only when the same call with separate operands is right (otherwise it is not an aliasing fault)."""
    def count(e, f):
        if e["k"] == "crash": return True
        if e["al"] == 0: return False
        return bool(f & {"value", "crash", "intact"}) and not e["_next_bad"]
    return count

def montgomery_model(chk):
    """The word-by-word product and the no-carry rule, over small words: every modulus, every pair of operands."""
    def m(w, n, rule, cond, ok=True):
        r = tlc("MontAlg", "CONSTANTS W=%d N=%d Rule=%s Moduli <- KM\nSPECIFICATION MSpec\nINVARIANT Right\nINVARIANT Bounded\n" % (w, n, str(rule).upper()),
                defs="KM == {m \\in (2^%d)..(2^%d-1) : m %% 2 = 1 /\\ (%s)}" % (w * (n - 1), w * n, cond), check_ok=False, workers=2, timeout=3000)
        if r.ok != ok: raise ToolError("the model of the Montgomery product: W=%d N=%d Rule=%s %s\n%s" % (w, n, rule, cond, r.out[-2000:]))
        if ok: chk.states(r)
    J = [(2, 3, False, "TRUE"), (3, 2, True, "CanOptimize(m)"), (3, 2, False, "TRUE"), (2, 3, True, "Top(m) = 1"), (2, 3, True, "~CanOptimize(m)", False)]
    if thorough(): J += [(3, 3, True, "CanOptimize(m) /\\ m % 16 = 5"), (4, 2, True, "CanOptimize(m) /\\ m % 4 = 1"), (3, 3, False, "m % 64 = 11"), (2, 4, True, "Top(m) = 1 /\\ m % 8 = 3"), (1, 5, False, "TRUE")]
    parmap(lambda x: m(*x), J, 3)

def c07():
    chk = Check("C07")
    montgomery_model(chk)
    tasks = []
    primes = QUICK_PRIMES + MORE_PRIMES + ["small33"]
    cnt = lambda e, f: True
    tasks += grid_tasks(chk, "raw", {p: (RAW, True) for p in (primes if thorough() else ["bn128r", "goldilocks", "edge2lo", "edge2hi", "small33", "bls12381q"])}, ALL_AL if thorough() else ["none"], cnt)
    for p in primes:
        for be in BE:
            rng = random.Random("C07/%d/%s/%s" % (SEED, p, be))
            n = 60000 if thorough() else 5000
            if p == "mnt6753q": n //= 4
            ops = RAW + ["rawMMul"] * 6 + ["rawMSquare", "rawMMul1"] * 2
            cmds = rnd_raw(rng, p, ops, n, ALL_AL + ["none"] * 4)
            if be == "gen" and p != "small33": cmds += rnd_raw(rng, p, HELPERS, n // 3)
            cmds += one_word(rng, p, RAW + (HELPERS if be == "gen" and p != "small33" else []))
            tasks.append((p, be, with_sessions(cmds), cnt))
    for p in WIDE:
        for be in BE:
            rng = random.Random("C07w/%d/%s/%s" % (SEED, p, be))
            cmds = rnd_raw(rng, p, RAW + ["rawMMul"] * 6 + ["rawMSquare", "rawMMul1"] * 2, 20000 if thorough() else 1000, ALL_AL + ["none"] * 4)
            if be == "gen": cmds += rnd_raw(rng, p, HELPERS, 5000 if thorough() else 250)
            cmds += one_word(rng, p, RAW + (HELPERS if be == "gen" else []))
            tasks.append((p, be, with_sessions(cmds), cnt))
    run_tasks(chk, tasks)
    chk.assumptions = ["raw operands are below the prime; raw shift counts below the bit length"]
    chk.finish()

def c08():
    chk = Check("C08")
    primes = QUICK_PRIMES + MORE_PRIMES
    cnt = lambda e, f: True
    grid = primes if thorough() else ["bn128r", "goldilocks", "edge2hi", "bls12381q", "full3"]
    two = ["add", "sub", "mul", "div", "vadd", "vsub", "vmul", "eq", "swap"]
    tasks = grid_tasks(chk, "class", {p: ([o for o in CLASS if o not in two], thorough()) for p in grid}, ["none", "r=a"], cnt)
    tasks += grid_tasks(chk, "class", {p: (two, False) for p in grid}, ALL_AL if thorough() else ["none"], cnt)
    for p in primes:
        for be in BE:
            rng = random.Random("C08/%d/%s/%s" % (SEED, p, be))
            tasks.append((p, be, with_sessions(rnd_class(rng, p, 20000 if thorough() else 1500)), cnt))
    run_tasks(chk, tasks)
    chk.assumptions = ["fromMpz and fromRprBE receive values below the prime, text is a well-formed number in its radix"]
    chk.finish()

def rnd_class(rng, prime, n):
    q = PRIMES[prime]; n64 = n64_of(q); nb = 8 * n64
    out = []
    def text(v, r):
        d = "0123456789abcdefghijklmnopqrstuvwxyz"; s = ""
        neg, v = v < 0, abs(v)
        while True:
            s = d[v % r] + s; v //= r
            if v == 0: break
        return ("-" if neg else "") + s
    while len(out) < n:
        op = rng.choice(CLASS)
        a, b, al = "%x" % rnd_value(rng, q), "%x" % rnd_value(rng, q), 0
        if op in ("add", "sub", "mul", "div"):
            al = rng.choice([0, 0, 1, 2, 3, 4])
        elif op in ("eq", "swap"): al = rng.choice([0, 0, 3])
        elif op in ("neg", "square", "copy", "inv", "toMontgomery", "fromMontgomery", "mul1", "exp"): al = rng.choice([0, 1])
        if al in (3, 4): b = a
        if op == "eq" and rng.random() < .3: b = a
        if op == "div" and b == "0" or op == "inv" and a == "0": continue
        if op == "mul1": b = "%x" % rng.getrandbits(rng.choice([1, 32, 64]))
        if op in ("set", "set2"): a = str(rng.choice([rng.randrange(-2 ** 31, 2 ** 31), rng.randrange(-9, 9)]))
        if op in ("addi", "subi", "muli", "iadd", "isub", "imul"): b = str(rng.choice([rng.randrange(-2 ** 31, 2 ** 31), rng.randrange(-9, 9)]))
        if op == "fromUI": a = str(rng.getrandbits(rng.choice([3, 32, 63, 64])))
        if op == "fromString":
            r = rng.randrange(2, 37); v = rng.choice([rnd_value(rng, q), -rnd_value(rng, q), rng.getrandbits(64 * n64 + 99), -rng.getrandbits(64 * n64 + 9), q, -q])
            a, b = text(v, r), str(r)
        if op == "toString": b = str(rng.randrange(2, 37))
        if op == "toRprBE": b = str(rng.choice([nb, nb, nb - 1, nb + rng.randrange(20), rng.randrange(nb)]))
        if op == "fromRprBE": a = ("%%0%dx" % (2 * nb)) % rnd_value(rng, q) + "ab" * rng.choice([0, 0, 1, 5])
        if op == "exp": b = "".join("%02x" % rng.choice([0, 255, 1, 128, rng.getrandbits(8)]) for _ in range(rng.choice([1, 2, 4, 8, nb, nb + 3]))) 
        out.append("C %s %d %s %s" % (op, al, a or "_", b or "_"))
    return out

CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08}
