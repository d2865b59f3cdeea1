"""C10-C14, C17: curves, recoding, multi-scalar multiplication, transforms, towers."""
from group import *
import vp

def thorough():
    return vp.TIER == "thorough"

def spread(tasks, chk):
    """Run the tasks side by side; errors surface unless a violation was found."""
    errs = []
    def one(t):
        try: t()
        except Exception as e: errs.append(e)
    parmap(one, tasks, 6)
    if errs and not chk.viol:
        raise errs[0]

def crash_line(lines, rc, err):
    """A driver that ended early leaves its own event."""
    if rc != 0:
        lines.append(json.dumps({"k": "crash", "sig": rc, "op": "driver", "t": err[-200:]}))
    return lines

# ---- C17 ----------------------------------------------------------------------------------------------------------
def els(level, rng, p, special):
    """A random element of a level, as nested lists."""
    if level == 1:
        return rng.choice(special) if rng.random() < 0.35 else rng.randrange(p)
    n, b = {2: (2, 1), 6: (3, 2), 12: (2, 6)}[level]
    if rng.random() < 0.12:
        return [els0(b) if rng.random() < 0.6 else els(b, rng, p, special) for _ in range(n)]
    return [els(b, rng, p, special) for _ in range(n)]
def els0(level):
    if level == 1: return 0
    n, b = {2: (2, 1), 6: (3, 2), 12: (2, 6)}[level]
    return [els0(b) for _ in range(n)]
def fl(x, hexa):
    return " ".join(("%x" % int(v)) if hexa else v for v in flat(x))
def oper(level, op, al, as_, bs=None, hexa=False):
    s = "%d %s %d %d %s" % (level, op, al, len(as_), " ".join(fl(a, hexa) for a in as_))
    if bs is not None:
        s += " %d %s" % (len(bs), " ".join(fl(b, hexa) if not isinstance(b, str) else b for b in bs))
    return s
def texts(level, rng, p, n, big):
    """Texts of elements with their pieces: white space, missing outer parentheses, unreduced numbers."""
    out = []
    def render(l, x, ws):
        sp = lambda: rng.choice(["", "", " ", "  ", "\t"]) if ws else ""
        if l == 1: return sp() + x + sp()
        b = {2: 1, 6: 2, 12: 6}[l]
        return sp() + "(" + ",".join(render(b, y, ws) for y in x) + ")" + sp()
    def pieces(l):
        if l == 1:
            v = rng.choice([0, 1, p - 1, p, p + 1, 2 * p + 3, rng.randrange(p), rng.randrange(p), rng.randrange(p), rng.randrange(p * p)])
            return str(-v) if v and rng.random() < 0.2 else str(v)
        m, b = {2: (2, 1), 6: (3, 2), 12: (2, 6)}[l]
        return [pieces(b) for _ in range(m)]
    for _ in range(n):
        x = pieces(level); t = render(level, x, rng.random() < 0.5)
        if rng.random() < 0.4: t = t.strip()[1:-1]
        out.append("%s %s" % (t.encode().hex(), json.dumps(x, separators=(",", ":"))))
    return out

UN = {2: ["neg", "square", "inv", "copy", "conj", "mulXi", "dbl"], 6: ["neg", "square", "inv", "copy", "mulTau", "dbl"], 12: ["neg", "square", "inv", "copy", "conj"]}
BIN = ["add", "sub", "mul", "div", "eq"]

def nonzero(bs): return [b for b in bs if any(v != "0" for v in flat(b))]

def tower_cmds(pre, level, rng, p, na, nb, hexa, full=None, frob=False, nr=-1):
    nr %= p
    def nonzero(bs):        # what has an inverse
        if level == 2 and isinstance(bs and bs[0] and bs[0][0], int): return [b for b in bs if (b[0] * b[0] - nr * b[1] * b[1]) % p]
        return [b for b in bs if any(v != "0" for v in flat(b))]
    sp = [0, 1, p - 1, (p + 1) // 2, 2 % p, (p - 1) // 2] + ([1 << 64, (1 << 128) - 1, p - (1 << 64)] if hexa else [])
    pool = full or [els(level, rng, p, sp) for _ in range(na)]
    pool2 = full or [els(level, rng, p, sp) for _ in range(nb)]
    if not full:
        one = els0(level); x = one
        while isinstance(x[0], list): x = x[-1] if level != 2 else x[0]
        x[0] = 1
        pool = [els0(level), one] + pool
        pool2 = [els0(level), one] + pool2 + [pool[2]]
    cmds = []
    c = lambda *a: cmds.append(pre + " " + oper(*a, hexa=hexa))
    for op in BIN:
        for al in range(5):
            if op == "eq" and al in (1, 2, 4): continue
            xs, ys = pool, pool2
            if al >= 3: ys = pool[:1]
            if op == "div":
                ys = nonzero(ys) or nonzero(pool)[:1]
                if al >= 3: xs = nonzero(xs)
            elif al in (1, 2, 4) and not full: xs = pool[:max(4, len(pool) // 2)]
            c(level, op, al, xs, ys)
    for op in UN[level] + (["frob", "frob2"] if frob and level != 2 else []):
        if op == "mulXi" and nr != p - 1: continue      # Xi = 9 + u is used with u^2 = -1 only
        for al in (0, 1):
            c(level, op, al, nonzero(pool) if op == "inv" else pool)
    for op in ("isz", "iso"): c(level, op, 0, pool)
    low = {2: 1, 6: 2, 12: 6}[level]
    for al in (0, 1):
        c(level, "muls", al, pool[:40], [els(low, rng, p, sp) for _ in range(8)] + [els0(low)])
        if level == 6: c(level, "mulg", al, pool[:40], [els(1, rng, p, sp) for _ in range(8)] + [0])
    c(level, "str", 0, pool[:60])
    tx = texts(level, rng, p, 30, hexa)
    cmds.append("%s %d parse 0 0 %d %s" % (pre, level, len(tx), " ".join(tx)))
    if level == 12:
        ex = ["-", "00", "01", "02", "ff", "0001", "%02x%02x" % (rng.randrange(256), rng.randrange(256)), "000000000000000080", bytes(rng.randrange(256) for _ in range(9)).hex()]
        if hexa: ex.append(bytes(rng.randrange(256) for _ in range(33)).hex())
        if not hexa:        # longer than the counts of a loop might hold
            for n in (32, 255, 256, 300) if p < 8 or thorough() else (): c(level, "exp", 0, pool[2:3], [bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(n)).hex()])
        for al in (0, 1):
            if hexa:
                c(level, "exp", al, pool[1:3] + pool[-1:], ex[:8]); c(level, "exp", al, pool[-1:], ex[8:])
            else: c(level, "exp", al, pool[:8], ex)
    return cmds

def c17():
    chk = Check("C17")
    k = 8 if thorough() else 1
    drivers = parmap(lambda x: driver(x), ["toy", "real-asm", "real-c"])
    tasks = []
    def job(what, exe, head, cmds, big, p, nr):
        t0 = time.time()
        lines, rc, err = drive(exe, head + cmds)
        crash_line(lines, rc, err)
        res, rej = run_trace_module("TowerTraceBig" if big else "TowerTraceToy", tower_consts(big), tower_defs(big, p, nr), lines, chunk=300 if big else 1500, jobs=2)
        if os.environ.get("VP_TIME"): print("%6.1f s, %d lines, %s" % (time.time() - t0, len(lines), what))
        for r in res: chk.states(r)
        chk.cov["traces_validated_against_impl"] += len(lines)
        chk.sample("%s: %s" % (what, lines[len(lines) // 2][:160]))
        judge(chk, what, exe, head + cmds, lines, rej)
    toy = [(3, [2, 1]), (5, [2, 3, 0, 4]), (7, [3, 5, 6, 0, 1, 2]), (11, [2, 10, 1]), (13, [2, 5, 0, 12])] if not thorough() else [(3, [2, 0, 1]), (5, [2, 3, 0, 1, 4]), (7, range(7)), (11, range(11)), (13, range(13)), (17, [3, 5, 16, 0, 1]), (19, [2, 18, 0, 1, 4])]
    for p, nrs in toy:
        for nr in nrs:
            rng = random.Random("C17/%d/%d/%d" % (SEED, p, nr))
            full = [[x, y] for x in range(p) for y in range(p)] if p <= (13 if thorough() else 7) else None
            tasks.append(lambda p=p, nr=nr, rng=rng, full=full: job("F2 over %d, u^2 = %d" % (p, nr), drivers[0], ["tw %d %d" % (p, nr)], ["tt 0 2"] + tower_cmds("tt", 2, rng, p, 40, 40, False, full, nr=nr), False, p, nr))
    for p in (7, 11, 19):
        for level in (6, 12):
            rng = random.Random("C17/%d/%d/%d" % (SEED, p, level))
            tasks.append(lambda p=p, level=level, rng=rng: job("F%d over %d" % (level, p), drivers[0], ["tw %d %d" % (p, -1)], ["tt 0 6"] + tower_cmds("tt", level, rng, p, 30 * k, 20, False), False, p, p - 1))
    rngl = random.Random("C17/%d/long" % SEED)
    def long(): job("F12 over 7, one long power", drivers[0], ["tw 7 -1"], ["tt 0 6", "tt " + oper(12, "exp", 1, [els(12, rngl, 7, [1, 2, 6])], ["01" + "00" * 4098 + "9d"], hexa=False)], False, 7, 6)
    for bi, be in ((1, "asm"), (2, "c")):
        rng = random.Random("C17/%d/%s" % (SEED, be))
        for eng in (0, 1):
            if eng and bi == 2: continue
            for level, na, nb in ((2, 25, 15), (6, 12, 6), (12, 7, 4)):
                tasks.append(lambda exe=drivers[bi], eng=eng, level=level, rng=random.Random(rng.random()), na=na * k, nb=nb: job("bn128 %s F%d%s" % (be, level, " of the engine" if eng else ""), exe, ["bf %d" % eng], ["bt 0 %d" % (2 if level == 2 else 6)] + tower_cmds("bt", level, rng, Q, na, nb, True, frob=True), True, Q, Q - 1))
        for nr in [5, Q - 2, pow(7, 12345, Q), 0, 1]:
            while nr > 1 and pow(nr, (Q - 1) // 2, Q) == 1: nr += 1
            tasks.append(lambda exe=drivers[bi], nr=nr, rng=random.Random(rng.random()): job("bn128 %s F2, u^2 = %d" % (be, nr), exe, ["bf 0", "bn %d" % nr], ["bt 0 2"] + tower_cmds("bt", 2, rng, Q, 20 * k, 12, True, nr=nr), True, Q, nr))
    def probe():
        chk.states(run_tlc("TowerProbe", tower_consts(True) + "INIT Init\nNEXT Next\n", {"TRACE": ['{"k":"crash"}']}, defs=tower_defs(True, Q, Q - 1), workers=1))
    spread([long, probe] + tasks[::-1], chk)
    chk.assumptions = ["division and inversion by elements that are not invertible are undefined", "the sextic and dodecic levels are built on the non-residue -1, as the code fixes it",
                       "a scalar operand does not alias a coefficient of the result"]
    chk.finish()

# ---- C10, C11: curves and scalar multiplication ---------------------------------------------------------------------
FORMS2 = ["PPP", "PPA", "PAA", "PAP", "APP", "APA", "AAA", "AAP"]
def aliases(form):
    r, a, b = form
    return [0] + [1] * (r == a) + [2] * (r == b) + [3] * (a == b) + [4] * (r == a == b)
def grid_cmds(pre):
    out = ["%s consts" % pre]
    for op in ("add", "sub"):
        for form in FORMS2:
            for al in aliases(form): out.append("%s grid %s %s %d" % (pre, op, form, al))
    for op in ("dbl", "neg", "copy"):
        for form in ("PP", "PA", "AP", "AA"):
            for al in [0] + [1] * (form[0] == form[1]): out.append("%s grid %s %s %d" % (pre, op, form, al))
    for form in ("PP", "PA", "AP", "AA"): out.append("%s grid eq %s 0" % (pre, form))
    return out + ["%s grid isz P 0" % pre, "%s grid isz A 0" % pre]
def tables(pre, pl):
    return ["%s tabP %d %s" % (pre, len(pl["ext"]), " ".join(flat(pl["ext"]))), "%s tabA %d %s" % (pre, len(pl["aff"]), " ".join(flat(pl["aff"])))]

def curve_list(rng, full):
    """Curves of every type of coefficient a (0, 1, -1, other), with and without points of order two."""
    out = []
    for p in (5, 7, 11, 13) if full else (5, 7, 11):
        for a in {0, 1, p - 1, rng.randrange(2, p - 1)}:
            seen = set()
            bs = list(range(1, p)); rng.shuffle(bs)
            for b in bs:
                if (4 * a ** 3 + 27 * b * b) % p == 0: continue
                two = any((x ** 3 + a * x + b) % p == 0 for x in range(p))
                if two in seen: continue
                seen.add(two)
                c = toy_curve(p, a, b)
                c.k["scales"] = list(range(1, p)) if p == 5 else sorted({1, 2, p - 1, rng.randrange(3, p - 1)})
                c.k["zeros"] = [0, 1, 3]
                out.append(c)
    return out
def curve2_list(rng, full):
    out = []
    for p, nr in ((5, 2), (7, 6)) if not full else ((5, 2), (5, 3), (7, 6), (7, 3)):
        for a in ((0, 0), (1, 0), (p - 1, 0), (2, 3)):
            while True:
                b = (rng.randrange(p), rng.randrange(1, p))
                a3 = f2mul(a, f2mul(a, a, nr, p), nr, p); b2 = f2mul(b, b, nr, p)
                if any((4 * x + 27 * y) % p for x, y in zip(a3, b2)): break
            c = toy_curve2(p, nr, a, b, 2)
            out.append(c)
    return out

def walk_cmds(pre, rng, order, hexa, pl, sessions, length, muls, heavy):
    """Random programs over registers of both forms; scalars of many shapes."""
    P, A = ["P%d" % i for i in range(8)], ["A%d" % i for i in range(4)]
    def scal():
        k = rng.randrange(10)
        if k == 0: v, n = order + rng.randrange(-2, 3), (order.bit_length() + 7) // 8 + rng.randrange(3)
        elif k == 1: v, n = 0, rng.randrange(1, 6)
        elif k == 2: n = rng.choice([1, 2, 8, 9, 32, 33]) if heavy else rng.randrange(1, 10); v = (1 << (8 * n)) - 1
        elif k == 3: n = rng.choice([1, 4, 8, 16]); v = 1 << (8 * n - 1)
        elif k == 4: n = rng.randrange(1, 12); v = int("".join(rng.choice("ab5") for _ in range(2 * n)), 16)
        else: n = rng.randrange(1, 34 if heavy else 12); v = rng.getrandbits(8 * n)
        return (v % (1 << (8 * n))).to_bytes(n, "little").hex()
    out = []
    for _ in range(sessions):
        out.append(pre + " new")
        for r in rng.sample(P, 4): out.append("%s w set %s %s" % (pre, r, " ".join(flat(rng.choice(pl["ext"])))))
        for r in rng.sample(A, 3): out.append("%s w set %s %s" % (pre, r, " ".join(flat(rng.choice(pl["aff"])))))
        for _ in range(length):
            k = rng.random()
            anyr = lambda: rng.choice(P + A)
            if k < muls: out.append("%s w mul %s %s P0 %s" % (pre, rng.choice(P), anyr(), scal()))
            elif k < muls + 0.45 * (1 - muls): out.append("%s w %s %s %s %s" % (pre, rng.choice(["add", "sub"]), anyr(), anyr(), anyr()))
            elif k < muls + 0.75 * (1 - muls): out.append("%s w %s %s %s P0" % (pre, rng.choice(["dbl", "neg", "copy", "neg"]), anyr(), anyr()))
            elif k < muls + 0.9 * (1 - muls): out.append("%s w eq P0 %s %s" % (pre, anyr(), anyr()))
            elif k < muls + 0.95 * (1 - muls): out.append("%s w isz P0 %s P0" % (pre, anyr()))
            else: out.append("%s w str P0 %s P0 %d" % (pre, rng.choice(P), rng.choice([10, 10, 2, 16, 36, rng.randrange(2, 37)])))
    return out

def curve_run(chk, what, exe, curve, pre, cmds, order, count, threads=4, jobs=2, chunk=1500):
    head = curve.header()
    lines, rc, err = drive(exe, head + cmds, threads)
    crash_line(lines, rc, err)
    # sessions start at "new"; table events stand alone
    pieces, cur = [], []
    for l in lines:
        if len(cur) >= chunk and (l.startswith('{"k":"new"') or '"bs":[' in l):
            pieces.append(cur); cur = []
        cur.append(l)
    if cur: pieces.append(cur)
    def one(ls):
        ls = ['{"k":"new"}'] + ls
        r = curve.validate(ls, order)
        return r, ls
    for r, ls in parmap(one, pieces, jobs):
        chk.states(r)
        chk.cov["traces_validated_against_impl"] += len(ls)
        judge(chk, what, exe, head + cmds, ls, {n - 1: f for n, f in r.rejects.items()}, count)
    chk.sample("%s: %s" % (what, lines[len(lines) // 2][:160]))

BN_MULTS = [0, 1, 2, 3, 4, R - 1, R - 2, 12345678901234567890123]
def c11():
    chk = Check("C11")
    drv = dict(zip(("toy", "asm", "c"), parmap(lambda x: driver(x), ["toy", "real-asm", "real-c"])))
    rng = random.Random("C11/%d" % SEED)
    count = lambda e, f: True
    tasks = []
    full = thorough()
    for c in curve_list(rng, full) + curve2_list(rng, full):
        def job(c=c, rng=random.Random(rng.random())):
            pl = c.plan(); pre = c.kind
            if c.kind == "t2" or len(pl["ext"]) > 70:     # the whole table against a part of it, in both orders
                ext = pl["ext"]
                part = dict(pl, ext=[e for e in ext if flat(e)[len(flat(e)) // 2:] == ["0"] * (len(flat(e)) // 2)][:5] + rng.sample(ext, min(len(ext), 400 if full else 55)), aff=rng.sample(pl["aff"], min(len(pl["aff"]), 60 if full else 25)))
                zero = [a for a in pl["aff"] if set(flat(a)) == {"0"}]
                part["aff"] += zero
            else: part = pl
            cmds = tables(pre, part) + grid_cmds(pre) + walk_cmds(pre, rng, pl["n"], False, pl, 10 * (10 if full else 1), 40, 0.05, False)
            curve_run(chk, "curve %s" % c.name, drv["toy"], c, pre, cmds, "%x" % pl["n"], count)
        tasks.append(job)
    for be in ("asm", "c"):
        for pre in ("b1", "b2", "e1", "e2"):
            if be == "c" and pre[0] == "e": continue
            def job(be=be, pre=pre, rng=random.Random(rng.random())):
                g = pre[1]
                c = bn_curve("b" + g, (BN_MULTS if full else BN_MULTS[:6]) if g == "1" else BN_MULTS[:6] if full else [0, 1, 2, R - 1], [1, 2, R - 5] if g == "1" else [1, R - 5])
                pl = c.plan()
                cmds = (tables(pre, pl) + grid_cmds(pre) if pre[0] == "b" or full else [pre + " consts"]) + walk_cmds(pre, rng, R, True, pl, (6 if g == "1" else 3) * (10 if full else 1), 40, 0.03, True)
                curve_run(chk, "bn128 %s %s" % (pre, be), drv[be], c, pre, cmds, "%x" % R, count, chunk=300)
            tasks.append(job)
    spread(tasks[::-1], chk)
    chk.assumptions = ["curves are non-singular with b # 0, so that (0,0) is free to denote the point at infinity in affine form", "operands are points of the curve"]
    chk.finish()

def z_run(chk, what, exe, cmds, threads=4, chunk=6000, count=lambda e, f: True, jobs=2):
    lines, rc, err = drive(exe, cmds, threads)
    crash_line(lines, rc, err)
    res, rej = run_trace_module("ZTrace", "", "", lines, chunk=chunk, jobs=jobs)
    for r in res: chk.states(r)
    chk.cov["traces_validated_against_impl"] += len(lines)
    chk.sample("%s: %s" % (what, lines[len(lines) // 2][:160]))
    judge(chk, what, exe, ["# VP_NT=%d" % threads] + cmds, lines, rej, count)

def model(chk, module, consts, invs, defs=None):
    r = tlc(module, "".join("CONSTANT %s = %s\n" % kv for kv in consts.items()) + "INIT Init\nNEXT Next\n" + "".join("INVARIANT %s\n" % i for i in invs), workers=2, defs=defs)
    chk.states(r)
    return r

def algorithm(chk, module, consts, invs, ok=True):
    """A model of an algorithm; ok = False: a wrong variant that must be told apart."""
    r = tlc(module, "CONSTANTS %s\nINIT Init\nNEXT Next\n" % consts + "".join("INVARIANT %s\n" % i for i in invs), check_ok=False, workers=2, timeout=3000)
    if r.ok != ok: raise ToolError("%s with %s: %s\n%s" % (module, consts, "fails" if ok else "the wrong variant passes", r.out[-2000:]))
    if ok: chk.states(r)

def scalar_shapes(rng, n, count):
    """Hex of n-byte scalars whose digits stress recoding: runs of ones, alternations, windows at and around one half."""
    out, bits = [], 8 * n
    top = (1 << bits) - 1
    for _ in range(count):
        k = rng.randrange(9)
        if k == 0: v = top >> rng.randrange(bits)
        elif k == 1: v = (top << rng.randrange(bits)) & top
        elif k == 2: v = (1 << rng.randrange(bits)) + rng.choice([-1, 0, 1])
        elif k == 3: v = int("".join(rng.choice(["01", "11", "10", "0", "1", "0111", "1011", "10000000", "11111111"]) for _ in range(bits)), 2)
        elif k == 4:
            w = rng.randrange(2, 17); v = 0
            for j in range(0, bits, w): v |= rng.choice([0, 1, (1 << (w - 1)) - 1, 1 << (w - 1), (1 << (w - 1)) + 1, (1 << w) - 1]) << j
        elif k == 5: v = rng.getrandbits(rng.randrange(1, bits + 1))
        elif k == 6: v = top - rng.getrandbits(rng.randrange(1, bits + 1))
        else: v = rng.getrandbits(bits)
        out.append((v & top).to_bytes(n, "little").hex())
    return out

def c10():
    chk = Check("C10")
    full = thorough()
    drv = dict(zip(("toy", "asm", "c"), parmap(lambda x: driver(x), ["toy", "real-asm", "real-c"])))
    tasks = [lambda: model(chk, "Naf", {"W": 12 if full else 9}, ["PrefixExact", "Sparse", "Ends"])]
    rng = random.Random("C10/%d" % SEED)
    tasks.append(lambda: z_run(chk, "recoding, one byte", drv["toy"], ["nafall 1 0 256"]))
    for a in range(0, 65536, 8192): tasks.append(lambda a=a: z_run(chk, "recoding, two bytes", drv["toy"], ["nafall 2 %d %d" % (a, a + 8192)], chunk=9000))
    for a in range(4 if not full else 60):
        def job(rng=random.Random(rng.random())):
            cm = []
            for lo in rng.sample(range(256), 12):      # every middle byte below and above every kind of neighbour
                for hi in (0, 1, 0x80, 0xff, rng.randrange(256)):
                    b = rng.sample(range(256), 40)
                    cm += ["naf %02x%02x%02x" % (lo, m, hi) for m in b]
            for n in list(range(3, 41)) + [48, 64, 96, 128, 200]: cm += ["naf " + h for h in scalar_shapes(rng, n, 40 if n <= 40 else 8)]
            z_run(chk, "recoding", drv["toy"], cm, chunk=5000)
        tasks.append(job)
    def long(rng=random.Random(rng.random())):     # lengths around those that fit narrower numbers, also counted in bits
        cm = []
        for n in (254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025): cm += ["naf " + h for h in scalar_shapes(rng, n, 3)] + ["nm %d %x %s" % (al, rng.getrandbits(60), h) for al in (0, 1, 2) for h in scalar_shapes(rng, n, 2)]
        for n in (4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 9000) + ((32767, 32768, 32769, 65535, 65536, 65540) if full else ()): cm += ["nm %d %x %s" % (rng.randrange(3), rng.getrandbits(60), h) for h in scalar_shapes(rng, n, 2)]
        z_run(chk, "long scalars", drv["toy"], cm, chunk=60)
    tasks.append(long)
    def mulz(rng=random.Random(rng.random())):
        cm = ["nm %d %x %02x" % (al, b, v) for al in (0, 1, 2) for b in (0, 1, 2, (1 << 61) - 2, rng.getrandbits(60)) for v in range(256)]
        for n in list(range(1, 41)) + [64, 100]: cm += ["nm %d %x %s" % (rng.randrange(3), rng.choice([1, rng.getrandbits(61) % ((1 << 61) - 1)]), h) for h in scalar_shapes(rng, n, 60 if not full else 1500)]
        z_run(chk, "multiplication in Z/(2^61-1)", drv["toy"], cm)
    tasks.append(mulz)
    count = lambda e, f: e["k"] in ("mul", "crash")
    for c in [c for c in curve_list(rng, True) if c.k["p"] in (5, 11)][::2] + curve2_list(rng, False)[:2]:
        def job(c=c, rng=random.Random(rng.random())):
            pl = c.plan()
            cmds = walk_cmds(c.kind, rng, pl["n"], False, pl, 20 * (10 if full else 1), 40, 0.6, False)
            curve_run(chk, "curve %s" % c.name, drv["toy"], c, c.kind, cmds, "%x" % pl["n"], count)
        tasks.append(job)
    for be in ("asm", "c"):
        for pre in ("b1", "b2", "e1", "e2"):
            if be == "c" and pre[0] == "e": continue
            def job(be=be, pre=pre, rng=random.Random(rng.random())):
                g = pre[1]
                c = bn_curve("b" + g, [0, 1, 2, R - 1], [1, 2] if g == "1" else [1, R - 5])
                pl = c.plan()
                cmds = walk_cmds(pre, rng, R, True, pl, (8 if g == "1" else 4) * (10 if full else 1), 20, 0.6, True)
                curve_run(chk, "bn128 %s %s" % (pre, be), drv[be], c, pre, cmds, "%x" % R, count, chunk=60)
            tasks.append(job)
    spread(tasks[::-1], chk)
    chk.assumptions = ["scalars have at least one byte"]
    chk.finish()

# ---- C12, C13 -----------------------------------------------------------------------------------------------------
M61 = (1 << 61) - 1
def window_scalar(rng, ss, k):
    """Scalars whose windows of k bits sit at the edges: zero, one half and its neighbours, all ones, with long carry chains."""
    bits, v = 8 * ss, 0
    style = rng.randrange(6)
    if style == 0: return rng.getrandbits(bits)
    if style == 1: return (1 << bits) - 1 - (rng.getrandbits(bits) & rng.getrandbits(bits) & rng.getrandbits(bits) if rng.random() < .5 else 0)
    if style == 2: return rng.choice([0, 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, (1 << bits) - 2, 1 << rng.randrange(bits)])
    h = 1 << (k - 1)
    for j in range(0, bits, k):
        v |= rng.choice([0, 1, h - 1, h, h + 1, 2 * h - 1, 2 * h - 1, h - 1][: 8 if style < 5 else 5]) << j
    return v & ((1 << bits) - 1)

def z_bases(rng, n):
    style = rng.randrange(5)
    if style == 0: return [rng.randrange(M61) for _ in range(n)]
    if style == 1: b = rng.randrange(1, M61); return [rng.choice([0, b, M61 - b]) for _ in range(n)]
    if style == 2: return [rng.choice([0, 1, M61 - 1]) for _ in range(n)]
    if style == 3: return [rng.randrange(M61)] * n
    return [0 if rng.random() < .3 else rng.randrange(M61) for _ in range(n)]

def zsum(kind, rng, nt, ss, n, k=None, x=None):
    t = ["%x %s" % (b, window_scalar(rng, ss, k or rng.randrange(2, 17)).to_bytes(ss, "little").hex()) for b in z_bases(rng, n)]
    return "zsum %s %d %d %d %s" % (kind, nt, ss, n, " ".join(t)) + ("" if x is None else " %d %s" % (len(x), " ".join(map(str, x))))

NS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 24, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129]
SS = list(range(1, 18)) + [20, 23, 24, 25, 31, 32, 33, 40, 48, 63, 64, 65]

def sections(rng, n):
    nx = rng.choice([1, 1, 2, 3, 4, 5, 7, n or 1, n + 3])
    rows = (n + nx - 1) // nx
    x = [rng.choice([0, 1, rows, max(0, rows - 1), rows + 1, rng.randrange(rows + 2), rng.randrange(rows + 2)]) for _ in range(nx)]
    if rng.random() < .15: x = [0] * nx
    if rng.random() < .2: x[rng.randrange(nx)] = rng.choice([1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, (1 << 64) - 1])
    return x

def point_cmds(kind, pre, rng, na, threads, n, ss, hexa=True):
    bs = [rng.randrange(na) for _ in range(n)] if rng.random() < .8 else [rng.randrange(na)] * n
    sc = [window_scalar(rng, ss, rng.randrange(2, 9)).to_bytes(ss, "little").hex() for _ in range(n)]
    s = "%s %s %d %d %d %s" % (pre, kind, threads, ss, n, " ".join(str(b) for b in bs) + " " + " ".join(sc))
    if kind == "sec":
        x = sections(rng, n); s += " %d %s" % (len(x), " ".join(map(str, x)))
    return s

def tab_affine(pre, pl):
    return ["%s tabA %d %s" % (pre, len(pl["aff"]), " ".join(" ".join(flat(a)) for a in pl["aff"]))]

def sums(chk, kinds, tasks, rng, full, msm):
    """Tasks shared by C12 (msm) and C13 (mex, sec) over the integers, small curves and the real curve."""
    mul = 8 if full else 1
    nts = (1, 2, 3, 4, 5, 7, 8, 16) if not full else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 31)
    drv = driver("z")
    drvn = None if msm else driver("z", name="znoomp", omp=False)
    for nt in nts:
        def job(nt=nt, rng=random.Random(rng.random())):
            cm = []
            arg = lambda: 0 if msm else rng.choice([nt, nt, nt, 0])
            for kind in kinds:
                for n in NS:
                    for ss in rng.sample(SS, (3 if msm else 2) * mul if not full else len(SS)):
                        cm.append(zsum(kind, rng, arg(), ss, n, x=sections(rng, n) if kind == "sec" else None))
                for n in (200, 256, 330, 600) if not full else (200, 256, 330, 600, 900, 1000, 1800, 3000, 5000, 12000):
                    ss = rng.choice(SS); cm.append(zsum(kind, rng, arg(), ss, n, x=sections(rng, n) if kind == "sec" else None))
            rng.shuffle(cm)
            z_run(chk, "sums of integers, %d threads" % nt, drv, cm, threads=nt, chunk=700 if full else 10000, jobs=1)
        tasks.append(job)
    if not msm:
        def job(rng=random.Random(rng.random())):
            cm = []
            for kind in kinds:
                for n in NS: cm.append(zsum(kind, rng, rng.choice([0, 1, 4]), rng.choice(SS), n, x=sections(rng, n) if kind == "sec" else None))
            z_run(chk, "sums of integers, built without OpenMP", drvn, cm, jobs=1)
        tasks.append(job)
    # many terms: counters, indices and windows that only grow with the length
    for kind in kinds:
        for n, ss, nt in ((4099, 3, 4), (8200, 1, 7), (70001, 2, 3)) if not full else ((4099, 3, 4), (8200, 9, 7), (70001, 2, 3), (140000, 1, 16), (300001, 1, 5)):
            def job(kind=kind, n=n, ss=ss, nt=nt, rng=random.Random(rng.random())):
                z_run(chk, "sums of %d integers, %d threads" % (n, nt), drv, [zsum(kind, rng, 0 if msm else nt, ss, n, x=[n // 5 + 1, n // 7, n // 5 + 3, n // 5 + 1, n // 6] if kind == "sec" else None)], threads=nt, jobs=1)
            tasks.append(job)
    def job(rng=random.Random(rng.random())):      # exhaustive: every one-byte scalar, alone and beside another
        cm = []
        for kind in kinds:
            for v in range(256):
                for n in (1, 2, 3):
                    sc = [(v * (j * j + 1) + 77 * j) & 255 for j in range(n)]
                    cm.append("zsum %s 3 1 %d %s" % (kind, n, " ".join("%x %02x" % (5 ** (j + 1), s) for j, s in enumerate(sc))) + (" 2 1 1" if kind == "sec" else ""))
        z_run(chk, "sums of integers, every byte", drv, cm, threads=3, jobs=1)
    tasks.append(job)
    def job(rng=random.Random(rng.random())):      # many terms: larger windows
        cm = []
        for n, ss in ((1700, 32), (2100, 8), (850, 2), (460, 1), (9000, 4), (66000, 1)) if not full else ((1700, 32), (4000, 32), (12000, 32), (30000, 16), (70000, 4), (850, 2), (460, 1)):
            for kind in kinds: cm.append(zsum(kind, rng, 0, ss, n, x=sections(rng, n) if kind == "sec" else None))
        z_run(chk, "sums of many integers", drv, cm, threads=6, chunk=2, jobs=3)
    tasks.append(job)

def curve_sums(chk, kinds, tasks, rng, full):
    mul = 6 if full else 1
    for c in [c for c in curve_list(rng, False) if c.k["p"] >= 7][:3] + curve2_list(rng, False)[-2:]:
        for nt in (1, 4) if not full else (1, 2, 4, 7):
            def job(c=c, nt=nt, rng=random.Random(rng.random())):
                pl = c.plan(); cmds = tab_affine(c.kind, pl)
                for kind in kinds:
                    for n in [0, 1, 1, 1] + [2, 3, 4, 5, 7, 8, 12, 16, 21, 40] * mul: cmds.append(point_cmds(kind, c.kind, rng, len(pl["aff"]), 0 if "msm" in kinds else rng.choice([0, nt]), n, rng.choice([1, 2, 3, 4, 7, 8, 9, 16])))
                curve_run(chk, "curve %s, %d threads" % (c.name, nt), driver("toy"), c, c.kind, cmds, "%x" % pl["n"], lambda e, f: True, threads=nt)
            tasks.append(job)
    for be in ("asm", "c"):
        for g in ("1", "2"):
            if be == "c" and g == "2" and not full: continue
            def job(be=be, g=g, rng=random.Random(rng.random())):
                c = bn_curve("b" + g, [0, 1, 2, 3, R - 1, 12345678901234567890123], [1])
                pl = c.plan(); cmds = tab_affine("b" + g, pl)
                for kind in kinds:
                    for n in [0, 1] + ([2, 3, 5, 8, 13] if g == "1" else [2, 3, 6]) * mul: cmds.append(point_cmds(kind, "b" + g, rng, len(pl["aff"]), 0, n, rng.choice([1, 8, 31, 32, 32, 33])))
                curve_run(chk, "bn128 g%s %s" % (g, be), driver("real-" + be), c, "b" + g, cmds, "%x" % R, lambda e, f: True, threads=4, chunk=12, jobs=3)
            tasks.append(job)

def c12():
    chk = Check("C12")
    full = thorough()
    parmap(lambda x: driver(x), ["z", "toy", "real-asm", "real-c"])
    rng = random.Random("C12/%d" % SEED)
    tasks = []
    for k in range(2, 9): tasks.append(lambda k=k: model(chk, "Windows", {"W": 16 if full else 12, "K": k}, ["PrefixExact", "Small", "Ends"]))
    for w in range(1, 9 if not full else 15): tasks.append(lambda w=w: model(chk, "Windows", {"W": w, "K": 3}, ["PrefixExact", "Small", "Ends"]))
    for c in ["W=4 K=2 N=2 Workers=2", "W=5 K=3 N=1 Workers=2", "W=3 K=2 N=3 Workers=1"] + (["W=5 K=2 N=2 Workers=2", "W=6 K=3 N=2 Workers=2", "W=4 K=2 N=2 Workers=3", "W=4 K=2 N=3 Workers=1", "W=7 K=4 N=1 Workers=2"] if full else []):
        tasks.append(lambda c=c: algorithm(chk, "Buckets", c + " Enough=TRUE", ["Sums", "Right", "Stuck"]))
    tasks.append(lambda: algorithm(chk, "Buckets", "W=4 K=2 N=1 Workers=1 Enough=FALSE", ["Right"], False))
    sums(chk, ["msm"], tasks, rng, full, True)
    for k in range(2, 17):                          # every window size, forced at build time
        def job(k=k, rng=random.Random(rng.random())):
            exe = driver("z", ("-DMSM_BITS_PER_CHUNK=%d" % k,), "zk%d" % k)
            cm = []
            for n in [2, 3, 5] * (3 if k < 13 else 1) + ([17, 60] if k < 13 else []) + ([200] if full else []):
                for ss in rng.sample(SS, 5 if not full else len(SS)): cm.append(zsum("msm", rng, 0, ss, n, k))
            for ss in [s for s in SS if (8 * s) % k in (0, k - 1)][:6]: cm.append("zsum msm 0 %d 2 1 %s 3 %s" % (ss, "ff" * ss, "ff" * ss)); cm.append(zsum("msm", rng, 0, ss, 4, k))
            z_run(chk, "sums of integers, windows of %d bits" % k, exe, cm, threads=rng.choice([1, 2, 3, 5, 8]), jobs=1)
        tasks.append(job)
    curve_sums(chk, ["msm"], tasks, rng, full)
    spread(tasks, chk)
    chk.assumptions = ["scalars have at least one byte", "one caller at a time uses the default pool"]
    chk.finish()

def c13():
    chk = Check("C13")
    full = thorough()
    parmap(lambda x: driver(x), ["z", "toy", "real-asm", "real-c"])
    rng = random.Random("C13/%d" % SEED)
    tasks = []
    for c in ["W=4 K=2 N=2 Threads=2", "W=4 K=3 N=2 Threads=2", "W=2 K=2 N=3 Threads=3"] + (["W=6 K=3 N=2 Threads=2", "W=4 K=4 N=2 Threads=3", "W=3 K=3 N=3 Threads=3", "W=5 K=2 N=2 Threads=3", "W=2 K=2 N=5 Threads=2"] if full else []):
        tasks.append(lambda c=c: algorithm(chk, "Accumulators", c + " Clear=TRUE", ["Clean", "Window1", "Right", "Stuck"]))
    tasks.append(lambda: algorithm(chk, "Accumulators", "W=4 K=2 N=2 Threads=2 Clear=FALSE", ["Clean", "Right"], False))
    sums(chk, ["mex", "sec"], tasks, rng, full, False)
    curve_sums(chk, ["mex", "sec"], tasks, rng, full)
    spread(tasks, chk)
    chk.assumptions = ["scalars have at least one byte", "at least one section column"]
    chk.finish()

# ---- C14 ----------------------------------------------------------------------------------------------------------
FFT_PRIMES = [3, 5, 7, 13, 17, 97, 193, 257, 769, 12289, 40961]
def adicity(p):
    return ((p - 1) & -(p - 1)).bit_length() - 1
def fft_consts(big):
    n = "Q" if big else "T"
    return "CONSTANTS FAdd <- %sAdd FSub <- %sSub FMul <- %sMul Adicity <- KAd\n" % (n, n, n) + ('CONSTANTS Q <- KQ FZero = "0" FOne = "1"\n' if big else "CONSTANTS P <- KP Nr <- KNr FZero = 0 FOne = 1\n")
def fft_vectors(rng, p, n, count):
    out = []
    if n <= 8: out += [[int(i == j) for i in range(n)] for j in range(n)]
    for _ in range(count):
        s = rng.randrange(5)
        if s == 0: v = [rng.choice([0, 1, p - 1]) for _ in range(n)]
        elif s == 1: v = [0] * n; v[rng.randrange(n)] = rng.randrange(1, p)
        elif s == 2: v = [p - 1] * n
        else: v = [rng.randrange(p) for _ in range(n)]
        out.append(v)
    return out
def fft_cmds(pre, rng, p, doms, top, hexa, count):
    """doms: domains to build; top: largest transform as a power of two."""
    f = lambda v: " ".join("%x" % x if hexa else str(x) for x in v)
    out = []
    for d in doms:
        size = (1 << d) + (rng.randrange(1 << d) if rng.random() < .3 else 0)
        out.append("%s obj %d" % (pre, size))
        if d > adicity(p): continue
        if rng.random() < .3: out.append(pre + " log2 40")
        for k in range(0, min(d, top) + 1):
            if rng.random() < .5 or k == d: out.append("%s root %d" % (pre, k))
            for v in fft_vectors(rng, p, 1 << k, count if k <= 6 else 1):
                out.append("%s %s %d %s" % (pre, rng.choice(["fft", "ifft", "both", "both"]), 1 << k, f(v)))
    return out
def fft_run(chk, what, exe, head, cmds, p, big, nt, chunk=100000):
    lines, rc, err = drive(exe, head + cmds, nt)
    crash_line(lines, rc, err)
    # pieces start at an object
    pieces, cur = [], []
    for l in lines:
        if cur and sum(map(len, cur)) > chunk and l.startswith('{"k":"obj"'): pieces.append(cur); cur = []
        cur.append(l)
    pieces.append(cur)
    defs = 'KAd == %d\n' % adicity(p) + ('KQ == "%x"' % p if big else "KP == %d\nKNr == 0" % p)
    for ls in pieces:
        r = run_tlc("FftTraceBig" if big else "FftTraceToy", fft_consts(big) + "INIT Init\nNEXT Next\nINVARIANT TypeOK\n", {"TRACE": ls}, defs=defs, workers=1)
        whole(r, len(ls) + 1)
        chk.states(r)
        chk.cov["traces_validated_against_impl"] += len(ls)
        judge(chk, what, exe, ["# VP_NT=%d" % nt] + head + cmds, ls, {n - 1: f for n, f in r.rejects.items()})
    chk.sample("%s: %s" % (what, lines[len(lines) // 2][:160]))

def c14():
    chk = Check("C14")
    full = thorough()
    drv = dict(zip(("fft", "asm", "c"), parmap(lambda x: driver(x), ["fft", "real-asm", "real-c"])))
    rng = random.Random("C14/%d" % SEED)
    tasks = []
    net = 'CONSTANTS FAdd <- TAdd FSub <- TSub FMul <- TMul FZero = 0 FOne = 1 Nr = 0\n'
    def netjob(p, d, w, inputs):
        r = tlc("FftNet", net + "CONSTANTS P = %d D = %d Root = %d Inputs <- KInputs\nINIT Init\nNEXT Next\nINVARIANT Disjoint\nINVARIANT Forward\nINVARIANT Undone\n" % (p, d, w), workers=2, defs="KInputs == " + inputs)
        chk.states(r)
    tasks.append(lambda: netjob(5, 1, 4, "[1..2 -> 0..4]"))
    tasks.append(lambda: netjob(5, 2, 2, "[1..4 -> 0..4]"))
    tasks.append(lambda: netjob(17, 3, 2, "{[i \\in 1..8 |-> IF i = j THEN v ELSE IF i = k THEN 1 ELSE 0] : j \\in 1..8, k \\in 1..8, v \\in {1, 16, 5}}"))
    if full: tasks.append(lambda: netjob(17, 4, 3, "{[i \\in 1..16 |-> IF i = j THEN 1 ELSE 0] : j \\in {1, 2, 8, 16}}"))
    for nt in (1, 2, 3, 4, 5, 7, 8, 16) if not full else (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 32):
        def job(nt=nt, rng=random.Random(rng.random())):
            for p in FFT_PRIMES if full else [3, 5, 7, 13, 17] + rng.sample(FFT_PRIMES[5:], 3):
                a = adicity(p); top = 12 if full else 9
                doms = list(range(0, min(a, top) + 1)) * (2 if a < 4 else 1) + ([a] if a > top else []) + [a + 1, a + 2, a + 7]
                rng.shuffle(doms)
                fft_run(chk, "transforms modulo %d, %d threads" % (p, nt), drv["fft"], ["fp %d" % p], fft_cmds("ft", rng, p, doms, top, False, 6 if full else 2), p, False, nt)
        tasks.append(job)
    for be in ("asm", "c"):
        for nt in ((1, 3, 8) if be == "asm" else (4,)) if not full else (1, 2, 3, 4, 5, 7, 8, 16):
            def job(be=be, nt=nt, rng=random.Random(rng.random())):
                doms = list(range(0, 7)) + ([8, 10, 12] if full else [8]) + [29, 30, 40, 62]
                rng.shuffle(doms)
                fft_run(chk, "transforms modulo r of bn128, %s, %d threads" % (be, nt), drv[be], [], fft_cmds("fr", rng, R, doms, 12 if full else 8, True, 4 if full else 1), R, True, nt)
            tasks.append(job)
    def large(d, be, nt, rng):
        cmds = ["fr obj %d" % (1 << d)]
        for m in range(d, d - 3, -1):
            n = 1 << m
            js = sorted({0, 1, n - 1, n // 2 + 1} & set(rng.sample([0, 1, n - 1, n // 2 + 1], 2)) | {rng.randrange(n) for _ in range(2)})
            ks = sorted({(1 << b) + e for b in range(1, m + 1) for e in (-1, 0, 1) if (1 << b) + e < n} | {rng.randrange(n) for _ in range(150 if full else 60)})
            cmds.append("fr sparse %d %d %s %d %s" % (m, len(js), " ".join("%d %x" % (j, rng.randrange(R)) for j in js), len(ks), " ".join(map(str, ks))))
        fft_run(chk, "transforms of 2^%d elements modulo r of bn128, %s, %d threads" % (d, be, nt), drv[be], [], cmds, R, True, nt)
    for d, be, nt in ([(19, "asm", 8), (17, "c", 3)] if not full else [(22, "asm", 8), (20, "asm", 5), (18, "c", 4), (19, "asm", 1)]):
        tasks.insert(0, lambda d=d, be=be, nt=nt, rng=random.Random(rng.random()): large(d, be, nt, rng))
    spread(tasks, chk)
    chk.assumptions = ["transform sizes are powers of two up to the domain the object was built for", "the domain is at least 1"]
    chk.finish()

# ---- C21 ----------------------------------------------------------------------------------------------------------
def bn_consts(g):
    """The trace machine over the curve of Bn128.tla: nothing of it comes from this file."""
    n = "Q" if g == "1" else "Q2"
    c = "CONSTANTS Q <- BnQ " + " ".join("F%s <- %s%s" % (o, n, o) for o in ("Add", "Sub", "Mul", "Inv", "Dec")) + "\n"
    c += 'CONSTANTS FZero = "0" FOne = "1"\n' if g == "1" else "CONSTANTS FZero <- Q2Zero FOne <- Q2One\n"
    return c + "CONSTANTS CA <- BnG{0}A CB <- BnG{0}B GenX <- BnG{0}X GenY <- BnG{0}Y Order <- BnR\n".format(g)

def c21():
    chk = Check("C21")
    full = thorough()
    drv = dict(zip(("asm", "c"), parmap(lambda x: driver(x), ["real-asm", "real-c"])))
    tasks = []
    rng = random.Random("C21/%d" % SEED)
    for be in ("asm", "c"):
        def fields(be=be):
            cmds = ["bnf 0", "bnf 1"]
            lines, rc, err = drive(drv[be], cmds)
            crash_line(lines, rc, err)
            res, rej = run_trace_module("Bn128F", "", "", lines, jobs=1)
            for r in res: chk.states(r)
            chk.cov["traces_validated_against_impl"] += len(lines)
            if not rej and len(lines) != 10: raise ToolError("expected 10 events, got %d" % len(lines))
            chk.sample("fields %s: %s" % (be, lines[0][:160]))
            judge(chk, "fields of bn128 %s" % be, drv[be], cmds, lines, rej)
        tasks.append(fields)
        for pre in ("b1", "b2", "e1", "e2"):
            def job(be=be, pre=pre, rng=random.Random(rng.random())):
                g = pre[1]
                gen = ["1", "2"] if g == "1" else flat(hx([G2X, G2Y]))
                one = ["1"] if g == "1" else ["1", "0"]
                sc = [0, 1, 2, 3, R - 2, R - 1, R, R + 1, 2 * R, (R - 1) // 2, Q, (1 << 256) - 1, 6 * 4965661367192848881 ** 2] + [rng.getrandbits(rng.randrange(1, 257)) for _ in range(150 if full else 12)]
                cmds = [pre + " consts", pre + " new", "%s w set A0 %s" % (pre, " ".join(gen)), "%s w set P0 %s" % (pre, " ".join(gen + one + one))]
                for s in sc:
                    for a in ("A0", "P0"): cmds.append("%s w mul P1 %s P0 %s" % (pre, a, s.to_bytes(32, "little").hex()))
                    cmds += [pre + " w str P0 P1 P0 10", pre + " w copy A1 P1 P0", pre + " w add P2 P2 A1"]
                lines, rc, err = drive(drv[be], cmds)
                crash_line(lines, rc, err)
                ls = ['{"k":"new"}'] + lines
                r = run_tlc("Bn128G", bn_consts(g) + "INIT Init\nNEXT Next\nINVARIANT TypeOK\n", {"TRACE": ls}, workers=1)
                whole(r, len(ls))
                chk.states(r)
                chk.cov["traces_validated_against_impl"] += len(ls)
                chk.sample("group %s %s: %s" % (pre, be, ls[1][:160]))
                judge(chk, "bn128 %s %s" % (pre, be), drv[be], cmds, ls, {n - 1: f for n, f in r.rejects.items()})
            tasks.append(job)
    spread(tasks[::-1], chk)
    chk.assumptions = ["the published parameters of alt_bn128 are those of the Barreto-Naehrig family member with parameter 4965661367192848881"]
    chk.finish()

CHECKS = {"C21": c21, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C17": c17}
