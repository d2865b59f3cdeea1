"""Generated-field checks (C01-C09): build a backend, plan with TLC, drive the real code, validate the trace with TLC."""
import hashlib, json, os, re, subprocess, tempfile
from vp import *
import vp

def prev_prime_like(n64, top):
    """A prime of n64 limbs with the given top limb (deterministic), found with sympy-free Miller-Rabin."""
    import random
    base = top << (64 * (n64 - 1))
    x = base + (1 << (64 * (n64 - 1))) - 1 if n64 > 1 else top
    while not is_prime(x):
        x -= 2
    assert x >> (64 * (n64 - 1)) == top or n64 == 1
    return x

def is_prime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True

# primes on both sides of the generator's "no carry" condition
PRIMES["edge2lo"] = prev_prime_like(2, 0x7FFFFFFFFFFFFFFE)
PRIMES["edge2eq"] = prev_prime_like(2, 0x7FFFFFFFFFFFFFFF)
PRIMES["edge2hi"] = prev_prime_like(2, 0x8000000000000000)
PRIMES["full2"] = prev_prime_like(2, 0xFFFFFFFFFFFFFFFF)
PRIMES["full3"] = prev_prime_like(3, 0xFFFFFFFFFFFFFFFF)
# with the others, primes of every width the generators take, with and without a free top bit (top limb, distance below the next multiple of 2^(64*(n64-1))): the generators branch on the width
WIDE = ["wide3", "wide5", "full5", "full6", "full7", "wide7", "full8", "wide8", "wide9", "full9", "full10", "wide10", "wide11", "full11", "full12"]
for _n, _top, _name, _d in [(3, 693, "wide3", 50), (8, 2**63 - 2, "wide8", 158), (9, 2**64 - 1, "full9", 788), (10, 1, "wide10", 80), (11, 2**63, "full11", 2014), (5, 0x1ae3, "wide5", 242), (5, 2**64 - 1, "full5", 196), (6, 2**64 - 1, "full6", 316), (7, 2**64 - 1, "full7", 202), (7, 2**63 - 1, "wide7", 324),
                            (8, 2**64 - 1, "full8", 568), (9, 0x123456789, "wide9", 574), (10, 2**64 - 1, "full10", 304), (11, 0x1ff, "wide11", 122), (12, 2**64 - 1, "full12", 824)]:
    PRIMES[_name] = (_top << (64 * (_n - 1))) + (1 << (64 * (_n - 1))) - 1 - _d
PRIMES["edge1"] = prev_prime_like(1, 0x7FFFFFFFFFFFFFFF)
PRIMES["small33"] = 8589934583   # largest 33-bit prime: just above the 32-bit short range
PRIMES["tiny2"] = prev_prime_like(2, 1)

def backend(prime, be):
    """Compile the driver for one prime and backend ('asm', 'gen', 'arm'); returns the path of the executable."""
    g = gen(prime, "Fr")
    key = "frdrv-%s-%s-%s" % (be, os.path.basename(g)[4:], thash(CPP))
    def make(d):
        I = ["-I", g, "-I", CPP]
        if be in ("asm", "asmro"):
            o = os.path.join(d, "fr.o")
            sh(["nasm", "-felf64", os.path.join(g, "fr.asm"), "-o", o])
            src = [os.path.join(g, "fr.cpp"), o]
            defs = ["-DUSE_ASM", "-DARCH_X86_64"]
            if be == "asmro":       # its statics on pages of their own, read-only while commands are run
                have = set(re.findall(r"^\s*\d+\s+(\S+)", subprocess.run(["objdump", "-h", o], stdout=subprocess.PIPE, text=True).stdout, re.M))
                fl = []
                for sec in (".data", ".bss"):
                    if sec in have: fl += ["--set-section-flags", sec + "=alloc,load,contents,data", "--set-section-alignment", sec + "=4096"]
                sh(["objcopy"] + fl + [o])
                sh(["objcopy"] + sum((["--rename-section", sec + "=vpstat,alloc,load,contents,data"] for sec in (".data", ".bss") if sec in have), []) + [o])
                with open(os.path.join(d, "pad.s"), "w") as f: f.write('.section vpstat,"aw",@progbits\n.balign 4096\n.zero 4096\n')
                sh(["gcc", "-c", os.path.join(d, "pad.s"), "-o", os.path.join(d, "pad.o")])
                src.append(os.path.join(d, "pad.o")); defs.append("-DVP_ROSTATICS")
        elif be == "gen":
            src = [os.path.join(g, f) for f in ("fr.cpp", "fr_generic.cpp", "fr_raw_generic.cpp")]
            defs = []
        elif be == "arm":
            arm_image(os.path.join(g, "fr_raw_arm64.s"), d)
            src = [os.path.join(g, f) for f in ("fr.cpp", "fr_generic.cpp", "fr_raw_generic.cpp")] + [os.path.join(CPP, f) for f in ("a64emu.cpp", "armglue.cpp")]
            defs = ["-DUSE_ASM", "-DARCH_ARM64", "-DVP_ARM", "-I", d]
        for extra in ([["-DVP_HELPERS"], []] if be != "asm" else [[]]):
            try:
                sh(CXX + ["-O1"] + defs + extra + I + src + [os.path.join(CPP, "frdrv.cpp"), "-lgmp", "-o", os.path.join(d, "drv")], timeout=600)
                return
            except ToolError:
                if not extra:
                    raise
    return os.path.join(cached(key, make), "drv")

ARM_BASE = 0x5A000000
def arm_image(asm, d):
    """Assemble the ARM64 source, link it at a fixed address and write the image and its symbols as a C header."""
    o, x, raw = (os.path.join(d, n) for n in ("arm.o", "arm.elf", "arm.bin"))
    sh(["clang", "--target=aarch64-linux-gnu", "-c", asm, "-o", o])
    with open(os.path.join(d, "arm.ld"), "w") as f:
        f.write("SECTIONS { . = 0x%x; .all : { *(.text*) *(.rodata*) *(.data*) *(.bss*) } }\n" % ARM_BASE)
    sh(["lld", "-flavor", "gnu", "-m", "aarch64linux", "-static", "--no-relax", "-e", "0", "-T", os.path.join(d, "arm.ld"), o, "-o", x])
    sh(["llvm-objcopy", "-O", "binary", x, raw])
    syms = [l.split() for l in sh(["llvm-nm", x]).stdout.decode().splitlines()]
    with open(os.path.join(d, "arm_image.h"), "w") as f:
        f.write("#define VP_ARM_BASE 0x%xUL\nstatic const unsigned char arm_image[] = {%s};\n" % (ARM_BASE, ",".join(map(str, open(raw, "rb").read()))))
        f.write("static const struct { const char *n; unsigned long a; } arm_syms[] = {%s};\n" % ",".join('{"%s", 0x%sUL}' % (p[2], p[0]) for p in syms if len(p) == 3))
TAGHEX = {"S": "0", "SM": "40000000", "L": "80000000", "LM": "c0000000"}
ALN = {"none": 0, "r=a": 1, "r=b": 2, "a=b": 3, "r=a=b": 4}
BIN = "add sub mul band bor bxor shl shr eq neq lt gt leq geq land lor idiv mod div pow".split()
QUERY = ["isTrue", "toInt", "toStr"]

def consts(prime):
    q = PRIMES[prime]
    return 'CONSTANTS\n  Q = "%x"\n  N64 = %d\n' % (q, n64_of(q))


CONV = ["copy", "toNormal", "toLongNormal", "toMontgomery"]
ARITH = ["add", "sub", "neg", "mul", "square"]
BITS = ["band", "bor", "bxor", "bnot", "shl", "shr"]
CMP = ["eq", "neq", "lt", "gt", "leq", "geq", "land", "lor", "lnot", "isTrue", "toInt"]
NUM = ["idiv", "mod", "pow", "inv", "div", "toStr"]
RAW = ["rawAdd", "rawSub", "rawNeg", "rawMMul", "rawMSquare", "rawMMul1", "rawToMontgomery", "rawFromMontgomery", "rawIsEq", "rawIsZero",
       "rawCopy", "rawSwap", "rawShl", "rawShr"]
HELPERS = ["rawAddLS", "rawSubLS", "rawNegLS", "rawSubSL", "rawCopyS2L", "rawCmp", "rawAnd", "rawOr", "rawXor", "rawNot", "rawSubRegular"]
CLASS = ["add", "sub", "mul", "div", "vadd", "vsub", "vmul", "eq", "swap", "neg", "square", "copy", "inv", "toMontgomery", "fromMontgomery",
         "vneg", "vsquare", "isZero", "toMpz", "zero", "one", "negOne", "bytes", "maxbits", "consts", "set", "set2", "fromUI", "mul1", "addi", "subi", "muli",
         "iadd", "isub", "imul", "fromString", "toString", "fromMpz", "toRprBE", "fromRprBE", "exp"]
ALL_AL = ["none", "r=a", "r=b", "a=b", "r=a=b"]

def plan_grid(prime, layer, ops, aliases, rich):
    """Have TLC enumerate the operand grid; returns a list of plan items."""
    cfg = consts(prime) + '  Layer = "%s"\n  Ops = %s\n  Aliases = %s\n  Rich = %s\nINIT Init\nNEXT Next\n' % (layer, tla_set(ops), tla_set(aliases), "TRUE" if rich else "FALSE")
    key = "plan-" + hashlib.sha256((cfg + thash(SPEC, os.path.join(VERIF, "java"))).encode()).hexdigest()[:20]
    def make(d):
        tlc("FrPlan", cfg, env={"PLAN": os.path.join(d, "plan.ndjson")}, workers=1)
    d = cached(key, make)
    return [json.loads(l) for l in open(os.path.join(d, "plan.ndjson"))]

def item_cmd(it, layer, pair=False):
    al = ALN[it["al"]]
    if layer == "tagged":
        a, b = it["a"], it["b"]
        return "%s %s %d %s %s %s %s %s %s" % ("A" if pair else "G", it["op"], al, a["t"], a["s"], a["l"], b["t"], b["s"], b["l"])
    return "%s %s %d %s %s" % ("R" if layer == "raw" else "C", it["op"], al, it["a"] or "_", it["b"] or "_")

def with_sessions(cmds, every=40):
    out = []
    for n, c in enumerate(cmds):
        if n % every == 0:
            out.append("S")
        out.append(c)
    return out

# ---- random operands -------------------------------------------------------------------------------------------
def rnd_value(rng, q):
    """Residue biased to boundaries: limbs of zeros/ones, near 0, near q, near q/2, near powers of two."""
    n64 = n64_of(q)
    k = rng.randrange(10)
    if k == 0: v = rng.randrange(0, 5)
    elif k == 1: v = q - 1 - rng.randrange(0, 5)
    elif k == 2: v = rng.choice([-1, 1]) * (2 ** rng.choice([31, 31, 32, 30, 16]) + rng.randrange(-3, 4))
    elif k == 3: v = rng.randrange(-2 ** 31, 2 ** 31)
    elif k == 4: v = (q - 1) // 2 + rng.randrange(-3, 4)
    elif k == 5: v = 2 ** rng.randrange(0, q.bit_length()) + rng.randrange(-1, 2)
    elif k in (6, 7):
        v = 0
        for i in range(n64):
            v |= rng.choice([0, 2 ** 64 - 1, 1, 2 ** 63, 2 ** 63 - 1, 2 ** 32 - 1, rng.getrandbits(64), (q >> (64 * i)) & (2 ** 64 - 1)]) << (64 * i)
    else: v = rng.randrange(q)
    return v % q

def rnd_elt(rng, q, v=None):
    """(type, short, limbs) of a legal representation of v, with junk in the meaningless parts."""
    if v is None:
        v = rnd_value(rng, q)
    n64 = n64_of(q); R = 1 << (64 * n64)
    s = v if v <= (q - 1) // 2 else v - q
    fits = -2 ** 31 <= s < 2 ** 31
    k = rng.choice(["L", "LM"] + (["S", "SM"] * 2 if fits else []))
    mont = v * R % q
    junk = rng.getrandbits(64 * n64)
    if k == "L": return ("80000000", rng.randrange(-2 ** 31, 2 ** 31), "%x" % v)
    if k == "LM": return ("c0000000", rng.randrange(-2 ** 31, 2 ** 31), "%x" % mont)
    if k == "S": return ("0", s, "%x" % junk)
    return ("40000000", s, "%x" % mont)

def elt_value(e, q):
    R = 1 << (64 * n64_of(q))
    if e[0] == "80000000": return int(e[2], 16)
    if e[0] == "c0000000": return int(e[2], 16) * pow(R, -1, q) % q
    return int(e[1]) % q

def defined(op, x, y, q):
    if op in ("idiv", "mod", "div"): return y != 0
    if op == "inv": return x != 0
    if op == "toInt":
        s = x if x <= (q - 1) // 2 else x - q
        return -2 ** 31 <= s < 2 ** 31
    return True

def rnd_pairs(rng, prime, ops, n, aliases=("none",), pair=False):
    q = PRIMES[prime]
    out = []
    while len(out) < n:
        op = rng.choice(ops)
        a, b = rnd_elt(rng, q), rnd_elt(rng, q)
        if op in ("shl", "shr") and rng.random() < 0.8:
            k = rng.randrange(0, q.bit_length() + 3)
            b = rnd_elt(rng, q, (k if rng.random() < 0.7 else -k) % q)
        al = rng.choice([x for x in aliases if op in BIN or x in ("none", "r=a")])
        if al in ("a=b", "r=a=b"): b = a
        x, y = elt_value(a, q), elt_value(b, q)
        if op in BIN and al == "none" and rng.random() < 0.1:
            b = rnd_elt(rng, q, x); y = x
        if op == "toInt" and not defined(op, x, y, q):
            s = rng.randrange(-2 ** 31, 2 ** 31) if rng.random() < .6 else rng.choice([-2**31, 2**31-1, -1, 0, 1])
            a = rnd_elt(rng, q, s % q); x = s % q
        if not defined(op, x, y, q): continue
        out.append("%s %s %d %s %s %s %s %s %s" % (("A" if pair else "G", op, ALN[al]) + a + b))
    return out

def rnd_raw(rng, prime, ops, n, aliases=ALL_AL):
    q = PRIMES[prime]
    out = []
    for _ in range(n):
        op = rng.choice(ops)
        a, b = rnd_value(rng, q), rnd_value(rng, q)
        al = rng.choice(aliases)
        if op in ("rawAdd", "rawSub", "rawMMul", "rawAnd", "rawOr", "rawXor"):
            if al in ("a=b", "r=a=b"): b = a
        elif op in ("rawIsEq", "rawSwap", "rawCmp"):
            al = rng.choice(["none", "none", "a=b"])
            if al == "a=b": b = a
            elif rng.random() < .3: b = a ^ (1 << rng.randrange(q.bit_length())); b %= q
        elif op in ("rawNeg", "rawMSquare", "rawToMontgomery", "rawFromMontgomery", "rawCopy", "rawNot"):
            al = rng.choice(["none", "r=a"]); b = 0
        elif op == "rawIsZero":
            al, b = "none", 0
            if rng.random() < .5: a = (1 << rng.randrange(q.bit_length())) % q
        elif op == "rawMMul1":
            al = rng.choice(["none", "r=a"]); b = rng.choice([rng.getrandbits(64), rng.getrandbits(32), 2 ** 64 - 1, 2 ** 63, rng.randrange(4)])
        elif op in ("rawShl", "rawShr"):
            al = rng.choice(["none", "r=a"]); b = rng.randrange(q.bit_length())
        elif op in ("rawAddLS", "rawSubLS", "rawNegLS"):
            al = rng.choice(["none", "r=a"]); b = rng.choice([rng.getrandbits(32), rng.randrange(2 ** 31 + 1), 2 ** 31, 0, 1]) % q
            if op == "rawNegLS" and b == 0: b = 1  # minus a short that is negative
        elif op == "rawSubSL":
            al = rng.choice(["none", "r=a"]); a = rng.choice([rng.getrandbits(31), 0, 1, 2 ** 31 - 1]) % q
        elif op == "rawCopyS2L":
            al, b = "none", 0; s = rng.choice([rng.randrange(-2 ** 62, 2 ** 62), -2 ** 62, 2 ** 62 - 1, 0, -1, 1]); a = s % 2 ** 64
        elif op == "rawSubRegular":
            al = "none"
        out.append("R %s %d %x %x" % (op, ALN[al], a, b))
    return out

def one_word(rng, prime, ops):
    """Operands that differ from zero, from the prime or from each other in a single word."""
    q = PRIMES[prime]; n64 = n64_of(q)
    word = lambda i: rng.choice([1, 2 ** 64 - 1, 2 ** 63, rng.getrandbits(64) | 1]) << (64 * i)
    out = []
    for op in ops:
        for i in range(n64):
            if op in ("rawNeg", "rawMSquare", "rawToMontgomery", "rawFromMontgomery", "rawCopy", "rawNot", "rawIsZero"):
                for a in (1 << (64 * i), word(i), q - (1 << (64 * i)), (q >> (64 * i)) << (64 * i), q & ((1 << (64 * i)) - 1)):
                    out.append("R %s %d %x %x" % (op, ALN[rng.choice(["none", "r=a"]) if op != "rawIsZero" else "none"], a % q, 0))
            elif op in ("rawShl", "rawShr"):
                for b in (64 * i, 64 * i + 1, 64 * i + 63):
                    for a in (word(i) % q, 1 << (64 * rng.randrange(n64)), rng.randrange(q)):
                        if b < q.bit_length(): out.append("R %s %d %x %x" % (op, ALN[rng.choice(["none", "r=a"])], a % q, b))
            elif op in ("rawIsEq", "rawCmp", "rawSwap", "rawAdd", "rawSub", "rawAnd", "rawOr", "rawXor", "rawMMul"):
                x = rng.randrange(q)
                for a, b in ((x, x ^ (1 << (64 * i))), (x, x ^ (1 << (64 * i + 63))), (x, x ^ word(i)), (1 << (64 * i), word(rng.randrange(n64))), (0, word(i)), (word(i), 0), (q - (1 << (64 * i)), 1 << (64 * i)), (q - 1, 1 << (64 * i)), (q - word(i) % q, q - 1), ((1 << (64 * i)) - 1, 1)):
                    if rng.random() < .5: a, b = b, a
                    out.append("R %s %d %x %x" % (op, ALN["none"], a % q, b % q))
    return out

def rnd_sessions(rng, prime, ops, nsess, length):
    """Programs over eight registers; operations with a restricted domain get a freshly loaded operand."""
    q = PRIMES[prime]
    out = []
    for _ in range(nsess):
        out.append("S")
        for r in range(8):
            out.append("L %d %s %s %s" % ((r,) + rnd_elt(rng, q)))
        for _ in range(length):
            op = rng.choice(ops)
            d, a, b = rng.randrange(8), rng.randrange(8), rng.randrange(8)
            if op in ("idiv", "mod", "div"):
                v = 0
                while v == 0: v = rnd_value(rng, q)
                out.append("L %d %s %s %s" % ((b,) + rnd_elt(rng, q, v)))
            if op == "inv":
                v = 0
                while v == 0: v = rnd_value(rng, q)
                out.append("L %d %s %s %s" % ((a,) + rnd_elt(rng, q, v)))
            if op == "toInt":
                out.append("L %d %s %s %s" % ((a,) + rnd_elt(rng, q, rng.randrange(-2 ** 31, 2 ** 31) % q)))
            if op in ("shl", "shr") and rng.random() < .7:
                k = rng.randrange(0, q.bit_length() + 3)
                out.append("L %d %s %s %s" % ((b,) + rnd_elt(rng, q, (k if rng.random() < 0.7 else -k) % q)))
            if op == "str":
                v = rng.choice([rng.getrandbits(31), -rng.getrandbits(31), rng.randrange(q), -rng.randrange(q), q, -q, q + rng.randrange(9), 2 * q - 1,
                                rng.getrandbits(64 * n64_of(q) + 70), -rng.getrandbits(64 * n64_of(q) + 70), 0, 2 ** 31, -2 ** 31, 2 ** 31 - 1, -2 ** 31 - 1])
                out.append("X %d %d" % (d, v)); continue
            if op == "copyn":
                n = rng.randrange(0, 9 - max(a, d)); out.append("O copyn %d %d %d" % (d, a, n)); continue
            out.append("O %s %d %d %d" % (op, d, a, b))
            if op in ("neg", "copy", "toMontgomery", "mul") and rng.random() < .1:  # keep some short values around
                out.append("L %d %s %s %s" % ((rng.randrange(8),) + rnd_elt(rng, q, rng.randrange(-2 ** 31, 2 ** 31) % q)))
    return out

# ---- running ------------------------------------------------------------------------------------------------------
def drive(exe, commands):
    p = subprocess.run([exe], input=("\n".join(commands) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, cwd=os.path.dirname(exe))
    if p.returncode == 42:
        raise ToolError(p.stdout.decode()[-300:])
    return p.stdout.decode().splitlines(), p.returncode

def validate(prime, lines, workers=2):
    """TLC validates the trace; returns (TlcResult with .rejects: line -> broken obligations)."""
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
        f.write("\n".join(lines) + "\n")
    try:
        r = tlc("FrTrace", consts(prime) + "INIT Init\nNEXT Next\nINVARIANT TypeOK\n", env={"TRACE": f.name}, workers=workers)
    finally:
        os.unlink(f.name)
    whole(r, len(lines))
    return r

CHUNK = 40000
def run_trace(chk, prime, be, cmds, count, workers=1, keyf=None):
    """Drive the backend with cmds, validate, and report the events for which count(event, obligations) is true."""
    exe = backend(prime, be)
    lines, rc = drive(exe, cmds)
    if len(lines) != len(cmds) or rc != 0:
        bad = cmds[len(lines)] if len(lines) < len(cmds) else "?"
        if count({"k": "crash"}, {"crash"}):
            chk.violation("%s:%s:crash:%s" % (prime, be, " ".join(bad.split()[:2])), "the process died (rc %s) executing: %s" % (rc, bad), {"commands.txt": "\n".join(cmds[:len(lines) + 1]) + "\n"})
        cmds = cmds[:len(lines)]
    # chunks at session starts
    starts = [n for n, c in enumerate(cmds) if c == "S"]
    cuts, last = [0], 0
    for s in starts:
        if s - last >= CHUNK:
            cuts.append(s); last = s
    cuts.append(len(lines))
    def one(k):
        lo, hi = cuts[k], cuts[k + 1]
        if lo == hi: return
        r = validate(prime, lines[lo:hi], workers)
        chk.states(r)
        for n, fails in sorted(r.rejects.items()):
            e = json.loads(lines[lo + n - 1])
            if "plan" in fails:
                raise ToolError("ill-formed plan line: " + cmds[lo + n - 1])
            e["_next_bad"] = bool(r.rejects.get(n + 1, set()) & {"value", "crash", "intact"})
            if not count(e, fails):
                continue
            s = max(x for x in starts if x <= lo + n - 1)
            ctx = cmds[s:lo + n] if e["k"] not in ("g", "a", "raw", "class") else ["S", cmds[lo + n - 1]]
            chk.violation("%s:%s:%s:%s:%s" % (be, e["k"], e.get("op", "str"), e.get("al", "-"), ",".join(sorted(fails))) + ":" + prime,
                          "prime %s backend %s: %s\nbroken: %s\ncommand: %s\nevent: %s" % (prime, be, PRIMES[prime], ", ".join(sorted(fails)), cmds[lo + n - 1], lines[lo + n - 1]),
                          {"commands.txt": "\n".join(ctx) + "\n", "trace.ndjson": lines[lo + n - 1] + "\n", "howto.txt": "field.backend(%r, %r) builds the driver; feed it commands.txt; validate its output with spec/FrTrace.tla\n" % (prime, be)})
    for k in range(len(cuts) - 1):
        one(k)
    chk.cov["traces_validated_against_impl"] += len(starts)
    if lines:
        chk.sample({"prime": prime, "backend": be, "command": cmds[len(cmds) // 2], "event": lines[len(lines) // 2][:400]})

# ---- several fields in one program (C22) ----------------------------------------------------------------------------
def coexist(fields, be):
    """fields: [(name, prime)]: one program with a copy of the driver per field; a line "k command" goes to the k-th field."""
    gs = [gen(p, n) for n, p in fields]
    uses = "".join("static void *vp_use_%s[] = {(void *)&%s_add, (void *)&Raw%s::field, (void *)&%s_q};\nstatic %sElement vp_elt_%s; static Raw%s::Element vp_raw_%s;\n" % ((n,) * 8) for n, p in fields)
    key = "coex-%s-%s" % (be, hashlib.sha256(("|".join(gs) + thash(CPP) + uses).encode()).hexdigest()[:20])
    def make(d):
        I = sum((["-I", g] for g in gs), []) + ["-I", CPP, "-I", d]
        src = open(os.path.join(CPP, "frdrv.cpp")).read()
        heads = ['#include "%s.hpp"\n' % n.lower() for n, p in fields]
        defs = ["-DUSE_ASM", "-DARCH_X86_64"] if be == "asm" else []
        objs, jobs = [], []
        for k, ((n, p), g) in enumerate(zip(fields, gs)):
            low = os.path.join(g, n.lower())
            s = re.sub(r"\bRawFr\b", "Raw" + n, src)
            s = re.sub(r"\bFr_", n + "_", s).replace("PFrElement", "P%sElement" % n).replace("FrElement", n + "Element")
            s = s.replace('#include "fr.hpp"\n', "".join(heads[k:] + heads[:k]) + uses)       # every part sees every field, in another order
            f = os.path.join(d, "part%d.cpp" % k)
            with open(f, "w") as h: h.write(s)
            ins = [(f, defs + ["-DVP_PART=vp_part%d" % k, "-DVP_NS=vp_ns%d" % k] + (["-DVP_NO_TRAMP"] if k else []))]
            ins += [(low + x, defs) for x in ([".cpp"] if be == "asm" else [".cpp", "_generic.cpp", "_raw_generic.cpp"])]
            if be == "asm":
                o = os.path.join(d, "f%d.asm.o" % k); objs.append(o)
                jobs.append(["nasm", "-felf64", low + ".asm", "-o", o])
            for j, (x, fl) in enumerate(ins):
                o = os.path.join(d, "f%d.%d.o" % (k, j)); objs.append(o)
                jobs.append(CXX + ["-O1"] + fl + I + ["-c", x, "-o", o])
        with open(os.path.join(d, "main.cpp"), "w") as h:
            h.write("#include <cstdio>\n#include <cstdlib>\n#include <iostream>\n#include <string>\n" + "".join(heads) + uses + "".join("void vp_part%d(const char *);\n" % k for k in range(len(fields))))
            h.write("int main() {\n    if (!freopen(\"/dev/null\", \"w\", stderr)) {}\n    std::string l;\n    while (std::getline(std::cin, l)) {\n        int k = l[0] - '0'; printf(\"%d \", k);\n        switch (k) {")
            h.write("".join(" case %d: vp_part%d(l.c_str() + 2); break;" % (k, k) for k in range(len(fields))) + " }\n    }\n    fflush(stdout);\n    return 0;\n}\n")
        parmap(lambda j: sh(j, timeout=600), jobs, 3)
        sh(CXX + defs + I + [os.path.join(d, "main.cpp")] + objs + ["-lgmp", "-o", os.path.join(d, "drv")], timeout=600)
    return os.path.join(cached(key, make), "drv")
