"""C18-C20: splitting of lists, readers of sectioned files, headers."""
from group import *
from group_checks import spread, thorough
import vp, struct, shutil

IO = os.path.join(CPP, "io")

def io_driver(name):
    key = "io-" + name + "-" + thash(repo_c(), IO)
    def make(d):
        if name == "split":
            srcs, flags = [os.path.join(IO, "split.cpp"), os.path.join(repo_c(), "splitparstr.cpp")], []
        else:
            srcs = [os.path.join(IO, "file.cpp")] + [os.path.join(repo_c(), x) for x in ("binfile_utils.cpp", "zkey_utils.cpp", "wtns_utils.cpp")]
            flags = ["-include", "stdexcept", "-fopenmp", "-fsanitize=address", "-fno-omit-frame-pointer"]
        sh(CXX + ["-O1", "-I", os.path.join(IO, "inc"), "-I", repo_c()] + flags + srcs + ["-lgmp", "-o", os.path.join(d, "drv")], timeout=600)
    return os.path.join(cached(key, make), "drv")

# ---- C18 ----------------------------------------------------------------------------------------------------------
def rand_list(rng, depth):
    """A balanced text with nesting, redundant parentheses and white space."""
    def ws(): return rng.choice(["", "", "", "", "", " ", " ", "  ", "\t", "\n ", "\r\n", "\v", "\f\v"])
    plain = rng.choice(["0123456789abcxyz", "01-", "".join(chr(c) for c in range(33, 127) if chr(c) not in "(),") + "\x01\x1b\x7f"])
    def item(d):
        if d == 0 or rng.random() < 0.3:
            return ws() + "".join(rng.choice(plain) for _ in range(rng.randrange(0, 5))) + ws()
        s = ws() + ",".join(item(d - 1) for _ in range(rng.choice([1, 1, 2, 2, 3])))
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])): s = ws() + "(" + s + ")" + ws()
        return s
    return ",".join(item(depth) for _ in range(rng.choice([1, 1, 2, 3])))

def c18():
    chk = Check("C18")
    full = thorough()
    exe = io_driver("split")
    rng = random.Random("C18/%d" % SEED)
    tasks = []
    def scan(maxlen, alls, alphabet):
        r = tlc("SplitScan", "CONSTANTS Alphabet <- KA MaxLen=%d AllTexts=%s FullRange=TRUE StopWhenSame=TRUE\nSPECIFICATION Spec\nINVARIANT Right\nINVARIANT Content\nPROPERTY Terminates\n" % (maxlen, "TRUE" if alls else "FALSE"),
                defs="KA == {%s}" % ",".join('"%s"' % a for a in alphabet), workers=2)
        chk.states(r)
    tasks.append(lambda: scan(8 if full else 6, False, "a,() "))
    tasks.append(lambda: scan(9 if full else 8, False, "a,()"))
    tasks.append(lambda: scan(14 if full else 11, False, "(),"))
    tasks.append(lambda: scan(6 if full else 4, True, "a,()"))
    def witness():     # a scan without its end condition, or one that looks at too little, is told apart
        for full_range, stop in ((True, False), (False, True)):
            r = tlc("SplitScan", "CONSTANTS Alphabet <- KA MaxLen=%d AllTexts=FALSE FullRange=%s StopWhenSame=%s\nSPECIFICATION Spec\nINVARIANT Right\nPROPERTY Terminates\n" % (2 if not stop else 9, str(full_range).upper(), str(stop).upper()),
                    defs='KA == {"a","(",")"%s}' % (',","' if not stop else ""), check_ok=False, workers=2)
            if r.ok: raise ToolError("the model of the scan lets a wrong one pass")
    tasks.append(witness)
    def run(what, cmds, chunk=6000):
        p = subprocess.run([exe], input="\n".join(cmds).encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
        if p.returncode: raise ToolError("driver ended with %d: %s" % (p.returncode, p.stderr.decode()[-300:]))
        lines = p.stdout.decode().splitlines()
        m = re.search(r"#inputs (\d+)", p.stderr.decode())
        chk.cov["inputs"] = chk.cov.get("inputs", 0) + max(len(lines), int(m.group(1)) if m else 0)
        rs, rej = run_trace_module("SplitTrace", "", "", lines, chunk=chunk, jobs=2)
        for r in rs: chk.states(r)
        chk.cov["traces_validated_against_impl"] += len(lines)
        if lines: chk.sample("%s: %d texts, e.g. %s" % (what, len(lines), lines[len(lines) // 2][:160]))
        for n, f in sorted(rej.items()):
            e = json.loads(lines[n]); t = "".join(e["s"])
            chk.violation("/".join(sorted(f)), "%s: %r gives %s %r" % (",".join(sorted(f)), t, e["st"], ["".join(x) for x in e["r"]]), {"event.json": lines[n] + "\n", "commands.txt": "hex " + t.encode().hex() + "\n", "driver.txt": exe + "\n"})
    tasks.append(lambda: run("all texts of white space, letter, comma, parentheses", ["all %d a,() " % n for n in range(0, 7 if full else 6)]))
    tasks.append(lambda: run("all balanced texts", ["bal %d a,()" % n for n in range(6, 10 if full else 8)]))
    tasks.append(lambda: run("all balanced texts", ["bal %d 1(), \t" % n for n in range(1, 7 if full else 6)]))
    tasks.append(lambda: run("all balanced texts of parentheses and commas", ["bal %d ,()" % n for n in range(8, 12 if full else 10)]))
    tasks.append(lambda: run("all balanced texts of parentheses and a letter", ["bal %d b()" % n for n in range(8, 14 if full else 12)]))
    tasks.append(lambda: run("all texts of parentheses", ["all %d ()" % n for n in range(6, 17 if full else 14)]))
    texts = [rand_list(rng, rng.randrange(0, 5)) for _ in range(6000 if full else 1500)]
    texts = [t for t in texts if len(t) < 400] + [x.replace("?", chr(c)) for c in range(1, 128) if chr(c) not in "(),"  for x in ("?", "1?2", "(?1,?)?", "?(?(3)?,4?)?,5?")]
    # the shapes of field and curve elements, any number of redundant parentheses around any part of them
    for _ in range(600 * (4 if full else 1)):
        def par(s): return "(" * (k := rng.choice([0, 0, 1, 2, 3, 5, 9])) + s + ")" * k
        f2 = lambda: par("%d,%d" % (rng.randrange(100), rng.randrange(100)))
        f6 = lambda: par("(%s),(%s),(%s)" % (f2(), f2(), f2()))
        texts.append(par(rng.choice([f2, f6, lambda: "(%s),(%s)" % (f6(), f6()), lambda: "()" * rng.randrange(0, 4), lambda: "(%s)" % f2() * rng.randrange(1, 4)])()))
    for n in (1, 2, 3, 10, 33, 100, 257):
        texts += ["(" * n + ")" * n, "(" * n + "1" + ")" * n, "(" * n + "1,2" + ")" * n, "(" * n + "(1),(2)" + ")" * n, "(1)" * n, ",".join(["7"] * n), ",".join(["(7,8)"] * n), "(" * n, ")" * n, ")" * n + "(" * n, " " * n, "," * n]
    # nested to depths around those that fit narrower numbers, with pieces at every kind of depth
    deep = []
    for n in (127, 128, 129, 255, 256, 257) + ((126, 254, 258, 511, 512, 513, 1024) if full else ()):
        o, c = "(" * n, ")" * n
        deep += [o + "1,2" + c + ",3", "3," + o + "1,2" + c, "(" + o + "1,2" + c + ",3)", "(" + o + "1,2" + c + ")", "(4," + o + "1,2" + c + ",3)", o + "1" + c + o + "2" + c, o + "1,2" + c[:-1] + ",5)", "(5," + o[1:] + "1,2" + c,
                 "((" + o + "1" + c + "),(" + o + c + "))", o + ",".join(")(" * 3) + c]
    tasks.append(lambda: run("deep texts", ["hex " + t.encode().hex() for t in deep], 12))
    tasks.append(lambda: run("texts made at random", ["hex " + t.encode().hex() for t in texts]))
    spread(tasks, chk)
    chk.assumptions = ["texts of ASCII digits, letters, commas, parentheses and white space", "of an unbalanced text only that the call ends, with pieces or an exception"]
    chk.finish()

# ---- C19, C20 -----------------------------------------------------------------------------------------------------
def le(v, n): return int(v).to_bytes(n, "little")
def make_file(ty, ver, secs):
    return ty + le(ver, 4) + le(len(secs), 4) + b"".join(le(i, 4) + le(len(d), 8) + d for i, d in secs)

def file_run(chk, what, hists):
    """hists: lists of command lines; one driver process plays them one after the other."""
    exe = io_driver("file")
    scratch = tempfile.mkdtemp(prefix="vp-io-")
    try:
        cmds = [c for h in hists for c in ["new 1"] + h]
        p = subprocess.run([exe, scratch], input="\n".join(cmds).encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:handle_abort=1:exitcode=77:allocator_may_return_null=1"))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    lines = p.stdout.decode(errors="replace").split("\n")
    last = lines.pop()                     # an event that was not completed
    if p.returncode:
        if p.returncode in (3, 4): raise ToolError("file driver: " + p.stderr.decode()[-300:])
        err = re.findall(r"ERROR: (.*)", p.stderr.decode(errors="replace"))
        lines.append(json.dumps({"k": "crash", "r": 1, "in": last[:80], "err": (err or [str(p.returncode)])[0][:120]}))
    # whole histories to a piece
    starts = [n for n, l in enumerate(lines) if l.startswith('{"k":"new"')]
    pieces, at = [], 0
    for a, b in zip(starts, starts[1:] + [len(lines)]):
        if b - at > 3000: pieces.append((at, b)); at = b
    if at < len(lines): pieces.append((at, len(lines)))
    def one(ab):
        ls = lines[ab[0]:ab[1]]
        r = run_tlc("BinTrace", "CONSTANT Readers = {1,2,3}\nINIT Init\nNEXT Next\n", {"TRACE": ls}, workers=1)
        if r.distinct != len(ls) and not r.rejects: raise ToolError("trace not fully explored: %d states for %d lines" % (r.distinct, len(ls)))
        chk.states(r)
        return ab[0], r.rejects
    for base, rej in parmap(one, pieces, 3):
        for k, f in sorted(rej.items()):
            n = base + k - 1
            if "plan" in f: raise ToolError("history outside the domain: %s" % lines[n][:300])
            e = json.loads(lines[n])
            a = max(x for x in starts if x <= n); h = starts.index(a)
            chk.violation("%s/%s" % (e["k"], "+".join(sorted(f))), "%s: %s not as specified (%s), after %s" % (what, lines[n][:400], ",".join(sorted(f)), "; ".join(c[:60] for c in hists[h][:n - a])),
                          {"history.ndjson": "\n".join(lines[a:n + 1]) + "\n", "commands.txt": "\n".join(["new 1"] + hists[h]) + "\n", "driver.txt": exe + "\n"})
    chk.cov["traces_validated_against_impl"] += len(starts)
    chk.cov["calls"] = chk.cov.get("calls", 0) + len(lines)
    if lines: chk.sample("%s: %d histories, %d calls, e.g. %s" % (what, len(hists), len(lines), "; ".join(c[:40] for c in hists[len(hists) // 2][:8])))

IDS = [0, 1, 2, 3, 4, 255, 256, 65537, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
def rand_secs(rng):
    ids = rng.sample(IDS, rng.randrange(1, 5))
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        n = rng.choice([0, 0, 1, 3, 4, 7, 8, 12, 16, 20, 41])
        out.append((rng.choice(ids), bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(n))))
    return ids, out

class Sim:
    """Keeps the generated calls inside the file (what they return is judged by the specification)."""
    def __init__(self, secs):
        self.secs, self.cur, self.used = secs, None, 0
        self.starts, at = [], 12
        for i, d in secs: self.starts.append(at + 12); at += 12 + len(d)
        self.size = at
    def nth(self, i, k):
        m = [n for n, (j, d) in enumerate(self.secs) if j == i]
        return m[k] if k < len(m) else None
    def room(self): return 0 if self.cur is None else self.size - self.starts[self.cur] - self.used

def rand_calls(rng, r, ids, sim, n):
    out = []
    some = lambda: rng.choice(ids) if rng.random() < 0.85 else rng.choice(IDS)
    for _ in range(n):
        x = rng.random()
        i, k = some(), rng.choice([0, 0, 0, 0, 1, 1, 2, 3, 2 ** 32 - 1])
        if sim.cur is None and x < 0.45 or x < 0.07:
            out.append("start %d %d %d" % (r, i, k))
            m = sim.nth(i, k)
            if sim.cur is None and m is not None: sim.cur, sim.used = m, 0
        elif x < 0.17: out.append("%s %d %d %d" % (rng.choice(["size", "data"]), r, i, k))
        elif sim.cur is None: out.append("end %d 1" % r)
        else:
            left = len(sim.secs[sim.cur][1]) - sim.used
            if x < 0.30 or left == 0 and x < 0.8:
                c = rng.choice([2, 1, 1, 0]) if left else rng.choice([2, 1])
                out.append("end %d %d" % (r, c))
                if c == 0 or left == 0: sim.cur = None
            else:
                opts = [("u32", 4), ("u64", 8), ("read", rng.randrange(0, 10)), ("read", max(left, 0))]
                good = [o for o in opts if o[1] <= (left if rng.random() < 0.93 else sim.room())] or [("read", 0)]
                o = rng.choice(good)
                out.append(o[0] + " %d" % r + (" %d" % o[1] if o[0] == "read" else ""))
                sim.used += o[1]
    return out

def op_line(r, src, ty, mx, data): return "open %d %s %s %d %s" % (r, src, ty, mx, data.hex())

def c19():
    chk = Check("C19")
    full = thorough()
    rng = random.Random("C19/%d" % SEED)
    tasks = []
    srcs = ["mem", "disk", "existing"]
    # every short history of the model
    files = [[(1, bytes(range(10, 14))), (2, bytes(range(40, 52))), (1, b"")], [(3, bytes([255] * 8)), (1, bytes(range(9))), (1, bytes([7] * 4)), (1, bytes(range(100, 103)))], []]
    def hist(length, sim):
        raw = [make_file(b"test", 1, f) for f in files]
        defs = "KF == %s\nKI == {%s}" % (lit([list(x) for x in raw]), ",".join(lit([i, 0, 0, 0]) for i in (1, 2, 3)))
        extra = ("-simulate", "num=%d" % sim, "-depth", str(length + 1), "-seed", str(SEED)) if sim else ()
        r = tlc("BinHist", "CONSTANTS Files <- KF Ids <- KI Length=%d\nINIT Init\nNEXT Next\nINVARIANT Printed\nINVARIANT Shape\nINVARIANT Whole\n" % length, defs=defs, extra=extra, check_ok=not sim, workers=1)
        if not sim: chk.states(r)
        flat_ = re.sub(r"\s+", " ", r.out)
        hs = sorted(set(re.findall(r'<< ?"HIST", (\d+), (<<.*?>> ?>>) ?>>', flat_)))
        if len(hs) < 10: raise ToolError("no histories generated: " + r.out[-600:])
        out = []
        for n, h in hs:
            f = int(n) - 1
            out.append([op_line(1, srcs[len(out) % 3], "test", 1, raw[f])] + ["%s 1 %s" % (o, a if o in ("end", "read") else "" if o in ("u32", "u64") else a + " " + b) for o, a, b in re.findall(r'<<"(\w+)", (\d+), (\d+)>>', h)])
        file_run(chk, "histories of the model of %d calls" % length, out)
    tasks.append(lambda: hist(2, 0))
    if full: tasks.append(lambda: hist(3, 0))
    for n in (5, 8, 14): tasks.append(lambda n=n: hist(n, 3000 if full else 250))
    # random files and calls
    def rand_hist(k):
        out = []
        for _ in range(k):
            ids, secs = rand_secs(rng)
            ty = rng.choice(["zkey", "wtns", "r1cs", "abcd"])
            ver, data = rng.choice([0, 1, 2, 255, 2 ** 31, 2 ** 32 - 1]), None
            data = make_file(ty.encode(), ver, secs)
            h = []
            y = rng.random()
            if y < 0.15:
                h.append(op_line(1, rng.choice(srcs), rng.choice(["zkez", "zkfy", "zley", "akey", "ZKEY", "wtnt"]), ver, data))
                h.append("missing 1")
            elif y < 0.3 and ver > 0: h.append(op_line(1, rng.choice(srcs), ty, rng.choice([0, ver - 1]), data))
            h.append(op_line(1, rng.choice(srcs), ty, rng.choice([ver, 2 ** 32 - 1, min(ver + 1, 2 ** 32 - 1)]), data))
            out.append(h + rand_calls(rng, 1, ids, Sim(secs), rng.choice([5, 15, 40])))
            if rng.random() < 0.3: out[-1].append("close 1")
        return out
    for j in range(6 if full else 3):
        hs = rand_hist(1500 if full else 250)
        tasks.append(lambda hs=hs: file_run(chk, "files and calls at random", hs))
    # several readers at once, used in turns
    hs = []
    for _ in range(600 if full else 80):
        h, parts = [], []
        for r in (1, 2, 3):
            ids, secs = rand_secs(rng)
            h.append(op_line(r, rng.choice(srcs), "zkey", 1, make_file(b"zkey", 1, secs)))
            parts.append(rand_calls(rng, r, ids, Sim(secs), 20))
        order = [r for r in range(3) for _ in parts[r]]; rng.shuffle(order)
        its = [iter(p) for p in parts]
        hs.append(h + [next(its[r]) for r in order])
    tasks.append(lambda: file_run(chk, "several readers", hs))
    # larger files
    big = []
    for n, size in ((300, 5), (40, 300), (3, 4000), (1, 9999)) + (((2000, 3), (5, 20000)) if full else ()):
        secs = [(rng.choice(IDS[:6]), bytes(rng.randrange(256) for _ in range(rng.randrange(size + 1)))) for _ in range(n)]
        sim = Sim(secs)
        big.append([op_line(1, rng.choice(srcs), "wtns", 7, make_file(b"wtns", 7, secs))] + rand_calls(rng, 1, IDS[:6], sim, 25))
    for n in (254, 255, 256, 257, 300) + ((65535, 65536, 65537) if full else ()):     # every section is found, however many there are
        secs = [(j if n < 1000 else rng.choice([1, 2, 3]), bytes([j % 256] * (j % 3))) for j in range(n)]
        big.append([op_line(1, srcs[n % 3], "wtns", 7, make_file(b"wtns", 7, secs))] + (["data 1 %d 0" % j for j in sorted(rng.sample(range(n), 20)) + [n - 1, n]] if n < 1000 else ["data 1 %d %d" % (i, j) for i in (1, 2, 3) for j in (0, n // 3 - 2000, n // 2)]))
        same = [(1 + (j == 5), bytes([j % 256] * (j % 3))) for j in range(n)]
        if n < 1000: big.append([op_line(1, srcs[n % 2], "zkey", 7, make_file(b"zkey", 7, same))] + ["%s 1 1 %d" % (o, j) for j in sorted(rng.sample(range(n), 10)) + [n - 3, n - 2, n - 1, n] for o in ("size", "data")] + ["start 1 1 %d" % (n - 2), "end 1 0"])
    tasks.append(lambda: file_run(chk, "larger files", big))
    # a type is its four bytes, whatever they are; what is asked for has to be those four
    odd = []
    for ty in (b"ab\0\0", b"\0\0\0\0", b"\0abc", b"zke\0", b"zkey", b"\xff\x80\x01\x7f"):
        for src in srcs:
            for want in ("zkey", "zke", "ab", "zkeyy", "zkey1", "abcd", "abc", "z"):
                odd.append([op_line(1, src, want, 3, make_file(ty, 3, [(1, b"abcdefgh")]))] + (["size 1 1 0", "data 1 1 0"] if want.encode() == ty else []))
    tasks.append(lambda: file_run(chk, "types of other bytes and lengths", odd))
    spread(tasks, chk)
    chk.assumptions = ["files are well formed: the directory covers exactly the bytes given", "reads stay inside the file and are made with a section open", "the copying helper, which is not in the repository, copies"]
    chk.finish()

def zkey_parts(rng, q, r, proto=1):
    b = lambda n: bytes(rng.choice([0, 255, rng.randrange(256), rng.randrange(256)]) for _ in range(n))
    u = lambda: le(rng.choice([0, 1, 255, 256, 65536, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, rng.randrange(2 ** 32)]), 4)
    two = le(q, 4) + b(q) + le(r, 4) + b(r) + u() + u() + u() + b(18 * q)
    n = rng.randrange(0, 6)
    four = b(n * (12 + r) + rng.choice([0, 0, 0, 4, rng.randrange(12 + r)]))
    return (1, le(proto, 4)), (2, two), (4, four)

def c20():
    chk = Check("C20")
    full = thorough()
    rng = random.Random("C20/%d" % SEED)
    tasks = []
    srcs = ["mem", "disk", "existing"]
    widths = [0, 1, 2, 3, 4, 7, 8, 9, 12, 16, 31, 32, 33, 40, 48, 64, 96, 130]
    def others(): return [(rng.choice([0, 3, 5, 6, 7, 8, 9, 10, 2 ** 32 - 1]), bytes(rng.randrange(256) for _ in range(rng.randrange(12)))) for _ in range(rng.randrange(4))]
    def mixed(secs, keep):
        secs = list(secs)
        if not keep: rng.shuffle(secs)
        return secs
    def use(ids, secs, n): return rand_calls(rng, 1, ids, Sim(secs), n)
    def zk(k):
        out = []
        for _ in range(k):
            q, r = rng.choice(widths), rng.choice(widths)
            y = rng.random()
            proto = 1 if y < 0.8 else rng.choice([0, 2, 10, 256, 257, 2 ** 24 + 1, 2 ** 31 + 1, 2 ** 32 - 1])
            parts = list(zkey_parts(rng, q, r, proto))
            if 0.6 < y < 0.75: del parts[rng.randrange(3)]
            # later occurrences of the same section do not count
            extra = others() + ([(rng.choice([1, 2, 4]), bytes(rng.randrange(20)))] if rng.random() < 0.3 else [])
            if any(i in (1, 2, 4) for i, _ in extra):
                parts = parts + extra
                if len({i for i, _ in parts if i in (1, 2, 4)} - {i for i, _ in parts[:len(parts) - len(extra)]}): continue
                secs = parts
            else: secs = mixed(parts + extra, rng.random() < 0.5)
            h = [op_line(1, rng.choice(srcs), "zkey", 1, make_file(b"zkey", 1, secs))]
            ids = sorted({i for i, _ in secs}) or [1]
            if rng.random() < 0.25:
                # not while a section is being read; that goes on undisturbed
                i = rng.choice(ids); d = [d for j, d in secs if j == i]
                if d: h += ["start 1 %d 0" % i, "zkey 1", "read 1 %d" % len(d[0]), "zkey 1", "end 1 2"]
            h += ["zkey 1"] * rng.choice([1, 1, 2])
            out.append(h + use(ids, secs, 6))
        return out
    def wt(k):
        out = []
        for _ in range(k):
            n = rng.choice(widths)
            one = le(n, 4) + bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(n)) + le(rng.choice([0, 1, 255, 65536, 2 ** 31, 2 ** 32 - 1, rng.randrange(2 ** 32)]), 4)
            secs = mixed([(1, one)] * (rng.random() < 0.9) + [(2, bytes(rng.randrange(256) for _ in range(n * 3)))] + others(), False)
            h = [op_line(1, rng.choice(srcs), "wtns", 2, make_file(b"wtns", 2, secs))]
            ids = sorted({i for i, _ in secs})
            if rng.random() < 0.25: h += ["start 1 2 0", "wtns 1", "read 1 %d" % (n * 3), "end 1 2"]
            h += ["wtns 1"] * rng.choice([1, 1, 2])
            out.append(h + use(ids, secs, 6))
        return out
    for j in range(4 if full else 2):
        a, b = zk(1500 if full else 250), wt(800 if full else 200)
        tasks.append(lambda a=a: file_run(chk, "proving keys", a))
        tasks.append(lambda b=b: file_run(chk, "witnesses", b))
    # every pair of widths, every small one
    pairs = []
    for q in (range(0, 70) if full else range(0, 36, 1)):
        r = rng.choice(widths); secs = list(zkey_parts(rng, q, r)); pairs.append([op_line(1, "mem", "zkey", 1, make_file(b"zkey", 1, secs)), "zkey 1", "start 1 4 0", "end 1 0"])
        secs = list(zkey_parts(rng, r, q)); pairs.append([op_line(1, "disk", "zkey", 1, make_file(b"zkey", 1, secs)), "zkey 1", "start 1 2 0", "end 1 0"])
    for q, r in ((255, 3), (256, 32), (257, 1), (2, 255), (32, 256), (8, 300), (300, 513)):      # wider than a byte counts
        pairs.append([op_line(1, "disk", "zkey", 1, make_file(b"zkey", 1, list(zkey_parts(rng, q, r)))), "zkey 1"])
    for n in (255, 256, 257, 1000, 65537) + ((65535, 65536, 70001) if full else ()):
        pairs.append([op_line(1, "mem", "wtns", 2, make_file(b"wtns", 2, [(1, le(n, 4) + bytes(rng.randrange(256) for _ in range(n)) + le(77, 4))])), "wtns 1"])
    tasks.append(lambda: file_run(chk, "all widths", pairs))
    # several files at once
    def several(k):
        out = []
        for _ in range(k):
            h = []
            z1, z2 = list(zkey_parts(rng, 32, 32)), list(zkey_parts(rng, rng.choice(widths), rng.choice(widths)))
            w = [(1, le(8, 4) + bytes(rng.randrange(256) for _ in range(8)) + le(rng.randrange(2 ** 32), 4))]
            h = [op_line(1, "mem", "zkey", 1, make_file(b"zkey", 1, z1)), op_line(2, "disk", "wtns", 2, make_file(b"wtns", 2, w)), op_line(3, "mem", "zkey", 1, make_file(b"zkey", 1, z2))]
            calls = ["zkey 1", "wtns 2", "zkey 3", "zkey 1"]; rng.shuffle(calls)
            out.append(h + calls + ["close 1", "zkey 3", "wtns 2"])
        return out
    sv = several(200 if full else 40)
    tasks.append(lambda: file_run(chk, "several files", sv))
    spread(tasks, chk)
    chk.assumptions = ["headers are well formed: sections 1 and 2 hold exactly the fields the format names", "the first section with each number counts", "the copying helper, which is not in the repository, copies"]
    chk.finish()

CHECKS = {"C18": c18, "C19": c19, "C20": c20}
