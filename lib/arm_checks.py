"""C09: the generated ARM64 assembly, run in an A64 emulator, against the same specification as the other backends."""
from field_checks import *
import vp

def c09():
    chk = Check("C09")
    primes = QUICK_PRIMES + MORE_PRIMES
    cnt = lambda e, f: True
    rawp = primes + ["small33"]
    tasks = []
    T = thorough()
    tasks += grid_tasks(chk, "raw", {p: (RAW, True) for p in (rawp if T else ["bn128r", "goldilocks", "edge2lo", "edge2hi", "bls12381q", "mnt6753q"])}, ALL_AL if T else ["none"], cnt, bes=["arm"])
    tasks += grid_tasks(chk, "tagged", {p: (ARITH + BITS + CMP + CONV + ["idiv", "mod", "toStr"], False) for p in (primes if T else ["bn128r"])}, ["none"], cnt, bes=["arm"])
    for p in rawp:
        rng = random.Random("C09/%d/%s" % (SEED, p))
        n = 60000 if T else 5000
        if p == "mnt6753q": n //= 4
        cmds = rnd_raw(rng, p, RAW + ["rawMMul"] * 6 + ["rawMMul1"] * 2, n, ALL_AL + ["none"] * 4)
        if p != "small33":
            cmds += rnd_raw(rng, p, HELPERS, n)
            cmds += rnd_pairs(rng, p, ARITH * 3 + BITS + CMP + NUM + CONV, n // 2, ["none"] * 3 + ["r=a", "r=b", "a=b", "r=a=b"])
            cmds += rnd_class(rng, p, n // 8)
        cmds += one_word(rng, p, RAW + (HELPERS if p != "small33" else []))
        tasks.append((p, "arm", with_sessions(cmds), cnt))
    for p in WIDE:
        rng = random.Random("C09w/%d/%s" % (SEED, p))
        cmds = rnd_raw(rng, p, RAW + ["rawMMul"] * 6 + ["rawMMul1"] * 2, 20000 if T else 1000, ALL_AL + ["none"] * 4) + rnd_raw(rng, p, HELPERS, 20000 if T else 600) + one_word(rng, p, RAW + HELPERS)
        tasks.append((p, "arm", with_sessions(cmds), cnt))
    run_tasks(chk, tasks)
    chk.assumptions = ["the A64 interpreter (harness/cpp/a64emu.cpp) implements the instructions it accepts correctly (tools/a64selftest.py compares it with compiled C)",
                       "operands are reduced and short operands fit, as for the other backends"]
    chk.finish()

CHECKS = {"C09": c09}
