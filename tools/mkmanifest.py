"""Writes MANIFEST.json: every property whose check exists is claimed, the others are listed with a reason."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
CL = {}
for m in ("field_checks", "arm_checks", "group_checks", "par_checks", "io_checks", "gen_checks", "own_checks"):
    if os.path.exists(os.path.join(V, "lib", m + ".py")):
        for k in __import__(m).CHECKS: CL[k] = m
OWN = {"C24": ("TLA+ model of threads with objects of their own checked by TLC; sessions run side by side under a cooperative scheduler, traces of accesses and results validated by TLC (vector clocks); the assembly with its statics read-only",
               "All pairs of 14 kinds of session and random ones; races are found whatever the schedule, results compared under sampled switches at memory accesses; memory touched inside uninstrumented libraries other than GMP's operands is not seen.")}
TECH = {
    "field_checks": "TLA+ specification of field, representations and operations; TLC-generated behaviours replayed on the generated code and recorded traces validated by TLC",
    "arm_checks": "the same TLA+ specification; traces of the emulated ARM64 routines validated by TLC",
    "group_checks": "TLA+ specification over toy and real fields; TLC-generated inputs replayed on the templates, traces validated by TLC",
    "par_checks": "TLA+ model of threads, locks and conditions checked by TLC over all interleavings; schedules enforced on and traces recorded from the real code, validated by TLC",
    "gen_checks": "TLA+ model of the generator's requests and files; TLC-enumerated histories replayed on the real generator, answers, files and traces of several linked fields validated by TLC",
    "own_checks": "TLA+ model of a ledger of resources and their owners; TLC-generated histories of calls replayed on the real code with every taking and giving back recorded and validated by TLC",
    "io_checks": "TLA+ specification of the file/text format and reader state machine; TLC-generated behaviours replayed on the real code, traces validated by TLC",
}
NOTE = {
    "field_checks": "Bounded: every operation on a TLC-enumerated operand grid plus seeded random operands and programs, over 15 primes and both the x86-64 assembly and the generic C++ backend; trusts TLC and the Java big-number override (cross-checked against pure TLA+ in BigNumCheck).",
    "arm_checks": "Bounded as the field checks; additionally trusts the A64 emulator written for this check and clang's assembler.",
    "group_checks": "Exhaustive over small fields/groups, sampled over the real ones; trusts TLC.",
    "par_checks": "Exhaustive for small worker counts in the model; implementation schedules enumerated/sampled under a cooperative scheduler; trusts the scheduler shim.",
    "gen_checks": "Histories exhaustive up to three requests over two primes and two names, both orders; 34 primes built; two sets of coexisting fields; trusts the stand-ins for ejs, big-integer and yargs.",
    "own_checks": "Histories sampled by TLC, every constructor's refusals included, with and without OpenMP; trusts the interposed allocation, descriptor and thread calls; failing allocations are not simulated.",
    "io_checks": "Exhaustive over small files/texts up to the stated bounds, sampled beyond; trusts TLC.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CL:
        m["checks"].append({"property": i, "quick_cmd": "python3 lib/run.py %s quick" % i, "thorough_cmd": "python3 lib/run.py %s thorough" % i,
                            "technique": OWN[i][0] if i in OWN else TECH[CL[i]], "level": "model_checking", "level_note": OWN[i][1] if i in OWN else NOTE[CL[i]]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
