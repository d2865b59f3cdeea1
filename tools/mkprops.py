#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one place to edit the texts).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

ASM = ["src/fr.asm.ejs", "src/utils.asm.ejs", "src/copy.asm.ejs"]
GEN = ["src/fr_generic.cpp.ejs", "src/fr_raw_generic.cpp.ejs"]
ELT = [("tagged element", "{int32 shortVal, type tag, limbs}: short / short+Montgomery / long / long Montgomery", "src/fr_element.hpp.ejs")]
NOFIELD = "No stable test instantiates a generated field at all (the field tests need npm packages and tools that are absent), and even those sample a few hundred points of a space of (representation x value x limb pattern) combinations per operation."

p("C01", "Tagged field arithmetic yields the right residue for every representation",
  "For every supported prime and in every backend, add, sub, neg, mul and square of a generated field return an element whose value is the exact mathematical result modulo the prime, whatever mix of short, short-Montgomery, long and long-Montgomery representations the operands use.",
  ["inputs", "configurations"], "all pairs of field values x all legal representations of each x all fields the generator can emit (x86-64 assembly and portable C++)",
  NOFIELD, ASM + ["src/add.asm.ejs", "src/sub.asm.ejs", "src/neg.asm.ejs", "src/mul.asm.ejs"] + GEN,
  [("representation dispatch and short overflow handling", "src/add.asm.ejs, src/sub.asm.ejs, src/mul.asm.ejs, src/neg.asm.ejs"), ("portable dispatch", "src/fr_generic.cpp.ejs")], ELT, ["values of result elements"])

p("C02", "Representations are interchangeable, canonical, and operands are left intact",
  "Every element an operation produces is well formed (a legal tag, limbs below the prime, short and Montgomery parts in agreement), converting or copying an element between representations never changes its value and yields the representation asked for, and no operation changes anything but its declared result.",
  ["inputs", "histories"], "all elements in all representations, and all sequences of operations over a set of elements",
  NOFIELD, ASM + ["src/montgomery.asm.ejs"] + GEN,
  [("toNormal / toLongNormal / toMontgomery / copy / copyn", "src/montgomery.asm.ejs, src/utils.asm.ejs, src/copy.asm.ejs"), ("portable conversions", "src/fr_generic.cpp.ejs")], ELT, ["all bytes of result and operand elements"])

p("C03", "In-place and shared-operand calls compute what separate operands would",
  "Calling any field operation with its result aliasing one or both operands, or with the same element as both operands, gives the same value as calling it with distinct elements.",
  ["inputs"], "all tagged and raw field operations x all aliasing patterns x all representations and values",
  NOFIELD + " The existing harness never passes the same element twice.", ASM + ["src/add.asm.ejs", "src/sub.asm.ejs", "src/mul.asm.ejs", "src/binops.asm.ejs", "src/cmpops.asm.ejs"] + GEN,
  [("order of reads of the operands and writes of the result", "src/utils.asm.ejs, src/*.asm.ejs, src/fr_generic.cpp.ejs")], ELT)

p("C04", "Bitwise operations and shifts follow the circuit-language semantics",
  "and, or, xor act on the canonical non-negative values, not and left shift are truncated to the bit length of the prime, and each result is reduced once into the field; a shift count in the upper part of the field (a small negative number) shifts the other way and any count of at least the bit length gives zero.",
  ["inputs", "configurations"], "all operand values, representations and shift counts, for primes of any bit length including exact multiples of 64",
  NOFIELD, ASM + ["src/binops.asm.ejs"] + GEN,
  [("masked binary operations, shift normalisation", "src/binops.asm.ejs"), ("portable binary operations and shifts", "src/fr_generic.cpp.ejs, src/fr_raw_generic.cpp.ejs")], ELT)

p("C05", "Comparisons, logic operators and integer extraction agree with signed values",
  "Ordering comparisons order elements as signed numbers (values above half the prime are negative), equality is equality of values, logical operators and the truth test treat exactly zero as false and return 0 or 1, and extracting an int returns the signed value whenever it fits in 32 bits.",
  ["inputs"], "all pairs of values in all representations",
  NOFIELD, ASM + ["src/cmpops.asm.ejs", "src/logicalops.asm.ejs"] + GEN,
  [("signed comparison ladder", "src/cmpops.asm.ejs"), ("truth test", "src/logicalops.asm.ejs"), ("int extraction", "src/utils.asm.ejs"), ("portable versions", "src/fr_generic.cpp.ejs")], ELT)

p("C06", "Integer division, modulus, power, inverse and decimal text are exact",
  "Integer division and modulus act on canonical values, power raises to the canonical exponent modulo the prime, inverse and division satisfy x * inv(x) = 1, and decimal text of any integer (negative or larger than the prime) is parsed to its residue and printed back as the canonical decimal.",
  ["inputs"], "all elements in all representations, all decimal strings",
  NOFIELD, ["src/fr.cpp.ejs"],
  [("multi-precision bridge", "src/fr.cpp.ejs"), ("string conversion", "src/fr.cpp.ejs")])

p("C07", "Raw Montgomery arithmetic is exact and canonical for every prime",
  "For every prime the generator accepts, raw add, subtract, negate, Montgomery multiply, square, multiply-by-word and the conversions return the exactly reduced value below the prime for every pair of reduced inputs, and raw equality, zero test, copy, swap, and shifts are exact.",
  ["inputs", "configurations"], "all primes (1 to 12 limbs, with and without a spare top bit) x all reduced operands including carry-chain and final-subtraction boundaries",
  NOFIELD, ["src/montgomerybuilder.js", "src/buildzqfield.js", "src/fr.asm.ejs", "src/add.asm.ejs", "src/sub.asm.ejs", "src/copy.asm.ejs", "src/fr_raw_generic.cpp.ejs"],
  [("interleaved Montgomery product with optional carry elision", "src/montgomerybuilder.js"), ("choice of the carry-less variant", "src/buildzqfield.js"), ("portable raw layer", "src/fr_raw_generic.cpp.ejs")])

p("C08", "The raw field class converts faithfully in and out",
  "The field class maps integers, text in any radix, machine integers, big-endian bytes and big numbers to field elements and back without loss: parsing then printing yields the canonical residue, big-endian encode writes exactly the field width and decode inverts it, and inverse, division and exponentiation by a little-endian scalar of any length are exact; the published constants are the prime and the square and cube of the Montgomery radix.",
  ["inputs"], "all field elements, all radices, all scalar lengths and values, all buffer contents",
  NOFIELD, ["src/fr.cpp.ejs", "src/fr.hpp.ejs"],
  [("conversions", "src/fr.cpp.ejs"), ("exponentiation", "src/fr.cpp.ejs")])

p("C09", "The ARM64 backend computes exactly what the other backends compute",
  "For every prime, every routine of the generated ARM64 assembly, and the tagged field library built on it, returns the same value as the specification for every input, preserves the registers its calling convention requires it to preserve, and writes nothing but its result.",
  ["inputs", "configurations"], "all routines x all primes and widths x all operands",
  "ARM64 output cannot be executed by any test on this platform.", ["src/armbuilder.js", "src/fr_raw_arm64.s.ejs", "src/fr_generic.cpp.ejs"],
  [("code generator for raw ARM64 routines", "src/armbuilder.js")])

p("C10", "Scalar multiplication and signed-digit recoding are exact for any scalar",
  "Recoding a little-endian scalar yields digits in {-1,0,1} with no two adjacent non-zero digits whose weighted sum is the scalar, and multiplying a group element by a scalar of any byte length gives that multiple, also when result and base are the same object.",
  ["inputs"], "all scalars of all byte lengths; all group elements",
  "No stable test touches recoding or scalar multiplication; the group tests (not runnable here) use a handful of scalars.", ["c/naf.cpp", "c/naf.hpp", "c/exp.hpp"],
  [("table-driven recoding", "c/naf.cpp"), ("double-and-add loop", "c/exp.hpp")])

p("C11", "Curve operations implement the elliptic-curve group law",
  "Addition, subtraction, doubling, negation, comparison and conversion give the group-law result for every pair of points in every extended or affine representation and every operand/result form, including the point at infinity in any encoding, equal points, opposite points, points of order two and in-place calls.",
  ["inputs"], "all curves (any a coefficient, prime and quadratic base fields), all points and all their extended representations",
  "The existing curve tests check a few sums on one curve and never special representations or mixed-form overloads, and cannot be built here.", ["c/curve.cpp", "c/curve.hpp"],
  [("xyzz formulas and special cases", "c/curve.cpp"), ("mixed overloads", "c/curve.hpp")])

p("C12", "Bucketed multi-scalar multiplication equals the sum of the products",
  "For any number of bases and scalars of any size and any number of worker threads, the thread-pool multi-scalar multiplication returns the sum of scalar times base, including zero and repeated bases, opposite bases, zero and maximal scalars.",
  ["inputs", "configurations"], "all base lists, scalar lists, scalar byte sizes, window sizes and thread counts",
  "The existing test (not runnable here) uses one size with small scalars.", ["c/msm.cpp", "c/msm.hpp"],
  [("signed windows with carry, buckets, chunk recombination", "c/msm.cpp"), ("window extraction", "c/msm.hpp")])

p("C13", "Parallel multi-exponentiation equals the sum of the products",
  "For any number of bases, scalars of any size and any number of threads, parallel multi-exponentiation returns the sum of scalar times base, and its sectioned form sums exactly the bases lying inside their section; operands and the caller's OpenMP thread setting are left as they were.",
  ["inputs", "configurations", "schedules"], "all base lists, scalar lists, scalar byte sizes, section layouts and thread counts",
  "The existing test (not runnable here) uses one size with small scalars.", ["c/multiexp.cpp", "c/multiexp.hpp"],
  [("per-thread accumulators, pack, reduce", "c/multiexp.cpp"), ("window extraction", "c/multiexp.cpp")])

p("C14", "FFT is the discrete Fourier transform and IFFT its inverse",
  "For every power-of-two size up to the domain and every thread count, the forward transform in place gives the evaluations at the powers of a primitive root of that order, the inverse transform undoes it, and a domain larger than the field supports is refused.",
  ["inputs", "configurations"], "all vectors, sizes, domains, fields of any 2-adicity and thread counts",
  "The existing test (not runnable here) is one round trip, which a consistently wrong transform also passes.", ["c/fft.cpp", "c/fft.hpp"],
  [("root table built in parallel", "c/fft.cpp"), ("bit reversal, butterflies, inverse scaling", "c/fft.cpp")])

p("C15", "The thread pool runs every piece exactly once, waits for all, and never hangs",
  "A parallel loop runs every index of its range exactly once, a parallel block runs every worker id exactly once, neither returns before all pieces have finished, a pool can be reused any number of times and destroyed at any point after its calls return, and none of this can deadlock under any interleaving.",
  ["schedules", "histories", "configurations"], "all interleavings of callers and workers (including spurious and lost wakeups), all ranges, thread counts and call sequences",
  "No test touches the pool; a test observes one lucky interleaving per run.", ["c/misc.hpp", "c/misc.cpp"],
  [("submit / wait / worker loop", "c/misc.hpp"), ("work division", "c/misc.hpp")],
  [("task, stop", "hand-over slot of one worker", "c/misc.hpp")])

p("C16", "Parallel algorithms never let two workers touch the same data in one phase",
  "In the FFT, its set-up, and both multi-scalar algorithms, no element written by one worker during a parallel phase is read or written by another worker in the same phase, so results do not depend on thread count or interleaving.",
  ["schedules", "configurations"], "all thread counts, input sizes and interleavings",
  "A race shows as a wrong result only under a rare interleaving; no test exercises these paths.", ["c/fft.cpp", "c/msm.cpp", "c/multiexp.cpp", "c/misc.hpp"],
  [("index partitioning of each parallel phase", "c/fft.cpp, c/msm.cpp, c/multiexp.cpp")])

p("C17", "Extension-field arithmetic is exact throughout the tower",
  "In the quadratic extension (for any value of the square of its generator: non-residues, and also residues, one and zero), the sextic and the dodecic extension, add, sub, neg, double, multiply, square, invert, divide, scalar multiply, conjugation, exponentiation and text conversion agree with polynomial arithmetic modulo the defining polynomials, also in place, and the Frobenius maps equal raising to the first and second power of the base prime.",
  ["inputs", "configurations"], "all elements, all non-residues, all aliasing patterns",
  "The existing tower tests (not runnable here) check a few fixed elements with one non-residue.", ["c/f2field.cpp", "c/f6field.cpp", "c/f12field.cpp", "c/f2field.hpp", "c/f6field.hpp", "c/f12field.hpp", "c/alt_bn128.cpp", "c/alt_bn128.hpp"],
  [("Karatsuba and complex formulas", "c/f2field.cpp, c/f6field.cpp, c/f12field.cpp"), ("Frobenius constants", "c/f6field.cpp, c/f12field.cpp")])

p("C18", "Parenthesised lists are split at the top level, always terminating",
  "Splitting a balanced text at the top-level commas ignores white space and any redundant outer parentheses, preserves nested structure, returns one piece per top-level element, re-joins to the original content, and terminates on every input.",
  ["inputs"], "all strings over the alphabet of digits, letters, commas, parentheses and white space",
  "Six fixed strings are tested; the recursion and the parenthesis trimming depend on nesting shape and length.", ["c/splitparstr.cpp"],
  [("top-level scan and parenthesis removal", "c/splitparstr.cpp")])

p("C19", "Sectioned binary files are read back exactly, and misuse is refused",
  "Opening a sectioned file from memory or from disk exposes exactly its sections: lookups return the right bytes and size for every section id and occurrence, sequential reads inside a section return consecutive little-endian values, closing a section verifies that it was consumed exactly, and wrong type, too new version, missing section or overlapping reads raise an error and leave the reader usable.",
  ["histories", "inputs"], "all well-formed files and all call sequences on a reader",
  "No test covers the reader.", ["c/binfile_utils.cpp", "c/binfile_utils.hpp"],
  [("section table", "c/binfile_utils.cpp"), ("read cursor protocol", "c/binfile_utils.cpp")],
  [("pos, readingSection, sections", "cursor, open section, directory", "c/binfile_utils.hpp")])

p("C20", "Proving-key and witness headers are decoded field by field",
  "Loading a proving-key or witness header yields exactly the primes, sizes, counts and key material stored in the file for any prime widths, derives the coefficient count from its section, rejects other protocols, and leaves the reader ready for further sections.",
  ["inputs", "histories"], "all well-formed headers with any prime width and any surrounding sections",
  "No test covers header parsing.", ["c/zkey_utils.cpp", "c/wtns_utils.cpp"],
  [("header layout", "c/zkey_utils.cpp, c/wtns_utils.cpp")])

p("C21", "The bn128 engine is the standard BN254 setting",
  "The fields, towers and groups the bn128 engine offers, as namespace objects and through the engine object, are those of alt_bn128: base and scalar prime, u^2 = -1, t^3 = 9 + u, w^2 = t, the curve y^2 = x^3 + 3 with generator (1, 2), its sextic twist with the published generator, both generators of the scalar prime's order, in either backend; multiples of the generators are those of the standard.",
  ["inputs", "configurations"], "both sets of objects, both groups, both backends, all multiples of the generators",
  "The existing test (not runnable here without generated fields) checks one pairing of small multiples and never compares the constants with their definition; a wrong curve or generator satisfies every group law.",
  ["c/alt_bn128.cpp", "c/alt_bn128.hpp"], [("parameters of the namespace objects", "c/alt_bn128.cpp"), ("parameters of the engine object", "c/alt_bn128.hpp")])

p("C22", "Generated fields are complete, reproducible and independent",
  "Asking the generator for a field yields all seven parts (x86-64 assembly, header, element header, C++ layer, generic layer, raw generic layer, ARM64 assembly), identical for the same prime whatever was or is being generated otherwise and, up to renaming, whatever the field is called; the command writes exactly the files the name and the output options determine; every part is accepted by its assembler or compiler for any prime width and name, and the objects of each backend define, once, everything the header declares; and fields of different names in one program each behave exactly as when alone.",
  ["histories", "inputs", "configurations"], "all histories of requests made in turn or at once, all primes and names, all option sets, all interleavings of operations on several fields",
  "Tests generate one field per process and build one field per program; state shared between requests, between parts or between fields shows only in combination.",
  ["src/buildzqfield.js", "src/fr.hpp.ejs", "src/fr.cpp.ejs", "src/armbuilder.js", "index.js"],
  [("request handling and command line", "src/buildzqfield.js"), ("names and linkage of generated symbols", "src/*.ejs, src/armbuilder.js")])

p("C23", "Calls give back every resource they take",
  "A call that makes nothing leaves the memory blocks, file descriptors, mappings and threads held exactly as it found them, also when it is refused part-way; what a constructor or factory takes belongs to the object it makes, and the end of that object gives all of it back, once and in the way it was taken; using an object repeatedly in the same way does not make it hold more.",
  ["histories", "fault_sequences"], "all histories of calls on fields, towers, curves, transforms, pools, files and headers, including refusals at every stage",
  "Lost blocks and descriptors change no result: no test observes them, and a long-running prover does.",
  ["c/fft.cpp", "c/misc.cpp", "c/multiexp.cpp", "c/msm.cpp", "c/binfile_utils.cpp", "c/zkey_utils.cpp", "c/wtns_utils.cpp", "src/fr.cpp.ejs"],
  [("staged constructors", "c/fft.cpp, c/misc.cpp, c/binfile_utils.cpp"), ("header factories", "c/zkey_utils.cpp, c/wtns_utils.cpp"), ("temporary big numbers", "src/fr.cpp.ejs")],
  [("what is held", "blocks, descriptors, mappings, threads and the object each belongs to", "c/*")])

p("C24", "Calls from different threads on different objects do not disturb each other",
  "Threads that use elements, points, engines, fields, curves, pools, readers and headers of their own, sharing only the field and curve objects nobody changes, need no synchronisation: no call writes memory another thread's call can reach, and every thread gets the results it would get alone, in either backend.",
  ["schedules", "programs"], "all interleavings of all programs of calls in any number of threads, each on objects of its own",
  "Tests call from one thread; a static temporary or a lazily built table gives right results until two calls overlap.",
  ["src/fr.cpp.ejs", "src/fr_raw_generic.cpp.ejs", "src/fr.asm.ejs", "c/naf.cpp", "c/exp.hpp", "c/curve.cpp", "c/f2field.cpp", "c/splitparstr.cpp", "c/misc.hpp", "c/binfile_utils.cpp"],
  [("statics", "src/fr.cpp.ejs, src/fr_raw_generic.cpp.ejs, c/naf.cpp, c/alt_bn128.cpp"), ("temporaries", "c/*, src/*")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
