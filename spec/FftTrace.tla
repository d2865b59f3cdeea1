------------------------------- MODULE FftTrace -------------------------------
(***************************************************************************)
(* Transforms of the real code: every event must satisfy the definition.      *)
(* The state is the domain the object was built for, none after a refusal.   *)
(***************************************************************************)
EXTENDS Dft, FiniteSets, Json, IOUtils, TLC
CONSTANT Adicity       \* the largest d such that 2^d divides the order of the multiplicative group
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, dom
None == -1
Init == i = 0 /\ dom = None
If(c, name) == IF c THEN {} ELSE {name}
Log2Of(n) == CHOOSE d \in 0..31 : 2 ^ d <= n /\ (d = 30 \/ n < 2 ^ (d + 1))
Size(e) == e.n = 2 ^ e.d /\ Len(e.in) = e.n /\ Len(e.mid) = e.n /\ Len(e.out) = e.n
Transformed(x, y, w) == y = Fast(x, w)
\* the value at k of the transform of a vector with the entries vs at js (indices from zero), nothing elsewhere
RECURSIVE SparseAt(_, _, _, _, _, _)
SparseAt(js, vs, w, k, n, m) == IF m = 0 THEN FZero ELSE FAdd(SparseAt(js, vs, w, k, n, m - 1), FMul(vs[m], FPow(FPow(w, js[m]), k)))
Sparse(e) == LET n == 2 ^ e.d winv == FPow(e.w1, n - 1) count == FPow(FAdd(FOne, FOne), e.d) IN
    /\ Primitive(e.w1, e.d) /\ e.same = 1 /\ Len(e.f) = Len(e.ks) /\ Len(e.g) = Len(e.ks) /\ Len(e.r) = Len(e.ks)
    /\ \A m \in 1..Len(e.ks) : /\ e.f[m] = SparseAt(e.js, e.vs, e.w1, e.ks[m], n, Len(e.js))
                               /\ FMul(count, e.g[m]) = SparseAt(e.js, e.vs, winv, e.ks[m], n, Len(e.js))
                               /\ e.r[m] = FPow(e.w1, e.ks[m])
Value(e) ==
    CASE e.k = "obj" -> e.o = (IF e.d > Adicity THEN "range" ELSE "ok")
      [] e.k = "log2" -> \A n \in 1..Len(e.o) : e.o[n] = Log2Of(n)
      [] e.k = "root" -> /\ Len(e.w) = 2 ^ e.d /\ e.w[1] = FOne
                         /\ e.d > 0 => Primitive(e.w[2], e.d) /\ e.w = Powers(e.w[2], Len(e.w), <<FOne>>)
      [] e.k = "fft"  -> Size(e) /\ Primitive(e.w1, e.d) /\ Transformed(e.in, e.out, e.w1) /\ e.mid = e.out
      [] e.k = "ifft" -> Size(e) /\ Primitive(e.w1, e.d) /\ Transformed(e.out, e.in, e.w1)
      [] e.k = "both" -> Size(e) /\ Primitive(e.w1, e.d) /\ Transformed(e.in, e.mid, e.w1) /\ e.out = e.in
      [] e.k = "sparse" -> Sparse(e)
      [] OTHER -> FALSE
\* a transform is asked for only up to the size of the domain
Planned(e) == e.k \in {"fft", "ifft", "both", "root", "sparse"} => dom # None /\ e.d <= dom
Fails(e) == CASE e.k = "crash" -> {"crash"}
              [] e.k = "noncanon" -> {"form"}
              [] OTHER -> If(Planned(e), "plan") \cup If(("sig" \in DOMAIN e) => e.sig = 0, "crash") \cup If(("cl" \in DOMAIN e) => e.cl = 0, "intact")
                          \cup (IF ("sig" \in DOMAIN e) /\ e.sig # 0 THEN {} ELSE If(Value(e), "value"))
Next == /\ i < Len(Trace)
        /\ LET e == Trace[i + 1] f == Fails(e) IN
             /\ IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i + 1, f>>)
             /\ dom' = IF e.k = "obj" THEN (IF e.o = "ok" THEN e.d ELSE None) ELSE dom
        /\ i' = i + 1
TypeOK == dom \in {None} \cup 0..64
=============================================================================
