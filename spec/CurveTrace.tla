------------------------------ MODULE CurveTrace ------------------------------
(***************************************************************************)
(* Register machine over a Curve object of the real code.  The abstract     *)
(* state maps every register to a point of the group of EC.tla; every event *)
(* recorded from the code must be a step of this machine.                   *)
(*                                                                         *)
(* Events: op2/op1/eq/isz  one operation on a table of stored operands      *)
(*         (all representations and aliasings), the results in one event;   *)
(*         set/add/.../mul  one step of a walk over the registers;          *)
(*         msm/mex/sec      a multi-scalar multiplication.                  *)
(***************************************************************************)
EXTENDS EC, BigNum, Json, IOUtils, FiniteSets, TLC

CONSTANTS GenX, GenY,    \* the generator handed to the constructor
          Order,         \* BigNum: every point times Order is infinity
          FDec(_, _)     \* text of an element in a radix as the code prints it

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pts
vars == <<i, pts>>
Regs == {"P0", "P1", "P2", "P3", "P4", "P5", "P6", "P7", "A0", "A1", "A2", "A3"}
IsNew(n) == Trace[n].k = "new"
Init == i \in {n \in 1..Len(Trace) : IsNew(n)} /\ pts = [r \in Regs |-> Inf]
If(c, name) == IF c THEN {} ELSE {name}

Op2(op, p, q) == IF op = "add" THEN Add(p, q) ELSE Sub(p, q)
Op1(op, p) == CASE op = "dbl" -> Add(p, p) [] op = "neg" -> Neg(p) [] op = "copy" -> p

Table2OK(e) == LET a == Of(e.a) IN
    Len(e.rs) = Len(e.bs) /\ \A j \in 1..Len(e.bs) : Stores(e.rs[j], Op2(e.op, a, Of(e.bs[j])))
Table1OK(e) == Len(e.rs) = Len(e.as) /\ \A j \in 1..Len(e.as) : Stores(e.rs[j], Op1(e.op, Of(e.as[j])))
TableEqOK(e) == LET a == Of(e.a) IN
    Len(e.rs) = Len(e.bs) /\ \A j \in 1..Len(e.bs) : (e.rs[j] = 1) <=> (a = Of(e.bs[j]))
TableIszOK(e) == Len(e.rs) = Len(e.as) /\ \A j \in 1..Len(e.as) : (e.rs[j] = 1) <=> (Of(e.as[j]) = Inf)

\* first failing entry of a table event, for the report
FirstBad(e) == IF e.k = "op2" THEN CHOOSE j \in 1..Len(e.bs) : ~Stores(e.rs[j], Op2(e.op, Of(e.a), Of(e.bs[j])))
               ELSE IF e.k = "op1" THEN CHOOSE j \in 1..Len(e.as) : ~Stores(e.rs[j], Op1(e.op, Of(e.as[j])))
               ELSE IF e.k = "eq" THEN CHOOSE j \in 1..Len(e.bs) : ~((e.rs[j] = 1) <=> (Of(e.a) = Of(e.bs[j])))
               ELSE 0

Gen == <<GenX, GenY>>
ConstOK(e) == /\ Stores(e.z, Inf) /\ Stores(e.za, Inf) /\ Stores(e.g, Gen) /\ Stores(e.ga, Gen)
              /\ e.a = CA /\ e.b = CB /\ On(Gen)

Scalar(h) == BBytesLE(h)
Text(p, r) == LET s == IF p = Inf THEN <<FZero, FZero>> ELSE p IN "(" \o FDec(s[1], r) \o "," \o FDec(s[2], r) \o ")"

\* sum over the selected indices of scalar * base
RECURSIVE SumTo(_, _, _)
SumTo(e, n, S) == IF n = 0 THEN Inf
    ELSE LET h == SumTo(e, n - 1, S) IN
         IF n \in S THEN Add(h, Mul(BMod(Scalar(e.sc[n]), Order), Of(e.bs[n]))) ELSE h
\* element n (from 1) lies in column (n-1) mod nx, at height (n-1) div nx; a column of size s holds heights 0..s-1
InSection(e, n) == (n - 1) \div Len(e.x) < e.x[((n - 1) % Len(e.x)) + 1]
MsmOK(e) == Stores(e.v, SumTo(e, e.n, IF e.k = "sec" THEN {n \in 1..e.n : InSection(e, n)} ELSE 1..e.n))

StepOK(e) ==
    CASE e.k \in {"add", "sub"} -> Stores(e.v, Op2(e.k, pts[e.a], pts[e.b]))
      [] e.k \in {"dbl", "neg", "copy"} -> Stores(e.v, Op1(e.k, pts[e.a]))
      [] e.k = "mul" -> Stores(e.v, Mul(Scalar(e.s), pts[e.a]))
      [] e.k = "eq"  -> (e.o = 1) <=> (pts[e.a] = pts[e.b])
      [] e.k = "isz" -> (e.o = 1) <=> (pts[e.a] = Inf)
      [] e.k = "str" -> e.t = Text(pts[e.a], e.o)

Fails(e) ==
    CASE e.k = "set"   -> If(On(Of(e.v)), "plan")
      [] e.k = "op2"   -> If(Table2OK(e), "value")
      [] e.k = "op1"   -> If(Table1OK(e), "value")
      [] e.k = "eq" /\ "bs" \in DOMAIN e -> If(TableEqOK(e), "value")
      [] e.k = "isz" /\ "as" \in DOMAIN e -> If(TableIszOK(e), "value")
      [] e.k = "const" -> If(ConstOK(e), "value")
      [] e.k = "crash" -> {"crash"}
      [] e.k = "clobber" -> {"intact"}
      [] e.k = "noncanon" -> {"form"}
      [] e.k \in {"msm", "mex", "sec"} -> If(e.sig = 0, "crash") \cup If(e.cl = 0, "intact") \cup (IF e.sig = 0 THEN If(MsmOK(e), "value") ELSE {})
      [] OTHER -> If(e.sig = 0, "crash") \cup If(e.cl = 0, "intact") \cup (IF e.sig = 0 THEN If(StepOK(e), "value") ELSE {})

\* the walk goes on from the point the code produced
Resync(s) == LET p == Of(s) IN IF On(p) THEN p ELSE Inf
After(e) == IF "r" \in DOMAIN e /\ e.k \in {"set", "add", "sub", "dbl", "neg", "copy", "mul"} THEN [pts EXCEPT ![e.r] = Resync(e.v)] ELSE pts

Next == /\ i < Len(Trace)
        /\ ~IsNew(i + 1)
        /\ LET e == Trace[i + 1]
               f == Fails(e) IN
             /\ IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i + 1, f>>)
             /\ i' = i + 1
             /\ pts' = After(e)
Spec == Init /\ [][Next]_vars
\* every register holds a point of the curve
TypeOK == \A r \in Regs : On(pts[r])
=============================================================================
