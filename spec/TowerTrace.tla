------------------------------ MODULE TowerTrace ------------------------------
(* Every recorded evaluation of an extension-field operation agrees with Tower.tla. *)
EXTENDS Tower, BigNum, Json, IOUtils, FiniteSets, TLC
CONSTANTS FDec(_, _),    \* text of a base element in a radix
          FParse(_),     \* base element denoted by a decimal text
          FrobL(_, _)    \* the p-th power map by level
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 0

RECURSIVE Text(_, _, _)
Text(l, a, r) == CASE l = 1 -> FDec(a, r)
    [] l = 2 -> "(" \o Text(1, a[1], r) \o "," \o Text(1, a[2], r) \o ")"
    [] l = 6 -> "(" \o Text(2, a[1], r) \o "," \o Text(2, a[2], r) \o "," \o Text(2, a[3], r) \o ")"
    [] l = 12 -> "(" \o Text(6, a[1], r) \o "," \o Text(6, a[2], r) \o ")"

Below(l) == CASE l = 6 -> 2 [] l = 12 -> 6
\* mulg: a base element times every F2 coefficient
ScalG(a, s) == <<Scal2(a[1], s), Scal2(a[2], s), Scal2(a[3], s)>>
BinOK(e, b, r) ==
    CASE e.op = "add" -> r = AddL(e.l, e.a, b)
      [] e.op = "sub" -> r = SubL(e.l, e.a, b)
      [] e.op = "mul" -> r = MulL(e.l, e.a, b)
      [] e.op = "div" -> Unit(e.l, b) => MulL(e.l, r, b) = e.a
      [] e.op = "eq"  -> (r = 1) <=> (e.a = b)
      [] e.op = "muls" -> r = ScalL(e.l, e.a, b)
      [] e.op = "mulg" -> r = ScalG(e.a, b)
UnOK(e, a, r) ==
    CASE e.op = "neg"  -> r = SubL(e.l, Zero(e.l), a)
      [] e.op = "copy" -> r = a
      [] e.op = "square" -> r = MulL(e.l, a, a)
      [] e.op = "dbl"  -> r = AddL(e.l, a, a)
      [] e.op = "inv"  -> Unit(e.l, a) => MulL(e.l, r, a) = One(e.l)
      [] e.op = "conj" -> r = ConjL(e.l, a)
      [] e.op = "mulXi" -> r = Mul2(Xi, a)
      [] e.op = "mulTau" -> r = Mul6(Tau6, a)
      [] e.op = "frob" -> r = FrobL(e.l, a)
      [] e.op = "frob2" -> r = FrobL(e.l, FrobL(e.l, a))
      [] e.op = "isz"  -> (r = 1) <=> (a = Zero(e.l))
      [] e.op = "iso"  -> (r = 1) <=> (a = One(e.l))
RECURSIVE ParseOf(_, _)
\* p: the pieces of a text as the plan cut it, nested like the element
ParseOf(l, p) == CASE l = 1 -> FParse(p) [] l = 2 -> <<ParseOf(1, p[1]), ParseOf(1, p[2])>>
    [] l = 6 -> <<ParseOf(2, p[1]), ParseOf(2, p[2]), ParseOf(2, p[3])>> [] l = 12 -> <<ParseOf(6, p[1]), ParseOf(6, p[2])>>
OK(e) ==
    CASE e.k = "bin" -> Len(e.rs) = Len(e.bs) /\ \A j \in 1..Len(e.bs) : BinOK(e, e.bs[j], e.rs[j])
      [] e.k = "un"  -> Len(e.rs) = Len(e.as) /\ \A j \in 1..Len(e.as) : UnOK(e, e.as[j], e.rs[j])
      [] e.k = "exp" -> e.r = PowL(e.l, e.a, BBytesLE(e.s))
      [] e.k = "str" -> e.t = Text(e.l, e.a, 10) /\ e.d = e.t /\ e.u = Text(e.l, e.a, 16) /\ e.r = e.a
      [] e.k = "parse" -> e.r = ParseOf(e.l, e.p)
      [] e.k = "const" -> e.z = Zero(e.l) /\ e.o = One(e.l) /\ e.n = SubL(e.l, Zero(e.l), One(e.l))
Fails(e) == CASE e.k = "crash" -> {"crash"} [] e.k = "clobber" -> {"intact"} [] e.k = "noncanon" -> {"form"}
              [] OTHER -> IF OK(e) THEN {} ELSE {"value"}
Next == /\ i < Len(Trace)
        /\ LET f == Fails(Trace[i + 1]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i + 1, f>>)
        /\ i' = i + 1
=============================================================================
