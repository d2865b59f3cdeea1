------------------------------ MODULE FrTrace ------------------------------
(***************************************************************************)
(* Register machine over the generated field library, driven by a trace     *)
(* recorded from the real code.  The abstract state maps each register to   *)
(* its residue; every event must be a step of FrSpec from that state.       *)
(*                                                                         *)
(* A trace file holds many sessions, each starting with a "new" event; every *)
(* session is one behaviour (one initial state).  For an event that is not a *)
(* legal step the set of broken obligations is printed with its line number  *)
(* (REJECT), and the session goes on from what the code produced, so that    *)
(* the rest of the trace is checked too.                                     *)
(*                                                                         *)
(* Obligations:  value   the residue (or answer) is the specified one        *)
(*               form    the element is well formed                          *)
(*               rep     it has the representation asked for                 *)
(*               intact  nothing but the result was changed (operands, other *)
(*                       registers, memory around them, callee-saved machine *)
(*                       registers)                                          *)
(*               crash   the call returned normally                          *)
(***************************************************************************)
EXTENDS FrSpec, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, regs      \* line consumed last; register -> residue ("?" = never set)
vars == <<i, regs>>

NoRegs == [r \in 0..7 |-> "?"]
IsNew(n) == Trace[n].k = "new"
Starts == {n \in 1..Len(Trace) : IsNew(n)}

Init == i \in Starts /\ regs = NoRegs

If(c, name) == IF c THEN {} ELSE {name}
Common(e) == If(e.cl = "" /\ e.br = "", "intact") \cup If(e.sig = 0, "crash")
Res(e) == [rt |-> e.rt, rs |-> e.rs, rl |-> e.rl]
Elt(t, s, l) == [rt |-> t, rs |-> s, rl |-> l]

\* obligations of a tagged operation with operand residues x, y and operand tag ta
OpFails(e, x, y, ta) ==
    IF ~Pre(e.op, x, y) THEN {}
    ELSE Common(e) \cup
         (IF e.sig # 0 THEN {"value"}
          ELSE IF e.op \in Query THEN If(QueryOK(e.op, x, e.o), "value")
          ELSE If(WellFormed(Res(e)), "form")
               \cup If(e.rt \in Tags /\ Value(Res(e)) = Tagged(e.op, x, y), "value")
               \cup If(e.op \in BoolOps => e.rt = "S", "form")
               \cup If(e.op \in Unary => e.rt \in ResultTags(e.op, ta), "rep"))

GridFails(e) ==
    LET x == Value(Elt(e.at, e.as, e.av))
        y == IF e.al \in {3, 4} THEN x ELSE Value(Elt(e.bt, e.bs, e.bv)) IN
    OpFails(e, x, IF e.op \in Binary THEN y ELSE "0", e.at)

\* the same operation with and without aliasing: equal values, and the aliased one well formed if the other is
AliasFails(e) ==
    LET x == Value(Elt(e.at, e.as, e.av))
        y == IF e.al \in {3, 4} THEN x ELSE Value(Elt(e.bt, e.bs, e.bv))
        u == Elt(e.ut, e.us, e.ul) IN
    IF ~Pre(e.op, x, IF e.op \in Binary THEN y ELSE "0") \/ e.us_ # 0 \/ ~WellFormed(u) THEN {}
    ELSE If(e.cl = "" /\ e.br = "", "intact") \cup If(e.sig = 0, "crash")
         \cup (IF e.op \in Query THEN If(e.o = e.uo, "value")
               ELSE If(WellFormed(Res(e)), "form") \cup If(e.rt \in Tags /\ Value(Res(e)) = Value(u), "value"))

CopynFails(e) ==
    Common(e) \cup If(e.o = "", "intact")
    \cup UNION {If(WellFormed(e.rs[j]), "form") \cup If(e.rs[j].rt \in Tags /\ Value(e.rs[j]) = regs[e.a + j - 1], "value") : j \in 1..e.n}

StrFails(e) == Common(e) \cup If(WellFormed(Res(e)), "form") \cup If(e.rt \in Tags /\ Value(Res(e)) = Mod(BParse(e.txt, 10)), "value")

TwoRaw == {"rawAdd", "rawSub", "rawMMul", "rawIsEq", "rawSwap", "rawCmp", "rawAnd", "rawOr", "rawXor", "rawSubRegular"}
RawFails(e) ==
    LET b == IF e.al \in {3, 4} /\ e.op \in TwoRaw THEN e.a ELSE e.b IN
    IF ~RawDefined(e.op, e.a, b) THEN {}
    ELSE Common(e) \cup
         (IF e.op \in RawQueries THEN If(RawOut(e.op, e.a, b, e.o), "value")
          ELSE If(e.r = RawResult(e.op, e.a, b) /\ RawOut(e.op, e.a, b, e.o), "value"))

TwoArg == {"add", "sub", "mul", "vadd", "vsub", "vmul", "div", "swap", "eq"}
ClassDefined(op, a, b) == CASE op = "div" -> b # "0" [] op = "inv" -> a # "0" [] OTHER -> TRUE
ClassFails(e) ==
    LET b == IF e.al \in {3, 4} /\ e.op \in TwoArg THEN e.a ELSE e.b IN
    IF ~ClassDefined(e.op, e.a, b) THEN {}
    ELSE Common(e) \cup
         If(/\ ClassOut(e.op, e.a, b, e.o)
            /\ IF e.op \in ClassQueries \/ (e.op = "fromRprBE" /\ Len(e.a) < 2 * NBytes) THEN TRUE
               ELSE BLt(e.r, Q) /\ V(e.r) = ClassValue(e.op, IF e.op = "fromRprBE" THEN SubSeq(e.a, 1, 2 * NBytes) ELSE e.a, b),
            "value")

Fails(e) ==
    CASE e.k = "load"  -> If(WellFormed(Res(e)), "plan")
      [] e.k = "op"    -> OpFails(e, regs[e.a], IF e.op \in Binary THEN regs[e.b] ELSE "0", e.ta)
      [] e.k = "g"     -> GridFails(e)
      [] e.k = "a"     -> AliasFails(e)
      [] e.k = "copyn" -> CopynFails(e)
      [] e.k = "str"   -> StrFails(e)
      [] e.k = "raw"   -> RawFails(e)
      [] e.k = "class" -> ClassFails(e)
      [] e.k = "skip"  -> {}

Resync(e) == IF e.rt \in Tags /\ (e.rt \in {"L", "LM"} => BLt(e.rl, Q)) THEN Value(e) ELSE "0"

After(e) ==
    CASE e.k \in {"load", "str"} -> [regs EXCEPT ![e.d] = Resync(Res(e))]
      [] e.k = "op"    -> IF e.op \in Query THEN regs ELSE [regs EXCEPT ![e.d] = Resync(Res(e))]
      [] e.k = "copyn" -> [r \in 0..7 |-> IF r >= e.d /\ r < e.d + e.n THEN Resync(e.rs[r - e.d + 1]) ELSE regs[r]]
      [] OTHER         -> regs

Next ==
    /\ i < Len(Trace)
    /\ ~IsNew(i + 1)
    /\ LET e == Trace[i + 1]
           f == Fails(e) IN
         /\ IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i + 1, f>>)
         /\ i' = i + 1
         /\ regs' = After(e)

Spec == Init /\ [][Next]_vars
\* every register the machine knows holds a residue
TypeOK == \A r \in 0..7 : regs[r] = "?" \/ (BLe("0", regs[r]) /\ BLt(regs[r], Q))
=============================================================================
