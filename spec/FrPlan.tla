------------------------------- MODULE FrPlan -------------------------------
(***************************************************************************)
(* Enumerates, from the specification, the operand grid the real code is     *)
(* run on: boundary residues x every legal representation x operations x     *)
(* aliasing patterns.  TLC writes the whole set to IOEnv.PLAN.               *)
(***************************************************************************)
EXTENDS FrSpec, Json, IOUtils, FiniteSets, SequencesExt

CONSTANTS Layer,      \* "tagged", "raw" or "class"
          Ops,        \* operations to plan
          Aliases,    \* subset of {"none", "r=a", "r=b", "a=b", "r=a=b"}
          Rich        \* TRUE: the full boundary set, FALSE: the core of it

Pow2(k) == BShl("1", k)
Limbs == 0..(N64 - 1)
InField(S) == {v \in S : BLt(v, Q)}
Around(x) == {BSub(x, "1"), x, BAdd(x, "1")}

Core == InField(
    {"0", "1", "2", BSub(Q, "1"), BSub(Q, "2")}
    \cup Around(Pow2(31)) \cup {Mod(BSub(Q, x)) : x \in Around(Pow2(31))}
    \cup {Half, BAdd(Half, "1")}
    \cup {BSub(Pow2(64 * N64 - 1), "1"), BSub(Pow2(64), "1"), RModQ})
Shifts == InField(
    UNION {{BInt(k), Mod(BSub(Q, BInt(k)))} : k \in {1, 30, 31, 32, 63, 64, 65, Bits - 1, Bits, Bits + 1} \cup {64 * j : j \in 1..N64} \cup {64 * j + 17 : j \in Limbs}})
\* limb patterns that drive carries and borrows through every position
Patterns == InField(
    UNION {Around(Pow2(64 * j)) : j \in 1..(N64 - 1)}
    \cup {BSub(Q, Pow2(64 * j)) : j \in 0..(N64 - 1)}
    \cup {BMod(BSub(Pow2(64 * N64), Pow2(64 * j)), Q) : j \in 0..(N64 - 1)}
    \cup {Mod(BParse(Rep("a", 16 * N64), 16)), Mod(BParse(Rep("5", 16 * N64), 16)), Mod(BParse(Rep("f", 16 * N64), 16))}
    \cup {Pow2(Bits - 1), BSub(Pow2(Bits - 1), "1"), BSub(Mask, Q)}
    \cup {BSub(Half, "1"), BAdd(Half, "2")} \cup Around(Pow2(32)) \cup Around(Pow2(63)) \cup {Mod(BSub(Q, x)) : x \in Around(Pow2(32)) \cup Around(Pow2(63))})

Values == IF Rich THEN Core \cup Patterns ELSE Core
Second(op) == IF op \in {"shl", "shr"} THEN Values \cup Shifts ELSE Values
First(op)  == IF op \in {"shl", "shr"} THEN Values \cup Shifts ELSE Values

\* every representation of a residue; parts without meaning are filled with junk
Junk == BSub(W, "1")
Reps(v) ==
    {[t |-> "80000000", s |-> "-1", l |-> v], [t |-> "c0000000", s |-> "77", l |-> ToMont(v)]}
    \cup (LET s == Signed(v) IN
          IF BLe(MinInt32, s) /\ BLe(s, MaxInt32)
          THEN {[t |-> "0", s |-> BFormat(s, 10), l |-> Junk], [t |-> "40000000", s |-> BFormat(s, 10), l |-> ToMont(v)]}
          ELSE {})
Elements(S) == UNION {{[v |-> v, e |-> r] : r \in Reps(v)} : v \in S}

TaggedPlan ==
    UNION {LET E1 == Elements(First(op)) E2 == Elements(Second(op)) IN
      IF op \in Binary
      THEN   {[op |-> op, al |-> al, a |-> x.e, b |-> y.e] : x \in E1, y \in E2, al \in Aliases \cap {"none", "r=a", "r=b"}}
        \cup {[op |-> op, al |-> al, a |-> x.e, b |-> x.e] : x \in E1, al \in Aliases \cap {"a=b", "r=a=b"}}
      ELSE   {[op |-> op, al |-> al, a |-> x.e, b |-> x.e] : x \in E1, al \in Aliases \cap {"none", "r=a"}}
      : op \in Ops}

\* drop the points where the operation is not defined
ValueOf(r) == IF r.t = "80000000" THEN r.l ELSE IF r.t = "c0000000" THEN FromMont(r.l) ELSE Mod(BParse(r.s, 10))
TaggedDefined(p) == Pre(p.op, ValueOf(p.a), ValueOf(IF p.al \in {"a=b", "r=a=b"} THEN p.a ELSE p.b))

\*------------------------------------------------------------------ raw layer
RawValues == Values \cup Patterns
Words == {"0", "1", "2", "7fffffff", "80000000", "ffffffff", "7fffffffffffffff", "8000000000000000", "ffffffffffffffff"}
RawSecond(op) ==
    CASE op \in {"rawAdd", "rawSub", "rawMMul", "rawIsEq", "rawSwap"} -> RawValues
      [] op = "rawMMul1" -> Words
      [] op \in {"rawShl", "rawShr"} -> {BInt(k) : k \in {k \in ({0, 1, 30, 31, 32, 63, 64, 65, Bits - 1} \cup {64 * j : j \in 1..N64} \cup {64 * j + 17 : j \in Limbs}) : k < Bits}}
      [] OTHER -> {"0"}
RawPlan ==
    UNION {IF op \in {"rawAdd", "rawSub", "rawMMul"}
           THEN   {[op |-> op, al |-> al, a |-> x, b |-> y] : x \in RawValues, y \in RawSecond(op), al \in Aliases \cap {"none", "r=a", "r=b"}}
             \cup {[op |-> op, al |-> al, a |-> x, b |-> x] : x \in RawValues, al \in Aliases \cap {"a=b", "r=a=b"}}
           ELSE   {[op |-> op, al |-> al, a |-> x, b |-> y] : x \in RawValues, y \in RawSecond(op),
                        al \in IF op \in {"rawIsEq", "rawSwap"} THEN Aliases \cap {"none"} ELSE IF op = "rawIsZero" THEN Aliases \cap {"none"} ELSE Aliases \cap {"none", "r=a"}}
             \cup (IF op \in {"rawIsEq", "rawSwap"} THEN {[op |-> op, al |-> al, a |-> x, b |-> x] : x \in RawValues, al \in Aliases \cap {"a=b"}} ELSE {})
      : op \in Ops}
      \* near-misses for equality and zero tests: one bit, every limb
      \cup (IF "rawIsEq" \in Ops THEN {[op |-> "rawIsEq", al |-> "none", a |-> x, b |-> y] : x \in {"0"} , y \in {BShl("1", k) : k \in {k \in UNION {{64 * j, 64 * j + 31, 64 * j + 32, 64 * j + 63} : j \in Limbs} : k < Bits - 1}}} ELSE {})
      \cup (IF "rawIsZero" \in Ops THEN {[op |-> "rawIsZero", al |-> "none", a |-> y, b |-> "0"] : y \in {BShl("1", k) : k \in {k \in UNION {{64 * j, 64 * j + 31, 64 * j + 32, 64 * j + 63} : j \in Limbs} : k < Bits - 1}}} ELSE {})

\*------------------------------------------------------------------ class layer (elements are Montgomery limbs)
ClassElts == {ToMont(v) : v \in Values}
Ints == {"0", "1", "2", "-1", "-2", "2147483647", "-2147483648", "123456789", "-987654321"}
Big == {"0", "1", Q, BAdd(Q, "1"), BSub(Q, "1"), BMul(Q, Q), BSub("0", "1"), BSub("0", Q), BSub(BSub("0", Q), "1"), W, BSub("0", W), Half}
Radices == {2, 3, 8, 10, 16, 32, 36}
ClassItem(op, al, a, b) == [op |-> op, al |-> al, a |-> a, b |-> b]
ClassPlan ==
    UNION {
      CASE op \in {"add", "sub", "mul", "div"} ->
                   {ClassItem(op, al, x, y) : x \in ClassElts, y \in ClassElts, al \in Aliases \cap {"none", "r=a", "r=b"}}
             \cup {ClassItem(op, al, x, x) : x \in ClassElts, al \in Aliases \cap {"a=b", "r=a=b"}}
        [] op \in {"vadd", "vsub", "vmul", "eq", "swap"} ->
                   {ClassItem(op, "none", x, y) : x \in ClassElts, y \in ClassElts} \cup {ClassItem(op, al, x, x) : x \in ClassElts, al \in Aliases \cap {"a=b"}}
        [] op \in {"neg", "square", "copy", "inv", "toMontgomery", "fromMontgomery"} -> {ClassItem(op, al, x, "0") : x \in ClassElts, al \in Aliases \cap {"none", "r=a"}}
        [] op \in {"vneg", "vsquare", "isZero", "toMpz"} -> {ClassItem(op, "none", x, "0") : x \in ClassElts}
        [] op \in {"zero", "one", "negOne", "bytes", "maxbits", "consts"} -> {ClassItem(op, "none", "0", "0")}
        [] op \in {"set", "set2"} -> {ClassItem(op, "none", k, "0") : k \in Ints}
        [] op = "fromUI" -> {ClassItem(op, "none", BFormat(k, 10), "0") : k \in Words}
        [] op = "mul1" -> {ClassItem(op, al, x, k) : x \in ClassElts, k \in Words, al \in Aliases \cap {"none", "r=a"}}
        [] op \in {"addi", "subi", "muli", "iadd", "isub", "imul"} -> {ClassItem(op, "none", x, k) : x \in ClassElts, k \in Ints}
        [] op = "fromString" -> {ClassItem(op, "none", BFormat(v, r), BFormat(BInt(r), 10)) : v \in Values \cup Big, r \in Radices}
        [] op = "toString" -> {ClassItem(op, "none", x, BFormat(BInt(r), 10)) : x \in ClassElts, r \in Radices}
        [] op = "fromMpz" -> {ClassItem(op, "none", v, "0") : v \in Values}
        [] op = "toRprBE" -> {ClassItem(op, "none", x, BFormat(BInt(n), 10)) : x \in ClassElts, n \in {0, NBytes - 1, NBytes, NBytes + 1, NBytes + 7}}
        [] op = "fromRprBE" -> {ClassItem(op, "none", Pad(v, 2 * NBytes) \o t, "0") : v \in Values, t \in {"", "ff", "0102030405"}} \cup {ClassItem(op, "none", Pad("1", 2 * NBytes - 2), "0")}
        [] op = "exp" -> {ClassItem(op, al, x, e) : x \in ClassElts, al \in Aliases \cap {"none", "r=a"},
                            e \in {"_", "00", "01", "02", "0300", "ff", "000000000000000001", "0000", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "efbeadde0df0adba"}}
      : op \in Ops}

Plan == CASE Layer = "tagged" -> {p \in TaggedPlan : TaggedDefined(p)}
          [] Layer = "raw" -> {p \in RawPlan : p.op \notin {"rawIsEq", "rawSwap"} \/ p.al # "a=b" \/ p.a = p.b}
          [] Layer = "class" -> ClassPlan
Items == SetToSeq(Plan)
ASSUME ndJsonSerialize(IOEnv.PLAN, Items)
ASSUME PrintT(<<"PLANNED", Len(Items)>>)

VARIABLE done
Init == done = FALSE
Next == done' = TRUE /\ done = FALSE
=============================================================================
