------------------------------- MODULE FrSpec -------------------------------
(***************************************************************************)
(* What the generated field library promises, for one prime Q of N64 limbs. *)
(*                                                                         *)
(* Abstract values are residues 0..Q-1 (BigNum strings).  A concrete        *)
(* element is a record [rt, rs, rl]: representation tag, the 32-bit short   *)
(* part (decimal text) and the limbs (BigNum).  Value maps a well-formed    *)
(* element to its residue.  Tagged(op, x, y) is the residue each operation   *)
(* of the tagged library must produce; Raw and Class give the same for the  *)
(* raw (Montgomery-limb) layer and the C++ field class.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigNum, TLC

CONSTANTS Q,      \* the prime, hexadecimal
          N64     \* number of 64-bit limbs

Bits  == BBits(Q)
W     == BShl("1", 64 * N64)             \* 2^(64 N64), the Montgomery radix
RModQ == BMod(W, Q)
RInv  == BInvMod(RModQ, Q)
Mask  == BSub(BShl("1", Bits), "1")
Half  == BShr(BSub(Q, "1"), 1)           \* (Q-1)/2: largest value that counts as positive
MinInt32 == BSub("0", BShl("1", 31))
MaxInt32 == BSub(BShl("1", 31), "1")

Mod(x)      == BMod(x, Q)
AddQ(x, y)  == Mod(BAdd(x, y))
SubQ(x, y)  == Mod(BSub(x, y))
MulQ(x, y)  == Mod(BMul(x, y))
NegQ(x)     == Mod(BSub("0", x))
InvQ(x)     == BInvMod(x, Q)
ToMont(x)   == MulQ(x, RModQ)
FromMont(x) == MulQ(x, RInv)
Signed(x)   == IF BLt(Half, x) THEN BSub(x, Q) ELSE x
Fold(x)     == IF BLe(Q, x) THEN BSub(x, Q) ELSE x      \* one conditional subtraction
Bool(b)     == IF b THEN "1" ELSE "0"

(*************************** elements *********************************)
Tags == {"S", "SM", "L", "LM"}

WellFormed(e) ==
    /\ e.rt \in Tags
    /\ e.rt \in {"L", "LM"} => BLt(e.rl, Q)
    /\ e.rt = "SM" => e.rl = ToMont(Mod(BParse(e.rs, 10)))

Value(e) == CASE e.rt = "L"  -> e.rl
              [] e.rt = "LM" -> FromMont(e.rl)
              [] OTHER       -> Mod(BParse(e.rs, 10))

(*************************** tagged operations ************************)
\* A shift count is a field element: below the bit length it shifts that way, Q-k with k below the bit
\* length shifts k the other way, anything else clears the value.
ShlBy(x, k) == Fold(BAnd(BShl(x, k), Mask))
ShrBy(x, k) == BShr(x, k)
Shift(x, y, left) ==
    LET b == BInt(Bits) ny == NegQ(y) IN
    CASE BLt(y, b)  -> IF left THEN ShlBy(x, BToInt(y)) ELSE ShrBy(x, BToInt(y))
      [] BLt(ny, b) -> IF left THEN ShrBy(x, BToInt(ny)) ELSE ShlBy(x, BToInt(ny))
      [] OTHER      -> "0"

Binary == {"add", "sub", "mul", "band", "bor", "bxor", "shl", "shr", "eq", "neq", "lt", "gt", "leq", "geq",
           "land", "lor", "idiv", "mod", "div", "pow"}
Unary  == {"neg", "square", "bnot", "lnot", "copy", "toNormal", "toLongNormal", "toMontgomery", "inv"}
Query  == {"isTrue", "toInt", "toStr"}
BoolOps == {"eq", "neq", "lt", "gt", "leq", "geq", "land", "lor", "lnot"}

\* where an operation is defined
Pre(op, x, y) ==
    CASE op \in {"idiv", "mod", "div"} -> y # "0"
      [] op = "inv"   -> x # "0"
      [] op = "toInt" -> BLe(MinInt32, Signed(x)) /\ BLe(Signed(x), MaxInt32)
      [] OTHER        -> TRUE

Tagged(op, x, y) ==
    CASE op = "add"    -> AddQ(x, y)
      [] op = "sub"    -> SubQ(x, y)
      [] op = "mul"    -> MulQ(x, y)
      [] op = "neg"    -> NegQ(x)
      [] op = "square" -> MulQ(x, x)
      [] op = "band"   -> Fold(BAnd(x, y))
      [] op = "bor"    -> Fold(BOr(x, y))
      [] op = "bxor"   -> Fold(BXor(x, y))
      [] op = "bnot"   -> Fold(BXor(x, Mask))
      [] op = "shl"    -> Shift(x, y, TRUE)
      [] op = "shr"    -> Shift(x, y, FALSE)
      [] op = "eq"     -> Bool(x = y)
      [] op = "neq"    -> Bool(x # y)
      [] op = "lt"     -> Bool(BLt(Signed(x), Signed(y)))
      [] op = "gt"     -> Bool(BLt(Signed(y), Signed(x)))
      [] op = "leq"    -> Bool(BLe(Signed(x), Signed(y)))
      [] op = "geq"    -> Bool(BLe(Signed(y), Signed(x)))
      [] op = "land"   -> Bool(x # "0" /\ y # "0")
      [] op = "lor"    -> Bool(x # "0" \/ y # "0")
      [] op = "lnot"   -> Bool(x = "0")
      [] op = "idiv"   -> BDiv(x, y)
      [] op = "mod"    -> BMod(x, y)
      [] op = "div"    -> MulQ(x, InvQ(y))
      [] op = "inv"    -> InvQ(x)
      [] op = "pow"    -> BPowMod(x, y, Q)
      [] op \in {"copy", "toNormal", "toLongNormal", "toMontgomery"} -> x

\* representation the result must have, ta = tag of the operand
ResultTags(op, ta) ==
    CASE op = "toNormal"     -> IF ta = "SM" THEN {"S", "SM"} ELSE {"S", "L"}   \* the short part of SM is already normal
      [] op = "toLongNormal" -> {"L"}
      [] op = "toMontgomery" -> {"SM", "LM"}
      [] op = "copy"         -> {ta}
      [] OTHER               -> Tags

\* text/integer answers of the queries
QueryOK(op, x, out) ==
    CASE op = "isTrue" -> (out # "0") = (x # "0")
      [] op = "toInt"  -> BParse(out, 10) = Signed(x)
      [] op = "toStr"  -> out = BFormat(x, 10)

(*************************** raw layer ********************************)
\* a and b are limb vectors as numbers below Q (a word for the mixed forms)
RawDefined(op, a, b) ==
    CASE op \in {"rawShl", "rawShr"} -> BLt(b, BInt(Bits))
      [] OTHER -> TRUE

RawResult(op, a, b) ==
    CASE op = "rawAdd" -> AddQ(a, b)
      [] op = "rawSub" -> SubQ(a, b)
      [] op = "rawNeg" -> NegQ(a)
      [] op = "rawCopy" -> a
      [] op = "rawMMul" -> FromMont(MulQ(a, b))
      [] op = "rawMSquare" -> FromMont(MulQ(a, a))
      [] op = "rawMMul1" -> FromMont(MulQ(a, b))
      [] op = "rawToMontgomery" -> ToMont(a)
      [] op = "rawFromMontgomery" -> FromMont(a)
      [] op = "rawShl" -> ShlBy(a, BToInt(b))
      [] op = "rawShr" -> ShrBy(a, BToInt(b))
      [] op = "rawSwap" -> b
      [] op = "rawAddLS" -> AddQ(a, b)
      [] op = "rawSubLS" -> SubQ(a, b)
      [] op = "rawSubSL" -> SubQ(a, b)
      [] op = "rawNegLS" -> NegQ(AddQ(a, b))
      [] op = "rawAnd" -> Fold(BAnd(a, b))
      [] op = "rawOr" -> Fold(BOr(a, b))
      [] op = "rawXor" -> Fold(BXor(a, b))
      [] op = "rawNot" -> Fold(BXor(a, Mask))
      [] op = "rawSubRegular" -> BMod(BSub(a, b), W)
      [] op = "rawCopyS2L" -> Mod(IF BBit(a, 63) = 1 THEN BSub(a, BShl("1", 64)) ELSE a)

RawOut(op, a, b, out) ==
    CASE op = "rawIsEq" -> (out # "0") = (a = b)
      [] op = "rawIsZero" -> (out # "0") = (a = "0")
      [] op = "rawSwap" -> out = a
      [] op = "rawCmp" -> LET s == BParse(out, 10) IN IF a = b THEN s = "0" ELSE IF BLt(a, b) THEN BLt(s, "0") ELSE BLt("0", s)
      [] OTHER -> TRUE
RawQueries == {"rawIsEq", "rawIsZero", "rawCmp"}

(*************************** field class ******************************)
\* elements are Montgomery limbs; V recovers the residue
V(l) == FromMont(l)
M(x) == ToMont(Mod(x))
ClassValue(op, a, b) ==     \* residue of the result, for operations returning an element
    CASE op \in {"add", "vadd"} -> AddQ(V(a), V(b))
      [] op \in {"sub", "vsub"} -> SubQ(V(a), V(b))
      [] op \in {"mul", "vmul"} -> MulQ(V(a), V(b))
      [] op \in {"neg", "vneg"} -> NegQ(V(a))
      [] op \in {"square", "vsquare"} -> MulQ(V(a), V(a))
      [] op = "copy" -> V(a)
      [] op = "swap" -> V(b)
      [] op = "div" -> MulQ(V(a), InvQ(V(b)))
      [] op = "inv" -> InvQ(V(a))
      [] op = "toMontgomery" -> V(ToMont(a))
      [] op = "fromMontgomery" -> V(FromMont(a))
      [] op = "fromString" -> Mod(BParse(a, BToInt(BParse(b, 10))))
      [] op \in {"set", "set2"} -> Mod(BParse(a, 10))
      [] op = "fromUI" -> Mod(BParse(a, 10))
      [] op = "fromMpz" -> Mod(a)
      [] op = "zero" -> "0"
      [] op = "one" -> "1"
      [] op = "negOne" -> BSub(Q, "1")
      [] op = "exp" -> BPowMod(V(a), BBytesLE(b), Q)
      [] op \in {"addi", "iadd"} -> AddQ(V(a), Mod(BParse(b, 10)))
      [] op = "subi" -> SubQ(V(a), Mod(BParse(b, 10)))
      [] op = "isub" -> SubQ(Mod(BParse(b, 10)), V(a))
      [] op \in {"muli", "imul"} -> MulQ(V(a), Mod(BParse(b, 10)))
      [] op = "mul1" -> V(FromMont(MulQ(a, b)))
      [] op = "fromRprBE" -> Mod(BParse(a, 16))

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)
Pad(s, n) == Rep("0", n - Len(s)) \o s
NBytes == 8 * N64
ClassOut(op, a, b, out) ==
    CASE op = "toString" -> out = BFormat(V(a), BToInt(BParse(b, 10)))
      [] op = "toMpz" -> out = V(a)
      [] op = "eq" -> out = Bool(a = b)
      [] op = "isZero" -> out = Bool(a = "0")
      [] op = "swap" -> out = a
      [] op = "bytes" -> out = ToString(NBytes)
      [] op = "maxbits" -> out = ToString(Bits)
      \* the published constants: long numbers holding the prime and the powers of the Montgomery radix used to convert
      [] op = "consts" -> out = "80000000:0:" \o Q \o ",80000000:0:" \o ToMont(ToMont("1")) \o ",80000000:0:" \o ToMont(ToMont(ToMont("1")))
      \* exactly NBytes big-endian bytes are written, the rest of the buffer (marked ee) is untouched
      [] op = "toRprBE" ->
            LET n == BToInt(BParse(b, 10)) IN
            IF n < NBytes THEN out = "-" \o ToString(NBytes) \o ":" \o Rep("ee", n + 16)
            ELSE out = ToString(NBytes) \o ":" \o Pad(V(a), 2 * NBytes) \o Rep("ee", n + 16 - NBytes)
      [] op = "fromRprBE" -> IF Len(a) < 2 * NBytes THEN out = "-" \o ToString(NBytes) \o ":same" ELSE out = ToString(NBytes)
      [] OTHER -> TRUE
ClassQueries == {"toString", "toMpz", "eq", "isZero", "bytes", "maxbits", "consts", "toRprBE"}
=============================================================================
