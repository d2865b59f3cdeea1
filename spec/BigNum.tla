------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Integers of unbounded size for TLC, whose own integers are 32-bit.      *)
(*                                                                         *)
(* A big number is a string: lower-case hexadecimal without leading zeros, *)
(* "-" in front of a negative number ("0", "1f", "-3").  The operators are *)
(* evaluated by java/BigNumOverrides.java (java.math.BigInteger); their    *)
(* meaning is stated in BigNumCheck.tla, where TLC compares every operator *)
(* with a definition in plain TLA+ integers over a range of small numbers. *)
(* Without the override an application is an error, never a wrong value.   *)
(***************************************************************************)
LOCAL INSTANCE TLC

LOCAL Undefined == Assert(FALSE, "BigNum operators need BigNumOverrides on the class path")

BInt(i)          == Undefined  \* TLC integer -> big number
BToInt(x)        == Undefined  \* big number -> TLC integer (error if it does not fit)
BAdd(x, y)       == Undefined
BSub(x, y)       == Undefined
BMul(x, y)       == Undefined
BDiv(x, y)       == Undefined  \* floor division, y > 0
BMod(x, y)       == Undefined  \* in 0..y-1, y > 0
BAnd(x, y)       == Undefined  \* bitwise, non-negative operands
BOr(x, y)        == Undefined
BXor(x, y)       == Undefined
BShl(x, k)       == Undefined  \* x * 2^k, k a TLC integer
BShr(x, k)       == Undefined  \* floor(x / 2^k)
BLt(x, y)        == Undefined
BLe(x, y)        == Undefined
BBits(x)         == Undefined  \* bit length of a non-negative number, as TLC integer
BBit(x, k)       == Undefined  \* bit k, 0 or 1
BPowMod(x, e, m) == Undefined
BInvMod(x, m)    == Undefined  \* x^-1 mod m, x coprime to m
BParse(s, r)     == Undefined  \* text in radix r (2..36) -> big number
BFormat(x, r)    == Undefined  \* big number -> text in radix r, lower case
BBytesLE(s)      == Undefined  \* hex text of bytes in memory order -> number, first byte least significant
=============================================================================
