-------------------------------- MODULE BinFile --------------------------------
(***************************************************************************)
(* A sectioned file and the state machine of a reader.  Bytes are 0..255;      *)
(* 32 and 64 bit values are sequences of their bytes, lowest first.          *)
(***************************************************************************)
EXTENDS Integers, Sequences
None == <<>>
Take(b, at, n) == SubSeq(b, at + 1, at + n)
\* a small value; a large one is out of range of any file
Val(v) == IF \E j \in 4..Len(v) : v[j] > 0 THEN 16777216 ELSE v[1] + 256 * v[2] + 65536 * v[3]
RECURSIVE Above(_, _)
Above(a, b) == IF a = <<>> THEN FALSE ELSE LET n == Len(a) IN IF a[n] = b[n] THEN Above(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1)) ELSE a[n] > b[n]
\* the n bytes of a value
Bytes(v, n) == [j \in 1..n |-> IF j > 4 THEN 0 ELSE (v \div 256 ^ (j - 1)) % 256]
Type(b) == Take(b, 0, 4)
Version(b) == Take(b, 4, 4)
NSec(b) == Val(Take(b, 8, 4))
\* the directory: identifier, place and size of every section in file order
RECURSIVE Dir(_, _, _)
Dir(b, at, n) == IF n = 0 THEN <<>> ELSE LET size == Val(Take(b, at + 4, 8)) IN <<[id |-> Take(b, at, 4), at |-> at + 12, size |-> size]>> \o Dir(b, at + 12 + size, n - 1)
RECURSIVE Fits(_, _, _)
Fits(b, at, n) == IF n = 0 THEN at = Len(b) ELSE at + 12 <= Len(b) /\ LET size == Val(Take(b, at + 4, 8)) IN at + 12 + size <= Len(b) /\ Fits(b, at + 12 + size, n - 1)
WellFormed(b) == Len(b) >= 12 /\ NSec(b) < 16777216 /\ Fits(b, 12, NSec(b))
Opens(b, ty, max) == Type(b) = ty /\ ~Above(Version(b), max)
\* the k-th (from 0) section with an identifier, in file order
Having(secs, id) == SelectSeq(secs, LAMBDA s : s.id = id)
Has(secs, id, k) == k < Len(Having(secs, id))
Sec(secs, id, k) == Having(secs, id)[k + 1]

\* ---- a reader: the file, its directory, the section being read and how much of it was taken
Closed == [file |-> None, secs |-> <<>>, cur |-> None, used |-> 0]
Fresh(b) == [file |-> b, secs |-> Dir(b, 12, NSec(b)), cur |-> None, used |-> 0]
Reading(s) == s.cur # None
MayStart(s, id, k) == Has(s.secs, id, k) /\ ~Reading(s)
Started(s, id, k) == [s EXCEPT !.cur = <<Sec(s.secs, id, k)>>, !.used = 0]
MayEnd(s, check) == Reading(s) /\ (check => s.used = s.cur[1].size)
Ended(s) == [s EXCEPT !.cur = None, !.used = 0]
\* what a read of n bytes gives
At(s) == s.cur[1].at + s.used
Readable(s, n) == Reading(s) /\ At(s) + n <= Len(s.file)
Next_(s, n) == Take(s.file, At(s), n)
Moved(s, n) == [s EXCEPT !.used = @ + n]
Data(s, id, k) == LET x == Sec(s.secs, id, k) IN Take(s.file, x.at, x.size)
Size(s, id, k) == Sec(s.secs, id, k).size

\* ---- headers
U32(n) == Bytes(n, 4)
\* fields of a header: consecutive pieces of a section, each of a length that may depend on the earlier ones
Piece(b, at, n) == Take(b, at, n)
ZSec(s) == Data(s, U32(2), 0)
ZQ(s) == Val(Take(ZSec(s), 0, 4))
ZR(s) == Val(Take(ZSec(s), 4 + ZQ(s), 4))
ZRest(s) == 8 + ZQ(s) + ZR(s)
ZProtocol(s) == Data(s, U32(1), 0)
ZHasSections(s) == Has(s.secs, U32(1), 0) /\ Has(s.secs, U32(2), 0) /\ Has(s.secs, U32(4), 0)
\* the lengths fit exactly
ZShape(s) == /\ Has(s.secs, U32(1), 0) => Size(s, U32(1), 0) = 4
             /\ Has(s.secs, U32(2), 0) => /\ Size(s, U32(2), 0) >= 8
                                          /\ Size(s, U32(2), 0) >= 8 + ZQ(s)
                                          /\ Size(s, U32(2), 0) = 20 + 19 * ZQ(s) + ZR(s)
ZLoads(s) == ~Reading(s) /\ ZHasSections(s) /\ ZProtocol(s) = U32(1)
Zkey(s) == LET b == ZSec(s) q == ZQ(s) r == ZR(s) c == ZRest(s) k == c + 12 IN
    [n8q |-> U32(q), q |-> Take(b, 4, q), n8r |-> U32(r), p |-> Take(b, 8 + q, r), nVars |-> Take(b, c, 4), nPublic |-> Take(b, c + 4, 4), domain |-> Take(b, c + 8, 4),
     nCoefs |-> Bytes(Size(s, U32(4), 0) \div (12 + r), 8),
     alpha1 |-> Take(b, k, 2 * q), beta1 |-> Take(b, k + 2 * q, 2 * q), beta2 |-> Take(b, k + 4 * q, 4 * q), gamma2 |-> Take(b, k + 8 * q, 4 * q), delta1 |-> Take(b, k + 12 * q, 2 * q), delta2 |-> Take(b, k + 14 * q, 4 * q)]
WSec(s) == Data(s, U32(1), 0)
WShape(s) == Has(s.secs, U32(1), 0) => Size(s, U32(1), 0) >= 8 /\ Size(s, U32(1), 0) = 8 + Val(Take(WSec(s), 0, 4))
WLoads(s) == ~Reading(s) /\ Has(s.secs, U32(1), 0)
Wtns(s) == LET b == WSec(s) n == Val(Take(b, 0, 4)) IN [n8 |-> U32(n), p |-> Take(b, 4, n), nVars |-> Take(b, 4 + n, 4)]
=============================================================================
