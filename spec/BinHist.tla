-------------------------------- MODULE BinHist --------------------------------
(***************************************************************************)
(* Histories of calls on a reader, one of the files given; printed in full     *)
(* length to be played on the real reader, and the reader of BinFile.tla       *)
(* checked along the way.                                                  *)
(***************************************************************************)
EXTENDS BinFile, TLC
CONSTANTS Files, Ids, Length
VARIABLES s, hist, f
vars == <<s, hist, f>>
Init == f \in 1..Len(Files) /\ s = Fresh(Files[f]) /\ hist = <<>>
Log(x) == hist' = Append(hist, x) /\ UNCHANGED f
Start == \E id \in Ids, k \in 0..2 : Log(<<"start", Val(id), k>>) /\ s' = IF MayStart(s, id, k) THEN Started(s, id, k) ELSE s
End == \E c \in {0, 1} : (c = 1 \/ Reading(s)) /\ Log(<<"end", c, 0>>) /\ s' = IF MayEnd(s, c = 1) THEN Ended(s) ELSE s
Read == \E o \in {<<"u32", 4, 0>>, <<"u64", 8, 0>>, <<"read", 0, 0>>, <<"read", 1, 0>>, <<"read", 3, 0>>} :
           LET n == o[2] IN Readable(s, n) /\ Log(o) /\ s' = Moved(s, n)
Look == \E id \in Ids, k \in 0..2, o \in {"size", "data"} : Log(<<o, Val(id), k>>) /\ UNCHANGED s
Next == Len(hist) < Length /\ (Start \/ End \/ Read \/ Look)
Printed == Len(hist) = Length => PrintT(<<"HIST", f, hist>>)
Shape == /\ WellFormed(Files[f])
         /\ Reading(s) => \E j \in 1..Len(s.secs) : s.secs[j] = s.cur[1]
         /\ ~Reading(s) => s.used = 0
         /\ \A j \in 1..Len(s.secs) : s.secs[j].at + s.secs[j].size <= Len(s.file)
         \* the sections with their heads are the file
         /\ s.secs # <<>> => LET l == s.secs[Len(s.secs)] IN l.at + l.size = Len(s.file)
\* reading a section from start to end gives its bytes
Whole == \A j \in 1..Len(s.secs) : LET x == s.secs[j] k == Len(SelectSeq(SubSeq(s.secs, 1, j - 1), LAMBDA y : y.id = x.id)) IN
            Data(s, x.id, k) = Take(s.file, x.at, x.size) /\ Size(s, x.id, k) = x.size /\ (~Reading(s) => Next_(Started(s, x.id, k), x.size) = Data(s, x.id, k) /\ MayEnd(Moved(Started(s, x.id, k), x.size), TRUE))
=============================================================================
