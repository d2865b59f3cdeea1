-------------------------------- MODULE BinTrace --------------------------------
(***************************************************************************)
(* Recorded calls on real readers; every event must be a step of BinFile.tla. *)
(* A history starts at an event "new"; several readers may be in use at once.  *)
(***************************************************************************)
EXTENDS BinFile, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Readers
VARIABLES i, rd
vars == <<i, rd>>
If(c, name) == IF c THEN {} ELSE {name}
Init == i \in {n \in 1..Len(Trace) : Trace[n].k = "new"} /\ rd = [r \in Readers |-> Closed]
St(e, good) == If(e.st = (IF good THEN "ok" ELSE "err"), "status")
Pos(e) == Val(e.pos)
Fails(e, s) ==
    CASE e.k = "open" -> If(s = Closed /\ WellFormed(e.b), "plan") \cup St(e, Opens(e.b, e.ty, e.max))
      [] e.k = "missing" -> St(e, FALSE)
      [] e.k = "start" -> St(e, MayStart(s, e.id, Pos(e)))
      [] e.k = "end" -> IF e.check = 0 /\ ~Reading(s) THEN {} ELSE St(e, MayEnd(s, e.check = 1))     \* closing nothing without a check is let be
      [] e.k = "u32" -> IF ~Readable(s, 4) THEN {"plan"} ELSE If(e.v = Next_(s, 4), "value")
      [] e.k = "u64" -> IF ~Readable(s, 8) THEN {"plan"} ELSE If(e.v = Next_(s, 8), "value")
      [] e.k = "read" -> IF ~Readable(s, e.n) THEN {"plan"} ELSE If(e.v = Next_(s, e.n), "value")
      [] e.k = "size" -> St(e, Has(s.secs, e.id, Pos(e))) \cup If(e.st = "ok" /\ Has(s.secs, e.id, Pos(e)) => e.v = Bytes(Size(s, e.id, Pos(e)), 8), "value")
      [] e.k = "data" -> St(e, Has(s.secs, e.id, Pos(e))) \cup If(e.st = "ok" /\ Has(s.secs, e.id, Pos(e)) => e.v = Data(s, e.id, Pos(e)), "value")
      [] e.k = "zkey" -> If(ZShape(s), "plan") \cup St(e, ZLoads(s)) \cup If(e.st = "ok" /\ ZLoads(s) => LET z == Zkey(s) IN \A f \in DOMAIN z : e[f] = z[f], "value")
      [] e.k = "wtns" -> If(WShape(s), "plan") \cup St(e, WLoads(s)) \cup If(e.st = "ok" /\ WLoads(s) => LET z == Wtns(s) IN \A f \in DOMAIN z : e[f] = z[f], "value")
      [] e.k = "close" -> If(s # Closed, "plan")
      [] OTHER -> {e.k}
After(e, s) ==
    CASE e.k = "open" -> IF Opens(e.b, e.ty, e.max) THEN Fresh(e.b) ELSE s
      [] e.k = "start" -> IF MayStart(s, e.id, Pos(e)) THEN Started(s, e.id, Pos(e)) ELSE s
      [] e.k = "end" -> IF MayEnd(s, e.check = 1) THEN Ended(s) ELSE s
      [] e.k = "u32" -> Moved(s, 4) [] e.k = "u64" -> Moved(s, 8) [] e.k = "read" -> Moved(s, e.n)
      [] e.k = "close" -> Closed
      [] OTHER -> s
Next == /\ i < Len(Trace)
        /\ Trace[i + 1].k # "new"
        /\ LET e == Trace[i + 1] f == Fails(e, rd[e.r]) IN
             /\ IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i + 1, f>>)
             \* what was refused wrongly, or granted wrongly, leaves nothing to compare with
             /\ IF "status" \in f \/ "plan" \in f \/ e.k = "crash" THEN FALSE ELSE rd' = [rd EXCEPT ![e.r] = After(e, @)]
        /\ i' = i + 1
=============================================================================
