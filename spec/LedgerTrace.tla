------------------------------ MODULE LedgerTrace ------------------------------
(***************************************************************************)
(* Traces of the real code: calls with all they take and give back must be    *)
(* behaviours of Ledger.tla.  w = 1 marks a first use, which may set things     *)
(* up for good; w = 2 a use like earlier ones on the same object, after which   *)
(* the object must not hold more.                                            *)
(***************************************************************************)
EXTENDS Ledger, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, w
vars == <<i, w, lvars>>
Init == i \in {n \in 1..Len(Trace) : Trace[n].k = "run"} /\ w = 0 /\ LInit
If(c, name) == IF c THEN {} ELSE {name}
CallKinds == {"plain", "make", "use", "drop"}
Ok(e) == e.st = "ok"
\* the object holds no more than before
Steady == Cardinality(Added) <= Cardinality(Gone)
Fails(e) ==
    CASE e.k \in CallKinds -> If(ENABLED Begin(e.k, e.o), "plan")
      [] e.k = "take" -> If(call # NoCall /\ e.r \notin Held, "plan")
      [] e.k = "give" -> IF e.r \notin Held THEN {"twice"} ELSE If(held[e.r] = e.t, "kind")
      [] e.k = "end" -> IF call = NoCall THEN {"plan"}
                        ELSE IF w = 1 THEN {}
                        ELSE IF MayEnd(Ok(e)) THEN (IF w = 2 /\ call.k = "use" THEN If(Steady, "grows") ELSE {})
                        ELSE If(Added = {} \/ (call.k = "make" /\ Ok(e)), "kept") \cup If(~(call.k = "drop" /\ Mine \cap Held # {}), "kept")
                               \cup If(Gone \subseteq (IF call.k \in {"use", "drop"} THEN Mine ELSE {}), "foreign")
      [] OTHER -> {e.k}
\* the trace goes on from what was really held; what a call kept against the rules is held for good from then on
After(e) ==
    CASE e.k \in CallKinds -> call' = [k |-> e.k, o |-> e.o, before |-> Held] /\ w' = e.w /\ UNCHANGED <<held, own, forGood>>
      [] e.k = "take" -> held' = With(held, e.r, e.t) /\ UNCHANGED <<own, forGood, call, w>>
      [] e.k = "give" -> held' = Less(held, {e.r}) /\ UNCHANGED <<own, forGood, call, w>>
      [] e.k = "end" -> LET others == [o \in DOMAIN OwnAfter(Ok(e)) |-> OwnAfter(Ok(e))[o] \cap Held] IN
                          /\ own' = others /\ forGood' = Held \ UNION {others[o] : o \in DOMAIN others} /\ call' = NoCall /\ UNCHANGED <<held, w>>
      [] OTHER -> UNCHANGED <<lvars, w>>
IsLast(n) == n = Len(Trace) \/ Trace[n + 1].k = "run"
Next == /\ i < Len(Trace) /\ Trace[i + 1].k # "run"
        /\ LET e == Trace[i + 1] f == Fails(e) \cup If(IsLast(i + 1) => e.k = "end", "cut") IN
             /\ IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i + 1, f>>)
             /\ After(e)
        /\ i' = i + 1
=============================================================================
