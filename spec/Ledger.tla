-------------------------------- MODULE Ledger ---------------------------------
(***************************************************************************)
(* Who holds what.  Calls take and give back resources (memory blocks of three *)
(* kinds, file descriptors, mappings, threads) one at a time; what is held is  *)
(* held by an object that exists, by the call in progress, or by the process   *)
(* for good (what a first use sets up).                                        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
VARIABLES held,       \* resource -> its type
          own,        \* object -> the resources it holds
          forGood,    \* held by the process
          call        \* the call in progress: [k, o, before] or NoCall
lvars == <<held, own, forGood, call>>
NoCall == [k |-> "none", o |-> "", before |-> {}]
Objects == DOMAIN own
Held == DOMAIN held
LInit == held = <<>> /\ own = <<>> /\ forGood = {} /\ call = NoCall
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Less(f, S) == [y \in DOMAIN f \ S |-> f[y]]
\* ---- steps
Begin(k, o) == /\ call = NoCall
               /\ k = "make" => o \notin Objects
               /\ k \in {"use", "drop"} => o \in Objects
               /\ call' = [k |-> k, o |-> o, before |-> Held]
               /\ UNCHANGED <<held, own, forGood>>
Take(r, t) == r \notin Held /\ held' = With(held, r, t) /\ UNCHANGED <<own, forGood, call>>
MayGive(r, t) == r \in Held /\ held[r] = t
Give(r, t) == MayGive(r, t) /\ held' = Less(held, {r}) /\ UNCHANGED <<own, forGood, call>>
\* what the call has added to what was held, and taken away
Added == Held \ call.before
Gone == call.before \ Held
Mine == IF call.o \in Objects THEN own[call.o] ELSE {}
\* ---- how a call may end
PlainEnd == Added = {} /\ Gone = {}
MakeEnd(ok) == Gone = {} /\ (~ok => Added = {})
UseEnd == Gone \subseteq Mine                       \* the object may keep more or less than before
DropEnd == Added = {} /\ Gone = Mine
MayEnd(ok) == CASE call.k = "plain" -> PlainEnd
                [] call.k = "make" -> MakeEnd(ok)
                [] call.k = "use" -> UseEnd
                [] call.k = "drop" -> DropEnd
OwnAfter(ok) == CASE call.k = "make" /\ ok -> With(own, call.o, Added)
                  [] call.k = "use" -> With(own, call.o, (Mine \ Gone) \cup Added)
                  [] call.k = "drop" -> Less(own, {call.o})
                  [] OTHER -> own
End(ok) == /\ call # NoCall /\ MayEnd(ok)
           /\ own' = OwnAfter(ok) /\ call' = NoCall /\ UNCHANGED <<held, forGood>>
\* ---- what follows: between calls all that is held is held by an object or for good, nothing by two
Balanced == call = NoCall => /\ Held = forGood \cup UNION {own[o] : o \in Objects}
                             /\ \A o, p \in Objects : o # p => own[o] \cap own[p] = {}
                             /\ \A o \in Objects : own[o] \cap forGood = {}
=============================================================================
