------------------------------ MODULE LedgerModel ------------------------------
(***************************************************************************)
(* Constructors that take resources in stages and may be refused between any  *)
(* two; uses that replace what an object holds; destructors that give back in   *)
(* any order.  Careless constructors forget what they took when they are        *)
(* refused, and the ledger shows it.  Also prints histories of calls to be      *)
(* played on the real code.                                                  *)
(***************************************************************************)
EXTENDS Ledger, Sequences, TLC
CONSTANTS Slots, Kinds, Stages, Careless, Variants, PlainOps, Length
VARIABLES left, outcome, next, kind, hist
mvars == <<left, outcome, next, kind, hist>>
vars == <<lvars, mvars>>
Init == LInit /\ left = <<>> /\ outcome = TRUE /\ next = 1 /\ kind = [s \in Slots |-> "none"] /\ hist = <<>>
Log(x) == hist' = IF Length = 0 THEN hist ELSE Append(hist, x)
More == Length = 0 \/ Len(hist) < Length
\* ---- with stages (Length = 0): left is what the call in progress has still to take
Upto(s, n) == SubSeq(s, 1, n)
StartMake(s, k) == /\ Begin("make", s) /\ \E n \in 0..Len(Stages[k]) : left' = Upto(Stages[k], n) /\ outcome' = (n = Len(Stages[k]))
                   /\ kind' = [kind EXCEPT ![s] = k] /\ UNCHANGED <<next, hist>>
TakeStage == call.k = "make" /\ left # <<>> /\ Take(next, Head(left)) /\ next' = next + 1 /\ left' = Tail(left) /\ UNCHANGED <<outcome, kind, hist>>
Rollback == call.k = "make" /\ left = <<>> /\ ~outcome /\ ~Careless /\ \E r \in Added : Give(r, held[r]) /\ UNCHANGED mvars
StartUse(s) == Begin("use", s) /\ left' \in {<<>>, <<"new">>} /\ UNCHANGED <<outcome, next, kind, hist>>
UseGive == call.k = "use" /\ Len(left) = 1 /\ (\E r \in Mine \cap Held : Give(r, held[r])) /\ left' = <<"new", "x">> /\ UNCHANGED <<outcome, next, kind, hist>>
UseTake == call.k = "use" /\ Len(left) = 2 /\ Take(next, "new") /\ next' = next + 1 /\ left' = <<>> /\ UNCHANGED <<outcome, kind, hist>>
StartDrop(s) == Begin("drop", s) /\ UNCHANGED mvars
DropGive == call.k = "drop" /\ \E r \in Mine \cap Held : Give(r, held[r]) /\ UNCHANGED mvars
\* the code returns when its work is done, whatever the ledger says
Done == /\ call # NoCall
        /\ CASE call.k = "make" -> left = <<>> /\ (outcome \/ Careless \/ Added = {})
             [] call.k = "use" -> left = <<>> \/ (Len(left) = 1 /\ Mine = {})
             [] call.k = "drop" -> Mine \cap Held = {}
        /\ LET ok == call.k # "make" \/ outcome IN
             /\ own' = OwnAfter(ok) /\ call' = NoCall /\ UNCHANGED <<held, forGood>>
             /\ kind' = IF call.k = "drop" \/ ~ok THEN [kind EXCEPT ![call.o] = "none"] ELSE kind
        /\ left' = <<>> /\ UNCHANGED <<outcome, next, hist>>
StagedNext == \/ \E s \in Slots, k \in Kinds : next < 6 /\ StartMake(s, k)
              \/ \E s \in Slots : (next < 7 /\ StartUse(s)) \/ StartDrop(s)
              \/ TakeStage \/ Rollback \/ UseGive \/ UseTake \/ DropGive \/ Done
Spec == Init /\ [][StagedNext]_vars
\* every call that ends, ends as the ledger allows
EndsWell == [][call # NoCall /\ call' = NoCall => MayEnd(call.k # "make" \/ outcome)]_vars
\* ---- histories (Length > 0): whole calls, nothing but who exists
\* one of each at random: the histories are for simulation
One(S) == {RandomElement(S)}
HMake == \E s \in One(Slots), k \in One(Kinds), v \in One(Variants) : kind[s] = "none" /\ Log(<<"make", s, k, v>>) /\ kind' = [kind EXCEPT ![s] = k]
HUse == \E s \in One({x \in Slots : kind[x] # "none"}), v \in One(Variants) : Log(<<"use", s, kind[s], v>>) /\ UNCHANGED kind
HDrop == \E s \in One({x \in Slots : kind[x] # "none"}) : Log(<<"drop", s, kind[s], <<1, 1>>>>) /\ kind' = [kind EXCEPT ![s] = "none"]
HPlain == \E p \in One(PlainOps), v \in One(Variants) : Log(<<"plain", "p", p, v>>) /\ UNCHANGED kind
SomeObject == \E s \in Slots : kind[s] # "none"
HNext == More /\ (HMake \/ (SomeObject /\ (HUse \/ HDrop)) \/ HPlain) /\ UNCHANGED <<lvars, left, outcome, next>>
Printed == Len(hist) = Length => PrintT(<<"HIST", hist>>)
=============================================================================
