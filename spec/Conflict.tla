------------------------------ MODULE Conflict ------------------------------
(* The default conflict check (property C15): a conflict is reported iff some resource is claimed more than once,  *)
(* by two of the listed controllers or by one of them on two of its interfaces.                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Resources, MaxCtl, MaxIface
ClaimSeqs == UNION {[1..n -> SUBSET Resources] : n \in 0..MaxIface}      \* one set of resources per claimed interface
VARIABLE ctls
Init == ctls = <<>>
Next == Len(ctls) < MaxCtl /\ \E c \in ClaimSeqs : ctls' = Append(ctls, c)
Spec == Init /\ [][Next]_ctls
Places(l, r) == {<<i, j>> \in (1..Len(l)) \X (1..MaxIface) : j \in DOMAIN l[i] /\ r \in l[i][j]}
InConflict(l) == \E r \in Resources : Cardinality(Places(l, r)) > 1
\* order of the list does not matter; adding a controller never removes a conflict
OrderFree == InConflict(ctls) = InConflict(Reverse(ctls))
Monotone == [][InConflict(ctls) => InConflict(ctls')]_ctls
Emit == PrintT(<<"CASE", ToJson([ctls |-> [i \in 1..Len(ctls) |-> [j \in 1..Len(ctls[i]) |-> SetToSeq(ctls[i][j])]], conflict |-> InConflict(ctls)])>>)
=============================================================================
