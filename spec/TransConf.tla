----------------------------- MODULE TransConf -----------------------------
(* Constructing transmissions: which configurations are accepted, and what they report back (property C28).   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Values, MaxLen, Spread                        \* Spread: vectors with any mixture of values ("mixed") or at most one that differs ("one")
VARIABLES kind, ctor, ign, ar, jr, of, st
vars == <<kind, ctor, ign, ar, jr, of, st>>
Zero == {"0", "-0.0"}
Kinds == {"simple", "diff", "four"}
Ctors(k) == IF k = "diff" THEN {"plain", "off", "ign", "ignoff"} ELSE {"plain", "off"}
Vectors == UNION {IF Spread = "mixed" THEN [1..n -> Values] ELSE {[i \in 1..n |-> IF i = p THEN v ELSE "2"] : p \in 1..n, v \in Values} \cup {[i \in 1..n |-> "2"]} : n \in 0..MaxLen}
One == [1..1 -> Values]
HasZero(v) == \E i \in 1..Len(v) : v[i] \in Zero
UsesOffset == ctor \in {"off", "ignoff"}
Reductions == IF kind = "simple" THEN {ar} ELSE {ar, jr}
Dim == IF kind = "simple" THEN 1 ELSE 2
Valid == /\ \A v \in Reductions \cup (IF UsesOffset THEN {of} ELSE {}) : Len(v) = Dim
         /\ \A v \in Reductions : ~HasZero(v)
DefaultOffset == [i \in 1..Dim |-> "0"]
Init == /\ kind \in Kinds /\ ctor \in Ctors(kind) /\ ign \in (IF ctor \in {"ign", "ignoff"} THEN BOOLEAN ELSE {FALSE})
        /\ ar \in (IF kind = "simple" THEN One ELSE Vectors) /\ jr \in (IF kind = "simple" THEN {<<>>} ELSE Vectors)
        /\ of \in (IF ~UsesOffset THEN {<<>>} ELSE IF kind = "simple" THEN One ELSE IF Spread = "mixed" THEN {<<"0", "3.5">>, <<"-0.0", "0">>, <<"1">>, <<>>, <<"1", "2", "3">>} ELSE Vectors)
        /\ st = "described"
Construct == st = "described" /\ st' = (IF Valid THEN "accepted" ELSE "rejected") /\ UNCHANGED <<kind, ctor, ign, ar, jr, of>>
Next == Construct
Spec == Init /\ [][Next]_vars
NeverZero == st = "accepted" => \A v \in Reductions : Len(v) = Dim /\ ~HasZero(v)
OffsetsFree == st = "rejected" => (\E v \in Reductions : Len(v) # Dim \/ HasZero(v)) \/ (UsesOffset /\ Len(of) # Dim)
Emit == st # "described" => PrintT(<<"CASE", ToJson([kind |-> kind, ctor |-> ctor, ign |-> ign, ar |-> ar, jr |-> jr, of |-> of, st |-> st, dim |-> Dim, rof |-> IF UsesOffset THEN of ELSE DefaultOffset])>>)
=============================================================================
