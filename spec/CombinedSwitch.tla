--------------------------- MODULE CombinedSwitch ---------------------------
(* Switching on a combined robot (property C17): which controllers, reduced to which claims, reach which part, when *)
(* the preparation succeeds and what the combined switch result is.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS NParts, Mode
Part == 1..NParts
OfferMenu == {[EJ |-> {"a", "b"}, VJ |-> {}], [EJ |-> {"c"}, VJ |-> {"a"}], [EJ |-> {"a"}, VJ |-> {"b", "c"}], [EJ |-> {}, VJ |-> {}]}
\* a claim: one entry per interface, in order
Ctls == [ c1 |-> <<<<"EJ", {"a"}>>>>, c2 |-> <<<<"EJ", {"a", "b", "c"}>>>>, c3 |-> <<<<"VJ", {"a", "b"}>>, <<"EJ", {"c"}>>>>, c4 |-> <<>>,
          c5 |-> <<<<"JS", {}>>>>, c6 |-> <<<<"EJ", {}>>, <<"VJ", {"c"}>>>>, c7 |-> <<<<"JS", {"a"}>>, <<"EJ", {"b", "z"}>>>> ]
Names == DOMAIN Ctls
ASSUME PrintT(<<"CTLS", ToJson([c \in Names |-> [i \in 1..Len(Ctls[c]) |-> <<Ctls[c][i][1], SetToSeq(Ctls[c][i][2])>>]])>>)
Lists1 == {<<>>} \cup {<<c>> : c \in Names}
Lists2 == Lists1 \cup {<<c, d>> : c, d \in Names}
Answers == {"DONE", "ONGOING", "ERROR"}
VARIABLES offers, start, stop, accept, results, asked
vars == <<offers, start, stop, accept, results, asked>>
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Init == /\ offers \in [Part -> OfferMenu]
        /\ IF Mode = "route" THEN /\ start \in {l \in Lists2 : Distinct(l)} /\ stop \in {l \in Lists1 : ToSet(l) \cap ToSet(start) = {}}
                                  /\ accept \in [Part -> BOOLEAN] /\ results = [p \in Part |-> "DONE"] /\ asked = ""
           ELSE /\ start = <<>> /\ stop = <<>> /\ accept = [p \in Part |-> TRUE] /\ results \in [Part -> Answers] /\ asked \in Names \cup {""}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* the claims of controller c that concern part p
Reduced(c, p) == SelectSeq([i \in 1..Len(Ctls[c]) |-> <<Ctls[c][i][1], IF Ctls[c][i][1] \in DOMAIN offers[p] THEN Ctls[c][i][2] \cap offers[p][Ctls[c][i][1]] ELSE {}>>], LAMBDA e : e[2] # {})
Concerns(c, p) == Ctls[c] = <<>> \/ Reduced(c, p) # <<>>
Routed(l, p) == LET kept == SelectSeq(l, LAMBDA c : Concerns(c, p)) IN [i \in 1..Len(kept) |-> [name |-> kept[i], claims |-> [j \in 1..Len(Reduced(kept[i], p)) |-> <<Reduced(kept[i], p)[j][1], SetToSeq(Reduced(kept[i], p)[j][2])>>]]]
PrepareOk == \A p \in Part : accept[p]
Worst(S) == IF "ERROR" \in S THEN "ERROR" ELSE IF "ONGOING" \in S THEN "ONGOING" ELSE "DONE"
Combined == IF asked = "" THEN Worst({results[p] : p \in Part}) ELSE Worst({results[p] : p \in {q \in Part : Concerns(asked, q)}})
\* a claimed resource that some part has is never lost on the way, and parts only see resources of theirs
NothingLost == \A c \in ToSet(start) \cup ToSet(stop) : \A i \in 1..Len(Ctls[c]) : \A r \in Ctls[c][i][2] : \A p \in Part :
                 (Ctls[c][i][1] \in {"EJ", "VJ"} /\ r \in offers[p][Ctls[c][i][1]]) => \E j \in 1..Len(Reduced(c, p)) : Reduced(c, p)[j][1] = Ctls[c][i][1] /\ r \in Reduced(c, p)[j][2]
OnlyOwn == \A c \in ToSet(start) : \A p \in Part : \A j \in 1..Len(Reduced(c, p)) : Reduced(c, p)[j][2] \subseteq offers[p][Reduced(c, p)[j][1]]
NeverBetter == asked = "" => \A p \in Part : (results[p] = "ERROR" => Combined = "ERROR") /\ (results[p] = "ONGOING" => Combined # "DONE")
Emit == PrintT(<<"CASE", ToJson([mode |-> Mode, offers |-> [p \in Part |-> [ty \in {"EJ", "VJ"} |-> SetToSeq(offers[p][ty])]],
                            start |-> start, stop |-> stop, accept |-> accept, ok |-> PrepareOk, results |-> results, asked |-> asked, combined |-> Combined, concerned |-> (IF asked = "" THEN <<>> ELSE SetToSeq({p \in Part : Concerns(asked, p)})),
                            routed |-> [p \in Part |-> [start |-> Routed(start, p), stop |-> Routed(stop, p)]]])>>)
=============================================================================
