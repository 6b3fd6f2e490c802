---------------------------- MODULE CombinedHist ----------------------------
(* Long histories of one combined robot (properties C16, C17): it is asked to prepare and perform switches, for its  *)
(* results and for cycles, in any order; every answer depends only on what is asked, never on what went before.     *)
(* The robot's parts and the controllers are drawn at random (simulation).                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, Randomization
CONSTANTS Depth
Types == {"EJ", "VJ"}
Res == {"r1", "r2", "r3", "r4", "r5", "r6"}
\* (operators have parameters so that they are drawn anew each time)
Sub(u) == RandomSubset(RandomElement({0, 0, 1, 2, 3, 5, 6}), Res)
AnyParts(u) == TLCEval([p \in 1..RandomElement({1, 2, 3, 4, 6}) |-> [EJ |-> Sub(p), VJ |-> Sub(p)]])
AnyClaims(u) == TLCEval([i \in 1..RandomElement({0, 1, 1, 1, 2, 3}) |-> <<RandomElement({"EJ", "EJ", "VJ", "VJ", "JS"}), RandomSubset(RandomElement({0, 1, 1, 2, 3, 4, 6}), Res)>>])
Ctl == 1..6
Answers == {"DONE", "ONGOING", "ERROR"}
VARIABLES offers, ctls, hist
vars == <<offers, ctls, hist>>
Part == DOMAIN offers
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
\* a controller claims an interface at most once
Proper(cl) == \A i, j \in 1..Len(cl) : i # j => cl[i][1] # cl[j][1]
Init == offers \in {AnyParts(x) : x \in 1..30} /\ ctls \in {TLCEval([c \in Ctl |-> LET a == AnyClaims(<<c, x>>) IN IF Proper(a) THEN a ELSE SubSeq(a, 1, 1)]) : x \in 1..30} /\ hist = <<>>
Has(p, ty) == IF ty \in Types THEN offers[p][ty] ELSE {}
Reduced(c, p) == SelectSeq([i \in 1..Len(ctls[c]) |-> <<ctls[c][i][1], ctls[c][i][2] \cap Has(p, ctls[c][i][1])>>], LAMBDA e : e[2] # {})
Concerns(c, p) == ctls[c] = <<>> \/ Reduced(c, p) # <<>>
Show(cl) == [j \in 1..Len(cl) |-> <<cl[j][1], SetToSeq(cl[j][2])>>]
Routed(l, p) == LET kept == SelectSeq(l, LAMBDA c : Concerns(c, p)) IN [i \in 1..Len(kept) |-> [name |-> kept[i], claims |-> Show(Reduced(kept[i], p))]]
Args(a, b) == [p \in Part |-> [start |-> Routed(a, p), stop |-> Routed(b, p)]]
Worst(S) == IF "ERROR" \in S THEN "ERROR" ELSE IF "ONGOING" \in S THEN "ONGOING" ELSE "DONE"
\* disjoint lists, in any order
AnyPair(u) == TLCEval(LET s == RandomSubset(RandomElement(0..5), Ctl) t == RandomSubset(RandomElement(0..(6 - Cardinality(s))), Ctl \ s) IN <<SetToSeq(s), SetToSeq(t)>>)
Turn(l, k) == IF l = <<>> THEN l ELSE [i \in 1..Len(l) |-> l[((i + k) % Len(l)) + 1]]
Pairs == {TLCEval(LET p == AnyPair(x) IN <<Turn(p[1], RandomElement(0..5)), Turn(Reverse(p[2]), RandomElement(0..5))>>) : x \in {Len(hist), Len(hist) + 100}}
Log(e) == hist' = Append(hist, e) /\ UNCHANGED <<offers, ctls>>
Prepare == \E p \in Pairs, acc \in {TLCEval([x \in Part |-> RandomElement({TRUE, TRUE, TRUE, FALSE})])} : Log([op |-> "prep", start |-> p[1], stop |-> p[2], accept |-> acc, ok |-> \A x \in Part : acc[x], routed |-> Args(p[1], p[2])])
Do == \E p \in Pairs : Log([op |-> "do", start |-> p[1], stop |-> p[2], routed |-> Args(p[1], p[2])])
Result == \E a \in {TLCEval([x \in Part |-> RandomElement(Answers)])} : Log([op |-> "res", answers |-> a, combined |-> Worst({a[x] : x \in Part})])
CtlResult == \E a \in {TLCEval([x \in Part |-> RandomElement(Answers)])}, c \in {RandomElement(Ctl)} :
                Log([op |-> "cres", answers |-> a, ctl |-> c, concerned |-> [x \in Part |-> Concerns(c, x)], combined |-> Worst({a[x] : x \in {y \in Part : Concerns(c, y)}})])
Cycle == \E o \in {"read", "write"} : Log([op |-> o])
Next == Len(hist) < Depth /\ (Prepare \/ Do \/ Result \/ CtlResult \/ Cycle)
Spec == Init /\ [][Next]_vars
\* a claimed resource that some part has is never lost on the way, and parts only see resources of theirs
Faithful == \A c \in Ctl : \A p \in Part : LET r == Reduced(c, p) IN
              /\ \A j \in 1..Len(r) : r[j][2] \subseteq Has(p, r[j][1])
              /\ \A i \in 1..Len(ctls[c]) : \A x \in ctls[c][i][2] \cap Has(p, ctls[c][i][1]) : \E j \in 1..Len(r) : r[j][1] = ctls[c][i][1] /\ x \in r[j][2]
Emit == Len(hist) = Depth => PrintT(<<"CASE", ToJson([offers |-> [p \in Part |-> [ty \in Types |-> SetToSeq(offers[p][ty])]], ctls |-> [c \in Ctl |-> Show(ctls[c])], ops |-> hist])>>)
=============================================================================
