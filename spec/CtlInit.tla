------------------------------ MODULE CtlInit -------------------------------
(* Initialisation of controllers on one robot (property C11): interfaces seen, claims reported, claims left behind. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Depth, Robots, MaxInit
Types == {"EJ", "VJ", "JS"}
Claiming == {"EJ", "VJ"}
\* a robot provides a type not at all, by one interface, or by interfaces of two nested parts
Res == [none |-> {}, one |-> {"r1", "r2"}, two |-> {"r1", "r2", "r3"}, big |-> {"r1", "r2", "r3", "r4", "r5", "r6"}]
\* controller classes: single interface, or several (with optional ones or not)
Kinds == [S_EJ |-> [decl |-> {"EJ"}, opt |-> FALSE], S_JS |-> [decl |-> {"JS"}, opt |-> FALSE],
          M_EV |-> [decl |-> {"EJ", "VJ"}, opt |-> FALSE], M_EVo |-> [decl |-> {"EJ", "VJ"}, opt |-> TRUE],
          M_VJo |-> [decl |-> {"VJ", "JS"}, opt |-> TRUE], M_JE |-> [decl |-> {"JS", "EJ"}, opt |-> FALSE], M_EVJ |-> [decl |-> {"EJ", "VJ", "JS"}, opt |-> FALSE],
          M_EVJo |-> [decl |-> {"EJ", "VJ", "JS"}, opt |-> TRUE]]
\* what the controller's own initialisation does: handles it takes <<part of the initialisation, type, name>>, and where it gives up
Behaviours == {[acc |-> a, rej |-> 0] : a \in {<<>>, <<<<1, "EJ", "r1">>>>, <<<<2, "EJ", "r2">>>>, <<<<1, "EJ", "r2">>, <<2, "VJ", "r2">>, <<2, "JS", "r1">>>>,
                                              <<<<1, "VJ", "r3">>, <<1, "EJ", "r3">>, <<2, "EJ", "r1">>>>, <<<<1, "EJ", "nope">>, <<2, "VJ", "r1">>>>}}
              \cup {[acc |-> <<<<1, "EJ", "r1">>, <<1, "VJ", "r1">>>>, rej |-> 1], [acc |-> <<<<1, "EJ", "r2">>, <<2, "VJ", "r2">>>>, rej |-> 2]}
VARIABLES robot, claims, ctls, hist
vars == <<robot, claims, ctls, hist>>
Has(ty) == robot[ty] # "none"
Init == robot \in Robots /\ claims = [ty \in Types |-> {}] /\ ctls = <<>> /\ hist = <<>>
\* somebody takes a handle from the robot outside any controller initialisation
Touch(ty, r) == /\ Has(ty) /\ r \in Res[robot[ty]] /\ ty \in Claiming
                /\ claims' = [claims EXCEPT ![ty] = @ \cup {r}] /\ UNCHANGED <<robot, ctls>> /\ hist' = Append(hist, [op |-> "touch", ty |-> ty, r |-> r])
Seen(k) == {ty \in Kinds[k].decl : Has(ty)}
Got(k, acc, ty) == {a[3] : a \in {x \in ToSet(acc) : x[2] = ty /\ ty \in Seen(k) /\ x[3] \in Res[robot[ty]]}}
Claimed(k, acc, ty) == IF ty \in Claiming THEN Got(k, acc, ty) ELSE {}
\* initialise controller number i (a new one, or one already there)
InitCtl(i, k, b) ==
  LET fresh == i > Len(ctls)
      state == IF fresh THEN "constructed" ELSE ctls[i].st
      runs == state = "constructed" /\ (Kinds[k].opt \/ Kinds[k].decl \subseteq Seen(k))      \* its own initialisation is reached
      ok == runs /\ b.rej = 0
      st2 == IF ok THEN "initialized" ELSE state
  IN /\ (IF fresh THEN TRUE ELSE ctls[i].kind = k)
     /\ ctls' = IF fresh THEN Append(ctls, [kind |-> k, st |-> st2]) ELSE [ctls EXCEPT ![i].st = st2]
     /\ claims' = [ty \in Types |-> IF ~runs \/ ty \notin Seen(k) THEN claims[ty] ELSE IF ok THEN {} ELSE Claimed(k, b.acc, ty)]
     /\ robot' = robot
     /\ hist' = Append(hist, [op |-> "init", ctl |-> i, kind |-> k, acc |-> b.acc, rej |-> b.rej, ok |-> ok, runs |-> runs, st |-> st2,
                              seen |-> SetToSeq({<<ty, SetToSeq(Res[robot[ty]])>> : ty \in Seen(k)}),
                              claims |-> SetToSeq({<<ty, SetToSeq(Claimed(k, b.acc, ty))>> : ty \in Seen(k)})])
Inits == Cardinality({j \in 1..Len(hist) : hist[j].op = "init"})
Next == Len(hist) < Depth /\ (\/ \E ty \in Claiming, r \in {"r1", "r3"} : Touch(ty, r)
                              \/ Inits < MaxInit /\ \E i \in 1..(Len(ctls) + 1), k \in DOMAIN Kinds, b \in Behaviours : InitCtl(i, k, b))
Spec == Init /\ [][Next]_vars
\* claims of earlier users never show up in, nor survive, a successful initialisation
NothingKept == [][\A i \in 1..Len(ctls') : (i > Len(ctls) \/ ctls'[i] # ctls[i]) /\ ctls'[i].st = "initialized" => \A ty \in Kinds[ctls'[i].kind].decl : Has(ty) => claims'[ty] = {}]_vars
OnlyOwnHandles == \A j \in 1..Len(hist) : (hist[j].op = "init" /\ hist[j].ok) => \A c \in ToSet(hist[j].claims) : \A r \in ToSet(c[2]) : \E a \in ToSet(hist[j].acc) : a[2] = c[1] /\ a[3] = r
Emit == (hist # <<>> /\ hist[Len(hist)].op = "init" /\ (Inits = MaxInit \/ Len(hist) = Depth)) => PrintT(<<"CASE", ToJson([robot |-> robot, ops |-> hist])>>)
AllRobots == [Types -> {"none", "one", "two"}]
BigRobots == [Types -> {"none", "one", "two", "big"}]
\* arbitrary behaviours, drawn at random (for simulation only)
RandomBehaviours == {TLCEval([acc |-> [i \in 1..RandomElement({0, 1, 2, 3, 5, 8}) |-> <<RandomElement({1, 2}), RandomElement(Types), RandomElement(Res.big \cup {"nope"})>>], rej |-> RandomElement({0, 0, 0, 1, 2})]) : x \in 1..(3 + 0 * Len(hist))}
SomeRobots == {[EJ |-> "one", VJ |-> "one", JS |-> "one"], [EJ |-> "two", VJ |-> "one", JS |-> "none"], [EJ |-> "one", VJ |-> "none", JS |-> "two"], [EJ |-> "none", VJ |-> "two", JS |-> "one"]}
=============================================================================
