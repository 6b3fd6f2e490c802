---------------------------- MODULE CombinedInit ----------------------------
(* A combined robot (property C16): initialisation from its configured list of parts, what it exposes afterwards,   *)
(* and how control cycles reach the parts.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MaxParts, Cycles, Lists
Types == {"EJ", "VJ", "JS"}
\* what may go wrong with a part; "ok" is the only one that does not
Faults == {"ok", "notype", "unknowntype", "badname", "ctorthrows", "initfalse", "initthrows", "initthrowsint"}
\* what parts offer; each part adds its number to the resource names so that parts may also share a resource "s"
Offers == {[EJ |-> {"a", "b"}, VJ |-> {}, JS |-> {}], [EJ |-> {"c"}, VJ |-> {"a"}, JS |-> {}], [EJ |-> {}, VJ |-> {"d", "e"}, JS |-> {"a", "d"}]}
None == [EJ |-> {}, VJ |-> {}, JS |-> {}]
VARIABLES conf, phase, log
vars == <<conf, phase, log>>
\* conf: configured = FALSE means the list parameter is missing
Init == conf \in Lists /\ phase = "new" /\ log = <<>>
AllLists == {[configured |-> FALSE, parts |-> <<>>]} \cup {[configured |-> TRUE, parts |-> p] : p \in UNION {[1..n -> [fault : Faults, offer : Offers \cup {None}]] : n \in 0..MaxParts}}
GoodLists == {[configured |-> TRUE, parts |-> p] : p \in UNION {[1..n -> [fault : {"ok"}, offer : Offers \cup {None}]] : n \in 0..MaxParts}}
Good == conf.configured /\ \A i \in 1..Len(conf.parts) : conf.parts[i].fault = "ok"
Setup == phase = "new" /\ phase' = (IF Good THEN "ready" ELSE "failed") /\ log' = <<>> /\ conf' = conf
Parts == [i \in 1..Len(conf.parts) |-> i]
Cycle(op) == phase = "ready" /\ Len(log) < Cycles /\ log' = Append(log, [op |-> op, parts |-> Parts]) /\ UNCHANGED <<conf, phase>>
Next == Setup \/ Cycle("read") \/ Cycle("write")
Spec == Init /\ [][Next]_vars
Exposed(ty) == UNION {conf.parts[i].offer[ty] : i \in 1..Len(conf.parts)}
Names == {ty \in Types : \E i \in 1..Len(conf.parts) : conf.parts[i].offer[ty] # {}}
OnceEach == \A k \in 1..Len(log) : \A i \in 1..Len(conf.parts) : Cardinality({j \in 1..Len(log[k].parts) : log[k].parts[j] = i}) = 1
NoCycleUnlessReady == log # <<>> => phase = "ready"
Emit == (phase = "failed" \/ (phase = "ready" /\ Len(log) = Cycles)) =>
   PrintT(<<"CASE", ToJson([configured |-> conf.configured, parts |-> [i \in 1..Len(conf.parts) |-> [fault |-> conf.parts[i].fault, offer |-> [ty \in Types |-> SetToSeq(conf.parts[i].offer[ty])]]],
                            ok |-> phase = "ready", names |-> SetToSeq(Names), exposed |-> [ty \in Types |-> SetToSeq(Exposed(ty))], log |-> log])>>)
=============================================================================
