---- MODULE GroupTool ----
\* The group tool: spawning a group of controllers, switching from whatever runs to a group.
EXTENDS ManagerWorld, TLC, Json
CONSTANTS Mode, Names, States
VARIABLES in, w, phase, todo, have, start
vars == <<in, w, phase, todo, have, start>>
Fine == [load |-> Names, unload |-> Names, refuse |-> {}, reload |-> TRUE, throws |-> {}]
GroupNames == {"g", "h"}
\* groups as tables; the requested group may be missing (not in the table) or empty
Tables == {[t \in d |-> m[t]] : d \in {{"g"}, {"h"}, {"g", "h"}}, m \in [GroupNames -> SUBSET Names]}
Inputs == {[cmd |-> k, groups |-> g, st |-> s, f |-> [Fine EXCEPT !.load = l, !.refuse = r, !.throws = t]] :
             k \in {Mode}, g \in Tables, s \in [Names -> States], l \in SUBSET Names, r \in {{}} \cup {{c} : c \in Names}, t \in {{}}}
Wanted == IF "g" \in DOMAIN in.groups THEN in.groups["g"] ELSE {}
Others == UNION {in.groups[g] : g \in DOMAIN in.groups} \ Wanted
Init == /\ in \in Inputs /\ w = [st |-> in.st, log |-> <<>>] /\ todo = Wanted /\ have = Loaded(w) /\ start = {}
        /\ phase = (IF Mode = "list" THEN "list" ELSE IF Wanted = {} THEN "nothing" ELSE "load")
Nothing == phase = "nothing" /\ phase' = "done" /\ UNCHANGED <<in, w, todo, have, start>>
\* spawning: loads every member, then starts every member, whatever the answers
SpawnLoad == /\ Mode = "spawn" /\ phase = "load" /\ todo # {} /\ \E c \in todo : w' = DoLoad(w, in.f, c) /\ todo' = todo \ {c} /\ UNCHANGED <<in, phase, have, start>>
SpawnLoaded == Mode = "spawn" /\ phase = "load" /\ todo = {} /\ todo' = Wanted /\ phase' = "start" /\ UNCHANGED <<in, w, have, start>>
SpawnStart == /\ phase = "start" /\ todo # {} /\ \E c \in todo : w' = DoSwitch(w, in.f, {c}, {}, TRUE) /\ todo' = todo \ {c} /\ UNCHANGED <<in, phase, have, start>>
SpawnDone == phase = "start" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<in, w, todo, have, start>>
\* switching: missing members are loaded first, in any order, and the switch is given up when one cannot be loaded
SwitchLoad == /\ Mode = "switch" /\ phase = "load" /\ \E c \in todo \ have : w' = DoLoad(w, in.f, c) /\ todo' = todo \ {c}
                 /\ phase' = (IF Answer(w') = "ok" THEN "load" ELSE "done") /\ UNCHANGED <<in, have, start>>
SwitchAll == /\ Mode = "switch" /\ phase = "load" /\ todo \subseteq have /\ start' = Wanted \ Running(w) /\ phase' = "done"
             /\ w' = (IF start' = {} /\ Others \cap Running(w) = {} THEN w ELSE DoSwitch(w, in.f, start', Others \cap Running(w), TRUE)) /\ UNCHANGED <<in, todo, have>>
\* listing: every group with its members is shown, nothing is asked of the manager
Listing == phase = "list" /\ phase' = "done" /\ UNCHANGED <<in, w, todo, have, start>>
Shown == IF Mode = "list" THEN [heads |-> DOMAIN in.groups, members |-> Wanted \cup Others] ELSE [heads |-> {}, members |-> {}]
Next == Listing \/ Nothing \/ SpawnLoad \/ SpawnLoaded \/ SpawnStart \/ SpawnDone \/ SwitchLoad \/ SwitchAll
Spec == Init /\ [][Next]_vars
\* ---- properties
OneSwitch == Mode = "switch" => Cardinality({k \in 1..Len(w.log) : w.log[k].op = "switch"}) <= 1
LoadsOnlyMissingMembers == \A k \in 1..Len(w.log) : w.log[k].op = "load" => w.log[k].c \in Wanted /\ (Mode = "switch" => w.log[k].c \notin have)
Abandoned == Mode = "switch" => \A k \in 1..Len(w.log) : w.log[k].op = "switch" => \A j \in 1..Len(w.log) : w.log[j].op = "load" => w.log[j].ok = "ok"
MembersKept == \A k \in 1..Len(w.log) : w.log[k].stop \cap Wanted = {} /\ w.log[k].start \subseteq Wanted
Strangers == \A c \in Names : c \notin Wanted \cup Others => w.st[c] = in.st[c]
Switched == (Mode = "switch" /\ phase = "done" /\ w.log # <<>> /\ Answer(w) = "ok") => Wanted \subseteq Running(w) /\ Others \cap Running(w) = {}
Emit == phase = "done" => PrintT(<<"CASE", ToJson([in |-> in, log |-> w.log, st |-> w.st, shown |-> Shown])>>)
=============================================================================
