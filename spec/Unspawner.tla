---- MODULE Unspawner ----
\* The unspawner: keeps the named controllers stopped while it lives and starts again on exit what it stopped.
EXTENDS ManagerWorld, TLC, Json
CONSTANTS Names, MaxTicks, Acts, MaxActs, Races
VARIABLES in, w, phase, tick, inhibited, before
vars == <<in, w, phase, tick, inhibited, before>>
Fine == [load |-> Names, unload |-> Names, refuse |-> {}, reload |-> TRUE, throws |-> {}]
Idle == [c \in Names |-> "none"]
\* what others do before each look of the unspawner, the last entry just before it exits
Histories == {h \in [1..MaxTicks + 1 -> [Names -> Acts]] : Cardinality({<<k, c>> \in (1..MaxTicks + 1) \X Names : h[k][c] # "none"}) <= MaxActs}
\* what somebody does between a look at the list and the request that follows from it
RaceActs == {[k |-> 0, c |-> "", act |-> "none"]} \cup {[k |-> k, c |-> c, act |-> a] : k \in 1..MaxTicks + 1, c \in Names, a \in Races}
Inputs == {[race |-> x, named |-> n, st |-> s, hist |-> h, f |-> [Fine EXCEPT !.refuse = r]] : n \in SUBSET Names, s \in [Names -> {"absent", "stopped", "running"}], h \in Histories, r \in {{}} \cup {{c} : c \in Names}, x \in RaceActs}
Init == /\ in \in Inputs /\ w = [st |-> in.st, log |-> <<>>] /\ phase = "look" /\ tick = 0 /\ inhibited = {} /\ before = in.st
ToStop == in.named \cap Running(w)
Between == IF in.race.k = tick + 1 THEN Meddle(w, [c \in Names |-> IF c = in.race.c THEN in.race.act ELSE "none"]) ELSE w
Look == /\ phase = "look" /\ w' = (IF ToStop = {} THEN Between ELSE DoSwitch(Between, in.f, {}, ToStop, FALSE)) /\ inhibited' = inhibited \cup ToStop
        /\ phase' = "sleep" /\ UNCHANGED <<in, tick, before>>
Others == /\ phase = "sleep" /\ w' = Meddle(w, in.hist[tick + 1]) /\ tick' = tick + 1 /\ phase' = (IF tick = MaxTicks THEN "exit" ELSE "look") /\ UNCHANGED <<in, inhibited, before>>
Exit == /\ phase = "exit" /\ w' = (IF inhibited = {} THEN w ELSE DoSwitch(w, in.f, inhibited, {}, FALSE)) /\ before' = w.st /\ phase' = "done" /\ UNCHANGED <<in, tick, inhibited>>
Next == Look \/ Others \/ Exit
Spec == Init /\ [][Next]_vars
\* ---- properties
OnlyNamed == \A k \in 1..Len(w.log) : w.log[k].stop \cup w.log[k].start \subseteq in.named
Inhibits == phase = "sleep" => in.named \cap Running(w) = {}
RestartsWhatItStopped == phase = "done" => \A c \in inhibited : w.st[c] # "absent" /\ in.f.refuse \cap inhibited = {} => w.st[c] = "running"
NothingElseStarted == phase = "done" => \A c \in Names \ inhibited : w.st[c] = before[c]
Emit == phase = "done" => PrintT(<<"CASE", ToJson([in |-> in, log |-> w.log, st |-> w.st])>>)
=============================================================================
