---- MODULE CommandTool ----
\* The command tool and the functions it is made of: every command on every argument, in order, each answer reported.
EXTENDS ManagerWorld, TLC, Json
CONSTANTS Cmds, Names, MaxArgs, States, Throws, Order
VARIABLES in, w, phase, i, kept, result
vars == <<in, w, phase, i, kept, result>>
Fine == [load |-> Names, unload |-> Names, refuse |-> {}, reload |-> TRUE, throws |-> {}]
\* the order in which the manager lists its controllers
Listed(x) == SelectSeq(Order, LAMBDA c : x.st[c] # "absent")
SeqUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
\* "api start" and the like: one call of the function with all the names, its return value being the result
PerName == {"load", "unload", "start", "stop", "spawn", "kill"}
Api == {"api start", "api stop", "api both"}
Reloads == {"reload", "reload restore", "api reload", "api restore"}
Queries == {"list", "types", "nonsense", "none"}
Argless == Reloads \cup Queries
Faults == {[Fine EXCEPT !.load = l, !.unload = u, !.refuse = r, !.throws = t, !.reload = d] : l \in SUBSET Names, u \in SUBSET Names, r \in {{}} \cup {{c} : c \in Names}, t \in {{}} \cup {{x} : x \in Throws}, d \in BOOLEAN}
Uses(k) == CASE k = "load" -> {"load"} [] k = "unload" -> {"unload"} [] k = "spawn" -> {"load", "refuse"} [] k = "kill" -> {"unload"} [] k \in {"start", "api start", "api both"} -> {"refuse"}
             [] k \in {"reload", "api reload"} -> {"reload"} [] k \in {"reload restore", "api restore"} -> {"reload", "load", "refuse"} [] OTHER -> {}
Inputs == {x \in [cmd : Cmds, args : SeqUpTo(Names, MaxArgs), st : [Names -> States], f : Faults] :
             /\ (x.cmd \in Argless => x.args = <<>>)
             /\ ("load" \in Uses(x.cmd) \/ x.f.load = Names) /\ ("unload" \in Uses(x.cmd) \/ x.f.unload = Names) /\ ("refuse" \in Uses(x.cmd) \/ x.f.refuse = {}) /\ ("reload" \in Uses(x.cmd) \/ x.f.reload)}
Init == /\ in \in Inputs /\ w = [st |-> in.st, log |-> <<>>] /\ i = 1 /\ kept = w /\ result = "" /\ phase = "first"
Two == in.cmd \in {"spawn", "kill"}
One(k, c) == CASE k \in {"load", "spawn"} -> DoLoad(w, in.f, c) [] k = "unload" -> DoUnload(w, in.f, c) [] k = "start" -> DoSwitch(w, in.f, {c}, {}, TRUE) [] OTHER -> DoSwitch(w, in.f, {}, {c}, TRUE)
Other(k, c) == IF k = "spawn" THEN DoSwitch(w, in.f, {c}, {}, TRUE) ELSE DoUnload(w, in.f, c)
\* a call that fails altogether ends the tool
Crash == phase' = "done" /\ result' = "x"
First == /\ phase = "first" /\ in.cmd \in PerName /\ i <= Len(in.args) /\ w' = One(in.cmd, in.args[i]) /\ i' = i + 1 /\ UNCHANGED <<in, kept>>
         /\ IF Answer(w') = "x" THEN Crash ELSE UNCHANGED <<phase, result>>
FirstDone == /\ phase = "first" /\ in.cmd \in PerName /\ i > Len(in.args) /\ phase' = (IF Two THEN "second" ELSE "done") /\ i' = 1 /\ UNCHANGED <<in, w, kept, result>>
Second == /\ phase = "second" /\ i <= Len(in.args) /\ w' = Other(in.cmd, in.args[i]) /\ i' = i + 1 /\ UNCHANGED <<in, kept>>
          /\ IF Answer(w') = "x" THEN Crash ELSE UNCHANGED <<phase, result>>
SecondDone == phase = "second" /\ i > Len(in.args) /\ phase' = "done" /\ UNCHANGED <<in, w, kept, i, result>>
\* the functions: all names in one request; "both" starts the first name and stops the others
StartSet == IF in.cmd = "api start" THEN Range(in.args) ELSE IF in.cmd = "api both" /\ in.args # <<>> THEN {in.args[1]} ELSE {}
StopSet == IF in.cmd = "api stop" THEN Range(in.args) ELSE IF in.cmd = "api both" /\ in.args # <<>> THEN Range(Tail(in.args)) ELSE {}
Call == /\ phase = "first" /\ in.cmd \in Api /\ UNCHANGED <<in, i, kept>>
        /\ IF in.args = <<>> THEN w' = w /\ phase' = "done" /\ result' = "True"
           ELSE w' = DoSwitch(w, in.f, StartSet, StopSet, TRUE) /\ phase' = "done" /\ result' = (CASE Answer(w') = "ok" -> "True" [] Answer(w') = "no" -> "False" [] OTHER -> "x")
Verdict(x) == IF \E k \in 1..Len(x.log) : x.log[k].ok # "ok" THEN "False" ELSE "True"
Reload == /\ phase = "first" /\ in.cmd \in Reloads /\ w' = DoReload(w, in.f) /\ UNCHANGED <<in, i, kept>>
          /\ IF in.cmd \in {"reload restore", "api restore"} THEN phase' = "reloading" /\ UNCHANGED result ELSE phase' = "done" /\ result' = Verdict(w')
\* with restore, what was loaded before is loaded again in the order it was listed and what was running is started again, as far as possible
Before == Listed(kept)
Restore == /\ phase = "reloading" /\ i <= Len(Before) /\ w' = DoLoad(w, in.f, Before[i]) /\ i' = i + 1 /\ UNCHANGED <<in, phase, kept, result>>
Restart == /\ phase = "reloading" /\ i > Len(Before) /\ phase' = "done" /\ UNCHANGED <<in, i, kept>>
           /\ w' = (IF Running(kept) = {} THEN w ELSE DoSwitch(w, in.f, Running(kept), {}, FALSE)) /\ result' = Verdict(w')
Query == /\ phase = "first" /\ in.cmd \in Queries /\ phase' = "done" /\ UNCHANGED <<in, w, i, kept, result>>
Next == First \/ FirstDone \/ Second \/ SecondDone \/ Call \/ Reload \/ Restore \/ Restart \/ Query
Spec == Init /\ [][Next]_vars
\* ---- properties
Requests(op) == SelectSeq(w.log, LAMBDA e : e.op = op)
EveryArgument == (phase = "done" /\ in.cmd \in PerName /\ result # "x") =>
   /\ Len(w.log) = (IF Two THEN 2 ELSE 1) * Len(in.args)
   /\ \A k \in 1..Len(in.args) : LET e == w.log[k] IN in.args[k] = e.c \/ {in.args[k]} = e.start \cup e.stop
OneCommand == \A k \in 1..Len(w.log) : w.log[k].op \in (CASE in.cmd = "load" -> {"load"} [] in.cmd = "unload" -> {"unload"} [] in.cmd = "spawn" -> {"load", "switch"} [] in.cmd = "kill" -> {"switch", "unload"}
                  [] in.cmd \in {"start", "stop"} \cup Api -> {"switch"} [] in.cmd \in Reloads -> {"reload", "load", "switch"} [] OTHER -> {})
Honest == \A k \in 1..Len(w.log) : w.log[k].rep = (w.log[k].ok # "ok")
Restored == (phase = "done" /\ in.cmd \in {"reload restore", "api restore"} /\ result = "True") => w.st = in.st
Killed == (phase = "done" /\ in.cmd = "kill" /\ in.f.unload = Names /\ in.f.throws = {}) => Range(in.args) \cap Loaded(w) = {}
Spawned == (phase = "done" /\ in.cmd = "spawn" /\ in.f.load = Names /\ in.f.refuse = {} /\ in.f.throws = {}) => Range(in.args) \subseteq Running(w)
Emit == phase = "done" => PrintT(<<"CASE", ToJson([in |-> in, log |-> w.log, st |-> w.st, result |-> result, listed |-> Listed(w)])>>)
=============================================================================
