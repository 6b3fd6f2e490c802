---- MODULE Spawner ----
\* The spawner: waits for the manager (and for its topic), loads the named controllers, starts what it loaded, and undoes it all on exit.
EXTENDS ManagerWorld, TLC, Json
CONSTANTS Mode, Names, MaxArgs
VARIABLES in, w, phase, i, loaded, cut
vars == <<in, w, phase, i, loaded, cut>>
SeqUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}
Fine == [load |-> Names, unload |-> Names, refuse |-> {}, reload |-> TRUE, throws |-> {}]
Idle == [c \in Names |-> "none"]
None == [c \in Names |-> "absent"]
Input(args, st, f, stopped, acts, c, wait) == [args |-> args, st |-> st, f |-> f, stopped |-> stopped, acts |-> acts, cut |-> c, wait |-> wait]
\* wait: when the manager appears, the timeout given (-1: none given, 0: none at all), the topic and the clock
Ready == [appears |-> 0, timeout |-> -1, topic |-> "none", clock |-> "real", ns |-> "", file |-> FALSE]
Distinct == {s \in SeqUpTo(Names, MaxArgs) : Cardinality(Range(s)) = Len(s)}
Sub(c, S) == c \subseteq S
Inputs ==
  CASE Mode = "loads" -> {Input(a, s, [Fine EXCEPT !.load = l, !.refuse = r], p, Idle, 0, [Ready EXCEPT !.file = y]) :
                            a \in SeqUpTo(Names, MaxArgs), s \in [Names -> {"absent", "stopped", "running"}], l \in SUBSET Names, r \in {{}} \cup {{c} : c \in Names}, p \in BOOLEAN, y \in BOOLEAN}
    [] Mode = "exit" -> {Input(a, None, [Fine EXCEPT !.load = l, !.unload = u], p, k, 0, Ready) :
                            a \in {s \in Distinct : Len(s) = MaxArgs}, l \in SUBSET Names, u \in SUBSET Names, p \in BOOLEAN, k \in [Names -> {"none", "stop", "start", "unload"}]}
    [] Mode = "faults" -> {Input(a, None, [Fine EXCEPT !.load = l, !.throws = t], p, Idle, c, Ready) :
                            a \in Distinct, l \in SUBSET Names, p \in BOOLEAN, c \in 0..MaxArgs, t \in {{}} \cup {{o \o n} : o \in {"load:", "unload:", "start:", "stop:"}, n \in Names}}
    [] Mode = "wait" -> {Input(a, None, Fine, p, Idle, 0, [appears |-> t, timeout |-> o, topic |-> h, clock |-> k, ns |-> n, file |-> y]) :
                            a \in {s \in Distinct : Len(s) = MaxArgs}, p \in BOOLEAN, t \in {0, 10, 40, 10000}, o \in {-1, 0, 5, 50}, h \in {"none", "true", "falsetrue", "silent", "false", "late"}, k \in {"real", "unset"}, n \in {"", "/", "ns", "/ns/", "a/b"}, y \in BOOLEAN}
Init == /\ in \in {x \in Inputs : x.cut <= Len(x.args) /\ (x.wait.topic = "none" \/ x.wait.ns \in {"", "ns"})} /\ w = [st |-> in.st, log |-> <<>>] /\ phase = "wait" /\ i = 1 /\ loaded = <<>> /\ cut = FALSE
\* the manager is waited for, for ever or until the timeout; with a simulated clock that has not started, time is not up
Patience == IF in.wait.timeout = 0 \/ in.wait.clock = "unset" THEN 120 ELSE IF in.wait.timeout = -1 THEN 30 ELSE in.wait.timeout
Found == in.wait.appears <= Patience
Heard == in.wait.topic \in {"none", "true", "falsetrue", "late"}
Wait == /\ phase = "wait" /\ phase' = (IF Found /\ Heard THEN "load" ELSE "done") /\ UNCHANGED <<in, w, i, loaded, cut>>
Signalled == in.cut > 0 /\ i - 1 = in.cut
Load == /\ phase = "load" /\ ~Signalled /\ i <= Len(in.args)
        /\ w' = DoLoad(w, in.f, in.args[i]) /\ i' = i + 1 /\ UNCHANGED <<in, cut>>
        /\ loaded' = IF Answer(w') = "ok" THEN Append(loaded, in.args[i]) ELSE loaded
        /\ phase' = IF Answer(w') = "x" THEN "stop" ELSE "load"
LoadedAll == /\ phase = "load" /\ (Signalled \/ i > Len(in.args)) /\ phase' = (IF Signalled THEN "stop" ELSE "start") /\ cut' = Signalled /\ UNCHANGED <<in, w, i, loaded>>
Start == /\ phase = "start" /\ w' = (IF in.stopped \/ loaded = <<>> THEN w ELSE DoSwitch(w, in.f, Range(loaded), {}, TRUE)) /\ phase' = "spin" /\ UNCHANGED <<in, i, loaded, cut>>
Others == /\ phase = "spin" /\ w' = Meddle(w, in.acts) /\ phase' = "stop" /\ UNCHANGED <<in, i, loaded, cut>>
\* exit: a call that fails may end the clean-up or not
Stop == /\ phase = "stop" /\ w' = (IF loaded = <<>> THEN w ELSE DoSwitch(w, in.f, {}, Range(loaded), FALSE)) /\ i' = Len(loaded) /\ UNCHANGED <<in, loaded, cut>>
        /\ phase' \in IF loaded # <<>> /\ Answer(w') = "x" THEN {"unload", "done"} ELSE {"unload"}
Unload == /\ phase = "unload" /\ i > 0 /\ w' = DoUnload(w, in.f, loaded[i]) /\ i' = i - 1 /\ UNCHANGED <<in, loaded, cut>>
          /\ phase' \in IF Answer(w') = "x" THEN {"unload", "done"} ELSE {"unload"}
UnloadedAll == phase = "unload" /\ i = 0 /\ phase' = "done" /\ UNCHANGED <<in, w, i, loaded, cut>>
Next == Wait \/ Load \/ LoadedAll \/ Start \/ Others \/ Stop \/ Unload \/ UnloadedAll
Spec == Init /\ [][Next]_vars
\* ---- properties
Of(op) == SelectSeq(w.log, LAMBDA e : e.op = op)
LoadsInOrder == LET l == Of("load") IN Len(l) <= Len(in.args) /\ \A k \in 1..Len(l) : l[k].c = in.args[k]
StartsOnlyWhatItLoaded == \A k \in 1..Len(w.log) : w.log[k].start \subseteq Range(loaded) /\ (w.log[k].start # {} => w.log[k].strict /\ ~in.stopped /\ ~cut)
UnloadsReversed == LET u == Of("unload") IN \A k \in 1..Len(u) : u[k].c = loaded[Len(loaded) + 1 - k]
TouchesOnlyWhatItLoaded == \A k \in 1..Len(w.log) : w.log[k].stop \cup (IF w.log[k].op = "unload" THEN {w.log[k].c} ELSE {}) \subseteq Range(loaded)
Undone == (phase = "done" /\ in.f.throws = {}) => \A c \in Range(loaded) : c \in in.f.unload => w.st[c] = "absent"
NothingRunsOn == (phase = "done" /\ in.f.throws = {}) => Range(loaded) \cap Running(w) = {}
Emit == phase = "done" => PrintT(<<"CASE", ToJson([in |-> in, log |-> w.log, st |-> w.st])>>)
=============================================================================
