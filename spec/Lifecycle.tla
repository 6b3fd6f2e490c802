----------------------------- MODULE Lifecycle ------------------------------
(* Life of N controllers (property C01): requests made to them in any order, the hooks that run, the states         *)
(* reported. What is asked of one controller never concerns another.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, N
Ctl == 1..N
VARIABLES st, hist
vars == <<st, hist>>
Initialised(c) == st[c] # "constructed"
Target == [start |-> "running", stop |-> "stopped", wait |-> "waiting", abort |-> "aborted"]
Hook == [start |-> "starting", stop |-> "stopping", wait |-> "waiting", abort |-> "aborting"]
Init == st = [c \in Ctl |-> "constructed"] /\ hist = <<>>
Log(c, op, ok, hooks, s) == LET st2 == [st EXCEPT ![c] = s] IN st' = st2 /\ hist' = Append(hist, [ctl |-> c, op |-> op, ok |-> ok, hooks |-> hooks, st |-> st2])
InitOk(c)   == Log(c, "init_ok", ~Initialised(c), <<>>, IF Initialised(c) THEN st[c] ELSE "initialized")
InitFail(c) == Log(c, "init_fail", FALSE, <<>>, st[c])
Request(c, r) == IF Initialised(c) THEN Log(c, r, TRUE, <<Hook[r]>>, Target[r]) ELSE Log(c, r, FALSE, <<>>, st[c])
Update(c)   == Log(c, "update", TRUE, IF st[c] = "running" THEN <<"update">> ELSE <<>>, st[c])
Next == Len(hist) < Depth /\ \E c \in Ctl : InitOk(c) \/ InitFail(c) \/ Update(c) \/ \E r \in DOMAIN Target : Request(c, r)
Spec == Init /\ [][Next]_vars
TypeOK == \A c \in Ctl : st[c] \in {"constructed", "initialized"} \cup {Target[r] : r \in DOMAIN Target}
HooksAfterInit == \A k \in 1..Len(hist) : hist[k].hooks # <<>> => \E j \in 1..(k - 1) : hist[j].op = "init_ok" /\ hist[j].ok /\ hist[j].ctl = hist[k].ctl
UpdateOnlyRunning == \A k \in 1..Len(hist) : hist[k].hooks = <<"update">> => hist[k].st[hist[k].ctl] = "running"
NeverBack == [][\A c \in Ctl : st[c] # "constructed" => st'[c] # "constructed"]_vars
OthersUntouched == [][\A c \in Ctl : c # hist'[Len(hist')].ctl => st'[c] = st[c]]_vars
InitOnce == \A c \in Ctl : Cardinality({k \in 1..Len(hist) : hist[k].ctl = c /\ hist[k].op = "init_ok" /\ hist[k].ok}) <= 1
Emit == Len(hist) = Depth => PrintT(<<"CASE", ToJson(hist)>>)
=============================================================================
