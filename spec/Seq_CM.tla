------------------------------- MODULE Seq_CM -------------------------------
(* Big-step view of CM for one caller at a time: enumerates every abstract state the manager can be in between    *)
(* calls (loaded names in order, state of each) with a shortest request history leading there.  Each state x each  *)
(* request of the alphabet becomes one scenario replayed on the real code; the recording is judged by Trace_CM.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Names
VARIABLES ld, st, hist, acc      \* acc: hardware answers for the switches accepted so far
Res(n) == IF n \in {"a", "b"} THEN "r1" ELSE n
Running == {n \in ToSet(ld) : st[n] = "run"}
Conflict(S) == \E x, y \in S : x # y /\ Res(x) = Res(y)
Init == ld = <<>> /\ st = [n \in Names |-> "none"] /\ hist = <<>> /\ acc = <<>>
Log(o) == hist' = Append(hist, o)
Load(n) == /\ n \notin ToSet(ld) /\ ld' = Append(ld, n) /\ st' = [st EXCEPT ![n] = "init"] /\ acc' = acc
           /\ Log([op |-> "load", name |-> n])
Unload(n) == /\ n \in ToSet(ld) \ Running /\ ld' = SelectSeq(ld, LAMBDA x : x # n) /\ st' = [st EXCEPT ![n] = "none"] /\ acc' = acc
             /\ Log([op |-> "unload", name |-> n])
Set(S) == SelectSeq(SetToSeq(Names), LAMBDA x : x \in S)
Switch(S, P, ans) ==
  /\ S \subseteq ToSet(ld) \ Running /\ P \subseteq Running /\ S \cup P # {} /\ ~Conflict((Running \ P) \cup S)
  /\ ld' = ld /\ acc' = Append(acc, ans)
  /\ st' = [n \in Names |-> IF n \in P THEN "stop" ELSE IF n \in S THEN (IF ans = "E" THEN "abort" ELSE "run") ELSE st[n]]
  /\ Log([op |-> "switch", start |-> Set(S), stop |-> Set(P)])
Next == \/ \E n \in Names : Load(n) \/ Unload(n)
        \/ \E S, P \in SUBSET Names : \E ans \in {"D", "E"} : Switch(S, P, ans)
Spec == Init /\ [][Next]_<<ld, st, hist, acc>>
View == <<ld, st>>
Emit == PrintT(<<"NODE", ToJson([path |-> hist, acc |-> acc, ld |-> ld, st |-> st])>>)
=============================================================================
