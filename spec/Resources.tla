----------------------------- MODULE Resources ------------------------------
(* A hardware interface as a registry of named handles with a claim set (property C13).                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Names, Depth
VARIABLES claiming, reg, claims, hist
vars == <<claiming, reg, claims, hist>>
Init == claiming \in BOOLEAN /\ reg = [n \in Names |-> 0] /\ claims = {} /\ hist = <<>>
Known(n) == reg[n] # 0
Obs(r, g, c) == [res |-> r, names |-> SetToSeq({n \in Names : g[n] # 0}), claims |-> SetToSeq(c)]
Log(op, n, r, g, c) == hist' = Append(hist, [op |-> op, name |-> n, obs |-> Obs(r, g, c)])
Token == Len(hist) + 1
Register(n) == LET g == [reg EXCEPT ![n] = Token] IN /\ reg' = g /\ claims' = claims /\ claiming' = claiming /\ Log("reg", n, Token, g, claims)
Get(n) == LET c == IF claiming /\ Known(n) THEN claims \cup {n} ELSE claims
          IN claims' = c /\ UNCHANGED <<claiming, reg>> /\ Log("get", n, reg[n], reg, c)      \* result 0: an error naming n
Claim(n) == LET c == claims \cup {n} IN claims' = c /\ UNCHANGED <<claiming, reg>> /\ Log("claim", n, 0, reg, c)
Clear == claims' = {} /\ UNCHANGED <<claiming, reg>> /\ Log("clear", "", 0, reg, {})
Next == Len(hist) < Depth /\ (Clear \/ \E n \in Names : Register(n) \/ Get(n) \/ Claim(n))
Spec == Init /\ [][Next]_vars
NoClaimWithoutPolicy == \A k \in 1..Len(hist) : (~claiming /\ \A j \in 1..k : hist[j].op # "claim") => hist[k].obs.claims = <<>>
NamesNeverForgotten == [][\A n \in Names : Known(n) => reg'[n] # 0]_vars
LookupsKeepHandles == [][hist'[Len(hist')].op # "reg" => reg' = reg]_vars
Emit == Len(hist) = Depth => PrintT(<<"CASE", ToJson([claiming |-> claiming, ops |-> hist])>>)
=============================================================================
