---------------------------- MODULE ConflictLarge ---------------------------
(* Long lists of controllers with many claims, grown step by step (simulated): the conflict of Conflict.tla.        *)
EXTENDS Conflict
Top == Len(ctls)
AddCtl == Top < MaxCtl /\ ctls' = Append(ctls, <<>>)
AddIface == Top > 0 /\ Len(ctls[Top]) < MaxIface /\ ctls' = [ctls EXCEPT ![Top] = Append(@, {})]
Taken == UNION {UNION {ctls[i][j] : j \in DOMAIN ctls[i]} : i \in DOMAIN ctls}
\* mostly resources nobody has yet, so that lists stay free of conflicts for long
AddRes(r) == Top > 0 /\ ctls[Top] # <<>> /\ ctls' = [ctls EXCEPT ![Top][Len(ctls[Top])] = @ \cup {r}]
Late == TLCGet("level") > 12
NextLarge == AddCtl \/ AddIface \/ (\E r \in Resources \ Taken : AddRes(r)) \/ (Late /\ \E r \in Taken : AddRes(r))
SpecLarge == Init /\ [][NextLarge]_ctls
EmitLarge == Top > 2 => Emit
=============================================================================
