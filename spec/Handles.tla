------------------------------ MODULE Handles -------------------------------
(* Handles of the hardware interfaces (property C14): which data locations each kind of handle needs, what its     *)
(* accessors read and which location each command is written to.  Every kind, every set of missing locations and   *)
(* every sequence of accesses up to Depth is enumerated with the outcome the specification prescribes.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANT Depth
PVE == <<"pos", "vel", "eff">>
States == [s4 |-> PVE, s6 |-> PVE \o <<"abs", "tor">>, s5a |-> PVE \o <<"abs">>, s5t |-> PVE \o <<"tor">>]
Cmds == [S |-> <<>>, H |-> <<"cmd">>, PV |-> <<"cpos", "cvel">>, PVA |-> <<"cpos", "cvel", "cacc">>, PVTG |-> <<"cpos", "cvel", "ceff", "ckp", "ckd">>]
\* what a handle is made of: owner (joint / actuator), state variant, command part
Kinds == {[own |-> o, state |-> s, cmd |-> c] : o \in {"joint"}, s \in DOMAIN States, c \in DOMAIN Cmds}
         \cup {[own |-> "act", state |-> s, cmd |-> c] : s \in DOMAIN States, c \in {"S", "H"}}
         \cup {[own |-> "mode", state |-> "-", cmd |-> "-"], [own |-> "ft", state |-> "-", cmd |-> "-"], [own |-> "imu", state |-> "-", cmd |-> "-"]}
StateOf(k) == IF k.state = "-" THEN <<>> ELSE States[k.state]
CmdOf(k) == CASE k.own = "mode" -> <<"mode">> [] k.cmd = "-" -> <<>> [] OTHER -> Cmds[k.cmd]
Sensors(k) == CASE k.own = "ft" -> <<"force", "torque">> [] k.own = "imu" -> <<"ori", "oric", "ang", "angc", "lin", "linc">> [] OTHER -> <<>>
Slots(k) == StateOf(k) \o CmdOf(k) \o Sensors(k)
Required(k) == ToSet(StateOf(k) \o CmdOf(k))                \* a sensor's data locations may all be missing
Optional(k) == IF k.state = "-" THEN {} ELSE {"abs", "tor"} \ ToSet(StateOf(k))
Throws(k, missing) == missing \cap Required(k) # {}

VARIABLES kind, nulls, mem, step, hist
vars == <<kind, nulls, mem, step, hist>>
Ix(s) == CHOOSE i \in 1..Len(Slots(kind)) : Slots(kind)[i] = s
IsMode == kind.own = "mode"
Val(n, s) == IF IsMode THEN n % 7 ELSE 100 * n + Ix(s)
Init == /\ kind \in Kinds /\ nulls \in SUBSET ToSet(Slots(kind)) /\ step = 0 /\ hist = <<>>
        /\ mem = [s \in ToSet(Slots(kind)) |-> IF kind.own = "mode" THEN 3 ELSE CHOOSE i \in 1..Len(Slots(kind)) : Slots(kind)[i] = s]
Live == nulls = {} \/ kind.own \in {"ft", "imu"}
Do(op, s, v, m) == step < Depth /\ Live /\ step' = step + 1 /\ mem' = m /\ hist' = Append(hist, <<op, s, v>>) /\ UNCHANGED <<kind, nulls>>
\* the hardware changes a value underneath
Poke(s)  == s \notin nulls /\ Do("poke", s, <<Val(step + 1, s)>>, [mem EXCEPT ![s] = Val(step + 1, s)])
\* a command is written: only its own location changes
Write(s) == Do("set", s, <<Val(step + 1, s)>>, [mem EXCEPT ![s] = Val(step + 1, s)])
WriteAll == Len(CmdOf(kind)) > 1 /\ Do("setall", "", [i \in 1..Len(CmdOf(kind)) |-> Val(step + 1, CmdOf(kind)[i])], [s \in DOMAIN mem |-> IF s \in ToSet(CmdOf(kind)) THEN Val(step + 1, s) ELSE mem[s]])
\* working on through a copy of the handle
Copy     == Do("copy", "", <<>>, mem)
Next == (\E s \in ToSet(Slots(kind)) : Poke(s)) \/ (\E s \in ToSet(CmdOf(kind)) : Write(s)) \/ WriteAll \/ Copy
Spec == Init /\ [][Next]_vars
Done == hist'[Len(hist')]
OnlyOwn == [][\A s \in DOMAIN mem : (mem'[s] # mem[s]) => (Done[2] = s \/ (Done[1] = "setall" /\ s \in ToSet(CmdOf(kind))))]_vars
\* what must be observed at the end of a history
Emit == (step = Depth \/ ~Live) =>
          PrintT(<<"CASE", ToJson([kind |-> kind, slots |-> Slots(kind), nulls |-> SetToSeq(nulls), ops |-> hist, throws |-> Throws(kind, nulls),
                                   mem |-> mem, unavailable |-> SetToSeq(Optional(kind))])>>)
=============================================================================
