------------------------------ MODULE TransLoad ------------------------------
(* Loading transmissions into a robot and running them (property C25).  Data live in fields of actuators and of the joints the *)
(* loader provides; every transmission interface maps one side's fields to the other's through the equations of TransmissionMaps. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rational, TransmissionMaps
CONSTANTS Mode, MaxOps
VARIABLES robot, ts, split, wiring, script, st, loaded, S, hist
vars == <<robot, ts, split, wiring, script, st, loaded, S, hist>>
\* ---- what may be described
\* hw: S state, P/V/E commands, BP/BV/BE both directions, X unknown; own: the robot has its own joint state interface, with another joint or the same
HWs == {<<"S">>, <<"P">>, <<"V">>, <<"E">>, <<"P", "E">>, <<"S", "V">>, <<"BP">>, <<"BV">>, <<"BE">>, <<"X">>, <<"X", "V">>, <<"E", "E">>, <<"BE", "P", "BP">>}
T(s, k, h, m, p, f) == [slot |-> s, kind |-> k, hw |-> h, mix |-> m, perm |-> p, fault |-> f]
R(i, se, o) == [ifaces |-> i, sensors |-> se, own |-> o]
All == {"S", "P", "V", "E"}
Kinds == {"simple", "diff", "four"}
Two_ == {"diff", "four"}
Sensors == {"both", "none", "abs", "torque", "first", "second"}
Pairs(s, hws) == {T(s, k, h, "same", "none", "ok") : k \in Kinds, h \in hws}
Some(s) == Pairs(s, {<<"E">>, <<"P", "E">>, <<"BV">>}) \cup {T(s, "simple", <<"E">>, "same", "none", f) : f \in {"type", "zero", "missing"}}
           \cup {T(s, "diff", <<"P", "E">>, "reversed", "none", "ok"), T(s, "four", <<"P", "E">>, "different", "none", "ok"), T(s, "diff", <<"S">>, "same", IF Mode = "sim" THEN "none" ELSE "both", "ok")}
           \cup IF s = 2 THEN {T(4, k, h, "same", "none", "ok") : k \in Two_, h \in {<<"E">>, <<"V", "P">>}} \cup {T(3, "simple", h, "same", "none", "ok") : h \in {<<"P">>, <<"E">>, <<"BV">>}} ELSE {}   \* slots 3 and 4: the first joint of slot 1, other actuators
Worlds ==
  CASE Mode = "one" -> {<<R(All, se, "none"), <<t>>>> : se \in Sensors, t \in Pairs(1, HWs)}
                       \cup {<<R(i, "none", o), <<t>>>> : i \in SUBSET All, o \in {"none", "other"}, t \in Pairs(1, HWs)}
                       \cup {<<R(All, "both", "none"), <<T(1, k, h, "same", "none", f)>>>> : k \in Kinds, h \in {<<"E">>, <<"S">>}, f \in {"broken", "nothing", "noroot"}}
                       \cup {<<R(All, "both", "same"), <<T(1, "simple", h, "same", "none", "ok")>>>> : h \in HWs}
    [] Mode = "faults" -> {<<R(All, se, "none"), <<T(1, k, h, m, p, f)>>>> : se \in {"both", "first"}, k \in Two_, h \in {<<"E">>, <<"P", "E">>, <<"BV", "P">>}, m \in {"same", "reversed", "different", "more", "fewer"}, p \in {"none", "acts", "joints", "both"}, f \in {"ok", "type", "zero", "missing"}}
    [] Mode = "two" -> {<<r, <<t, u>>>> : r \in {R(All, "both", "none"), R({"S", "E"}, "none", "other")}, t \in Some(1), u \in Some(2)}
    [] OTHER -> {<<R(i, se, o), <<t, u>>>> : i \in {All, {"S", "E"}}, se \in {"both", "none"}, o \in {"none", "other"}, t \in Some(1), u \in Some(2)}
Kind8 == {"A2Jstate", "J2Aposition", "J2Avelocity", "J2Aeffort", "J2Astate", "A2Jposition", "A2Jvelocity", "A2Jeffort"}
Scripts == IF Mode = "sim" THEN {<<>>}
           ELSE {<<"J2Aeffort", "J2Astate", "write", "A2Jstate", "J2Aposition", "J2Avelocity", "J2Aeffort", "write", "J2Astate", "A2Jposition", "A2Jvelocity", "A2Jeffort">>,
                 <<"A2Jeffort", "A2Jstate", "write", "J2Aeffort", "A2Jeffort", "J2Avelocity", "A2Jvelocity", "J2Aposition", "A2Jposition", "write", "A2Jstate", "J2Astate">>}
\* ---- elements
Joints == <<"j1", "j2", "j3", "j4">>
Actuators == <<"a1", "a2", "a3", "a4">>
JSet == {Joints[i] : i \in 1..4}
ASet == {Actuators[i] : i \in 1..4}
Fields == <<"position", "velocity", "effort", "absolute_position", "torque_sensor", "P", "V", "E">>
FieldSet == {Fields[i] : i \in 1..8}
States == {Fields[i] : i \in 1..5}
At(xs, x) == CHOOSE i \in 1..Len(xs) : xs[i] = x
DimOf(t) == IF t.kind = "simple" THEN 1 ELSE 2
Off(t) == IF t.slot = 2 THEN 2 ELSE 0
JointsOf(t) == IF t.slot = 3 THEN <<"j1">> ELSE IF t.slot = 4 THEN <<"j1", "j3">> ELSE [i \in 1..DimOf(t) |-> Joints[Off(t) + i]]
ActuatorsOf(t) == IF t.slot = 3 THEN <<"a4">> ELSE IF t.slot = 4 THEN <<"a3", "a4">> ELSE [i \in 1..DimOf(t) |-> Actuators[Off(t) + i]]
Swap(v) == IF Len(v) = 2 THEN <<v[2], v[1]>> ELSE v
\* the order in which the data meet the equations: by role, or (the code as it is) as declared
InOrder(t, xs, what) == IF wiring = "role" /\ t.perm \in {what, "both"} THEN Swap(xs) ELSE xs
JData(t) == InOrder(t, JointsOf(t), "joints")
AData(t) == InOrder(t, ActuatorsOf(t), "acts")
Conf(t) == [kind |-> t.kind, ign |-> FALSE, ar |-> SubSeq(IF t.slot = 2 THEN <<<<5, 1>>, <<2, 1>>>> ELSE <<<<2, 1>>, <<-4, 1>>>>, 1, DimOf(t)),
            jr |-> SubSeq(IF t.slot = 2 THEN <<<<-1, 2>>, <<3, 1>>>> ELSE <<<<3, 1>>, <<1, 2>>>>, 1, DimOf(t)), of |-> SubSeq(<<<<1, 1>>, <<-2, 1>>>>, 1, DimOf(t))]
HasSensor(a, q) == CASE robot.sensors = "both" -> TRUE [] robot.sensors = "none" -> FALSE [] robot.sensors = "abs" -> q = "absolute_position"
                      [] robot.sensors = "torque" -> q = "torque_sensor" [] robot.sensors = "second" -> a = "a2" [] OTHER -> a = "a1"
\* ---- loading
Command(h) == CASE h \in {"P", "BP"} -> "P" [] h \in {"V", "BV"} -> "V" [] h \in {"E", "BE"} -> "E" [] OTHER -> "S"
QuantityOf(c) == CASE c = "P" -> "position" [] c = "V" -> "velocity" [] c = "E" -> "effort"
OwnJoints == CASE robot.own = "none" -> {} [] robot.own = "other" -> {"jx"} [] robot.own = "same" -> {"j1"}
FreshJoint == [f \in FieldSet |-> NaN]
Available(t, h) == {"S", Command(h)} \subseteq robot.ifaces /\ t.fault # "missing"
\* joints appear in the joint state interface and, for a command, in the command interface; those already there are left alone
Provide(t, h, s) ==
  LET js == {JointsOf(t)[i] : i \in 1..DimOf(t)} c == Command(h)
      s1 == [s EXCEPT !.jsi = @ \cup js, !.hasjsi = TRUE, !.raw = [j \in DOMAIN @ \cup (js \ s.jsi) |-> IF j \in DOMAIN @ THEN @[j] ELSE FreshJoint]]
  IN IF c = "S" THEN s1 ELSE [s1 EXCEPT !.cmd[c] = @ \cup js, !.raw = [j \in DOMAIN @ \cup (js \ s.cmd[c]) |-> IF j \in DOMAIN @ THEN @[j] ELSE FreshJoint]]
Connect(n, t, h, s) ==
  LET c == Command(h) kinds == {"A2Jstate"} \cup (IF c = "S" THEN {} ELSE {"J2A" \o QuantityOf(c)}) \cup (IF h \in {"BP", "BV", "BE"} THEN {"J2Astate", "A2J" \o QuantityOf(c)} ELSE {})
  IN [s EXCEPT !.reg = [k \in Kind8 |-> IF k \in kinds THEN @[k] \cup {n} ELSE @[k]]]
RECURSIVE LoadHw(_, _, _, _)
LoadHw(n, t, i, x) ==   \* x = <<any connected so far, state>>
  IF i > Len(t.hw) THEN x
  ELSE LET h == t.hw[i] IN
       IF h = "X" \/ ~Available(t, h) THEN LoadHw(n, t, i + 1, x)
       ELSE LET s1 == Provide(t, h, x[2]) IN
            IF \A k \in 1..DimOf(t) : JointsOf(t)[k] \in DOMAIN s1.raw THEN LoadHw(n, t, i + 1, <<TRUE, Connect(n, t, h, s1)>>) ELSE LoadHw(n, t, i + 1, <<x[1], s1>>)
Plausible(t) == t.fault \notin {"type", "zero", "broken", "nothing", "noroot"} /\ (DimOf(t) = 1 \/ t.mix \in {"same", "reversed"})
LoadOne(n, s) == IF ~Plausible(ts[n]) THEN <<FALSE, s>> ELSE LoadHw(n, ts[n], 1, <<FALSE, s>>)
\* one call loads all, stopping at the first failure; separate calls go on
RECURSIVE LoadFrom(_, _, _)
LoadFrom(n, x, s) == IF n > Len(ts) THEN <<x, s>> ELSE LET r == LoadOne(n, s) IN IF ~r[1] /\ ~split THEN <<Append(x, FALSE), r[2]>> ELSE LoadFrom(n + 1, Append(x, r[1]), r[2])
Results(x) == IF split THEN x ELSE <<\A i \in 1..Len(x) : x[i]>>
\* ---- running
Value(side, i, q, k) == Int2Rat(((7 * q + 11 * i + 5 * side + 13 * k) % 29) - 9)
OwnValue(q) == Int2Rat(100 + q)
Write(s, k) == [s EXCEPT !.act = [a \in ASet |-> [f \in FieldSet |-> Value(0, At(Actuators, a), At(Fields, f), k)]],
                         !.raw = [j \in DOMAIN @ |-> [f \in FieldSet |-> IF f \in States \/ j \in s.cmd[f] THEN Value(1, At(Joints, j), At(Fields, f), k) ELSE @[j][f]]]]
\* field f of the actuators to or from field f of the joints, through the equation of quantity q
ToJoints(t, f, q, s) == LET v == Image(Conf(t), <<"A2J", q>>, [i \in 1..DimOf(t) |-> s.act[AData(t)[i]][f]])
                        IN [s EXCEPT !.raw = [j \in DOMAIN @ |-> IF \E i \in 1..DimOf(t) : JData(t)[i] = j THEN [@[j] EXCEPT ![f] = v[CHOOSE i \in 1..DimOf(t) : JData(t)[i] = j]] ELSE @[j]]]
ToActuators(t, f, q, s) == LET v == Image(Conf(t), <<"J2A", q>>, [i \in 1..DimOf(t) |-> s.raw[JData(t)[i]][f]])
                           IN [s EXCEPT !.act = [a \in ASet |-> IF \E i \in 1..DimOf(t) : AData(t)[i] = a THEN [@[a] EXCEPT ![f] = v[CHOOSE i \in 1..DimOf(t) : AData(t)[i] = a]] ELSE @[a]]]
Sensed(t, q) == \A i \in 1..DimOf(t) : HasSensor(ActuatorsOf(t)[i], q)
Run(t, k, s) ==
  CASE k = "A2Jstate" -> LET b == ToJoints(t, "effort", "effort", ToJoints(t, "velocity", "velocity", ToJoints(t, "position", "position", s)))
                             c == IF Sensed(t, "absolute_position") THEN ToJoints(t, "absolute_position", "absolute_position", b) ELSE b
                         IN IF Sensed(t, "torque_sensor") THEN ToJoints(t, "torque_sensor", "torque_sensor", c) ELSE c
    [] k = "J2Astate" -> ToActuators(t, "effort", "effort", ToActuators(t, "velocity", "velocity", ToActuators(t, "position", "position", s)))
    [] k = "J2Aposition" -> ToActuators(t, "P", "position", s) [] k = "J2Avelocity" -> ToActuators(t, "V", "velocity", s) [] k = "J2Aeffort" -> ToActuators(t, "E", "effort", s)
    [] k = "A2Jposition" -> ToJoints(t, "P", "position", s) [] k = "A2Jvelocity" -> ToJoints(t, "V", "velocity", s) [] k = "A2Jeffort" -> ToJoints(t, "E", "effort", s)
RECURSIVE Propagate(_, _, _)
Propagate(n, k, s) == IF n > Len(ts) THEN s ELSE Propagate(n + 1, k, IF n \in s.reg[k] THEN Run(ts[n], k, s) ELSE s)
\* ---- what can be seen: every joint's state, every commandable joint's commands, every actuator
JointState(j, s) == IF j \in OwnJoints THEN [i \in 1..5 |-> OwnValue(i)] ELSE [i \in 1..5 |-> s.raw[j][Fields[i]]]
Seen(s) == [js |-> [j \in s.jsi |-> JointState(j, s)],
            cmd |-> [c \in {"P", "V", "E"} |-> [j \in s.cmd[c] |-> s.raw[j][c]]], act |-> [i \in 1..4 |-> [f \in 1..8 |-> s.act[Actuators[i]][Fields[f]]]]]
Writes == Cardinality({i \in 1..Len(hist) : hist[i].op = "write"})
Step(op) == LET s == IF op = "write" THEN Write(S, Writes) ELSE Propagate(1, op, S) IN /\ S' = s /\ hist' = Append(hist, [op |-> op, seen |-> Seen(s)])
Init == /\ \E w \in Worlds : robot = w[1] /\ ts = w[2]
        /\ split \in (IF Mode = "one" \/ Mode = "faults" THEN {FALSE} ELSE BOOLEAN) /\ script \in Scripts
        /\ wiring \in (IF \E i \in 1..Len(ts) : ts[i].perm # "none" /\ ts[i].kind # "simple" THEN {"role", "declared"} ELSE {"role"})
        /\ st = "start" /\ loaded = <<>> /\ hist = <<>>
        /\ S = [jsi |-> OwnJoints, hasjsi |-> robot.own # "none", cmd |-> [c \in {"P", "V", "E"} |-> {}], raw |-> <<>>, reg |-> [k \in Kind8 |-> {}], act |-> [a \in ASet |-> [f \in FieldSet |-> Int2Rat(At(Fields, f))]]]
DoLoad == /\ st = "start" /\ st' = "run" /\ UNCHANGED <<robot, ts, split, wiring, script>>
          /\ LET x == LoadFrom(1, <<>>, S) IN loaded' = Results(x[1]) /\ S' = x[2] /\ hist' = <<[op |-> "load", seen |-> Seen(x[2])]>>
Do == /\ st = "run" /\ Len(hist) <= (IF Mode = "sim" THEN MaxOps ELSE Len(script)) /\ UNCHANGED <<robot, ts, split, wiring, script, st, loaded>>
      /\ \E op \in (IF Mode = "sim" THEN {"write"} \cup Kind8 ELSE {script[Len(hist)]}) : Step(op)
Next == DoLoad \/ Do
Spec == Init /\ [][Next]_vars
\* ---- properties
\* a joint that some loaded transmission asked for is where it should be; nothing else is
Asked(c) == UNION {{JointsOf(ts[n])[i] : i \in 1..DimOf(ts[n])} : n \in UNION {S.reg[k] : k \in IF c = "S" THEN Kind8 ELSE {"J2A" \o QuantityOf(c)}}}
Provided == st = "run" => /\ \A c \in {"P", "V", "E"} : S.cmd[c] = Asked(c)
                          /\ (robot.own # "same" => S.jsi = Asked("S") \cup OwnJoints)
OwnUntouched == st = "run" => \A k \in 1..Len(hist) : \A j \in OwnJoints : hist[k].seen.js[j] = [i \in 1..5 |-> OwnValue(i)]
\* commands reach the actuators and states come back: there and back again gives the same values
RoundTrip == (st = "run" /\ Len(hist) > 2 /\ hist[Len(hist)].op = "A2Jstate" /\ hist[Len(hist) - 1].op = "J2Astate" /\ Len(ts) = 1 /\ robot.own # "same") =>
             (S.reg["J2Astate"] # {} => \A j \in S.jsi \ OwnJoints : \A q \in 1..3 : hist[Len(hist)].seen.js[j][q] = hist[Len(hist) - 2].seen.js[j][q])
Registered == {k \in Kind8 : S.reg[k] # {}}
Complete == st = "run" /\ Len(hist) > (IF Mode = "sim" THEN MaxOps ELSE Len(script))
Emit == Complete => PrintT(<<"CASE", ToJson([robot |-> robot, ts |-> ts, split |-> split, wiring |-> wiring, loaded |-> loaded, hist |-> hist, reg |-> [k \in Registered |-> S.reg[k]],
                                             confs |-> [n \in 1..Len(ts) |-> Conf(ts[n])], joints |-> [n \in 1..Len(ts) |-> JointsOf(ts[n])], acts |-> [n \in 1..Len(ts) |-> ActuatorsOf(ts[n])]])>>)
=============================================================================
