---------------------------- MODULE LimitsLoad ----------------------------
(* Loading joint limits from the parameter server and from a URDF joint (property C20).  A limit specification holds, for   *)
(* every field, where its value came from ("prior" = what it held before); has- and wraparound flags are booleans.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Mode                                    \* Mode: "one" (one load, everything varied), "seq" (several loads in a row), "soft"
VARIABLES lim, soft, start, hist
vars == <<lim, soft, start, hist>>
Quantities == {"position", "velocity", "acceleration", "jerk", "effort"}
Fields(q) == IF q = "position" THEN {"min_position", "max_position"} ELSE {"max_" \o q}
AllFields == UNION {Fields(q) : q \in Quantities}
SoftFields == {"k_position", "k_velocity", "soft_lower_limit", "soft_upper_limit"}
Flag == {"absent", "true", "false", "bad"}              \* "bad": a parameter of another type
Value == {"absent", "num", "int", "bad"}
Given(v) == v \in {"num", "int"}
\* ---- a parameter specification: flag per quantity, value per field, wraparound flag
Off == [flag |-> [q \in Quantities |-> "absent"], val |-> [f \in AllFields |-> "absent"], wrap |-> "absent"]
Full == [flag |-> [q \in Quantities |-> "true"], val |-> [f \in AllFields |-> "num"], wrap |-> "absent"]
Denied == [flag |-> [q \in Quantities |-> "false"], val |-> [f \in AllFields |-> "num"], wrap |-> "true"]
Backgrounds == {Off, Full, Denied}
Vary(b, q) == {[flag |-> [b.flag EXCEPT ![q] = fl], val |-> [f \in AllFields |-> IF f \in Fields(q) THEN vs[f] ELSE b.val[f]], wrap |-> w] :
                 fl \in Flag, vs \in [Fields(q) -> Value], w \in (IF q = "position" THEN Flag ELSE {b.wrap})}
Specs == IF Mode = "seq" THEN {Off, Full, Denied, [Full EXCEPT !.flag["position"] = "false", !.wrap = "false"], [Full EXCEPT !.flag["effort"] = "absent", !.val["max_position"] = "absent"]}
         ELSE UNION {Vary(b, q) : b \in Backgrounds, q \in Quantities}
Empty(s) == (\A q \in Quantities : s.flag[q] = "absent") /\ (\A f \in AllFields : s.val[f] = "absent") /\ s.wrap = "absent"
On(s, q) == s.flag[q] = "true" /\ \A f \in Fields(q) : Given(s.val[f])
FromParams(l, s) == [has |-> [q \in Quantities |-> IF s.flag[q] = "false" THEN FALSE ELSE IF On(s, q) THEN TRUE ELSE l.has[q]],
                     val |-> [f \in AllFields |-> IF \E q \in Quantities : f \in Fields(q) /\ On(s, q) THEN s.val[f] ELSE l.val[f]],
                     wrap |-> IF s.flag["position"] = "false" /\ s.wrap \in {"true", "false"} THEN s.wrap = "true" ELSE l.wrap]
Names == {"joint1", "arm/joint1", "bad name", ""}
\* ---- a URDF joint
Types == {"UNKNOWN", "REVOLUTE", "CONTINUOUS", "PRISMATIC", "FLOATING", "PLANAR", "FIXED"}
FromUrdf(l, t) == LET bounded == t \in {"REVOLUTE", "PRISMATIC"} IN
                  [has |-> [l.has EXCEPT !["position"] = bounded, !["velocity"] = TRUE, !["effort"] = TRUE],
                   val |-> [f \in AllFields |-> IF (bounded /\ f \in Fields("position")) \/ f \in {"max_velocity", "max_effort"} THEN "urdf" ELSE l.val[f]],
                   wrap |-> l.wrap \/ t = "CONTINUOUS"]
Fresh == [has |-> [q \in Quantities |-> FALSE], val |-> [f \in AllFields |-> "prior"], wrap |-> FALSE]
Used == [has |-> [q \in Quantities |-> TRUE], val |-> [f \in AllFields |-> "prior"], wrap |-> TRUE]
Init == lim \in {Fresh, Used} /\ start = lim /\ soft = [f \in SoftFields |-> "prior"] /\ hist = <<>>
More == Len(hist) < Depth
Step(kind, name, src, res) == hist' = Append(hist, [kind |-> kind, name |-> name, src |-> src, res |-> res, lim |-> lim', soft |-> soft']) /\ UNCHANGED start
\* parameters exist under joint_limits/<name>; an invalid name finds nothing. An empty name looks at joint_limits itself
Found(name, s) == name # "bad name" /\ ~Empty(s)
LoadParams(s, name) == /\ More /\ Mode # "soft" /\ (name = "joint1" \/ s \in Backgrounds) /\ name # ""
                       /\ lim' = (IF Found(name, s) THEN FromParams(lim, s) ELSE lim) /\ UNCHANGED soft
                       /\ Step("params", name, s, Found(name, s))
LoadUrdf(t, has) == /\ More /\ Mode # "soft" /\ lim' = (IF has = "limits" THEN FromUrdf(lim, t) ELSE lim) /\ UNCHANGED soft
                    /\ Step("urdf", "joint1", [type |-> t, has |-> has], has = "limits")
SoftOn(fl, vs) == fl = "true" /\ \A f \in SoftFields : Given(vs[f])
LoadSoftParams(fl, vs, name) == /\ More /\ Mode = "soft"
                                /\ LET ok == SoftOn(fl, vs) /\ name # "bad name" IN
                                   soft' = (IF ok THEN vs ELSE soft) /\ UNCHANGED lim /\ Step("softparams", name, [flag |-> fl, val |-> vs], ok)
LoadSoftUrdf(has) == /\ More /\ Mode = "soft" /\ soft' = (IF has = "safety" THEN [f \in SoftFields |-> "urdf"] ELSE soft) /\ UNCHANGED lim
                     /\ Step("softurdf", "joint1", [type |-> "REVOLUTE", has |-> has], has = "safety")
Next == \/ \E s \in Specs, n \in Names : LoadParams(s, n)
        \/ \E t \in Types, h \in {"limits", "safety", "null"} : LoadUrdf(t, h)
        \/ \E fl \in Flag, vs \in [SoftFields -> IF Depth > 1 THEN {"absent", "num"} ELSE Value], n \in {"joint1", "bad name"} : LoadSoftParams(fl, vs, n)
        \/ \E h \in {"limits", "safety", "null"} : LoadSoftUrdf(h)
Spec == Init /\ [][Next]_vars
\* ---- properties of the specified behaviour
Last == hist'[Len(hist')]
NothingSpecified == [][~Last.res => UNCHANGED <<lim, soft>>]_vars
OnlySpecified == [][Last.kind = "params" => \A f \in AllFields : lim'.val[f] # lim.val[f] => lim'.val[f] = Last.src.val[f] /\ Given(Last.src.val[f])]_vars
\* both ends of the position range or neither, and soft limits as a whole
Whole == [][ /\ (lim'.val["min_position"] = "num" \/ lim'.val["min_position"] = "int") /\ lim.val["min_position"] = "prior" => lim'.val["max_position"] # "prior"
             /\ soft' = soft \/ \A f \in SoftFields : soft'[f] # "prior" ]_vars
SwitchedOff == [][(Last.kind = "params" /\ Last.res) => \A q \in Quantities : Last.src.flag[q] = "false" => ~lim'.has[q]]_vars
UrdfKeepsRest == [][Last.kind = "urdf" => lim'.has["acceleration"] = lim.has["acceleration"] /\ lim'.has["jerk"] = lim.has["jerk"]]_vars
Emit == Len(hist) = Depth => PrintT(<<"CASE", ToJson([used |-> start = Used, ops |-> hist])>>)
=============================================================================
