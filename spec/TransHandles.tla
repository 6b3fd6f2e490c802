---------------------------- MODULE TransHandles ----------------------------
(* Transmission handles and the interfaces that propagate them (property C22).                                                 *)
(* Mode "build": one handle is constructed from a transmission and ten data vectors, each of them <<length, null position>>.    *)
(* Mode "run": transmissions are registered under names, each with data of its own (a slot), and propagated.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
INSTANCE Rational
INSTANCE TransmissionMaps
CONSTANTS Mode, Depth, Deviations, HandleKinds, RunNames, Confs
VARIABLES hk, tr, vec, st, reg, slot, hist
vars == <<hk, tr, vec, st, reg, slot, hist>>
\* ---- what a handle of each kind propagates
Basic == <<"position", "velocity", "effort">>
AllHandleKinds == {"A2Jstate", "A2Jposition", "A2Jvelocity", "A2Jeffort", "J2Astate", "J2Aposition", "J2Avelocity", "J2Aeffort"}
Dir(h) == IF h \in {"A2Jstate", "A2Jposition", "A2Jvelocity", "A2Jeffort"} THEN "A2J" ELSE "J2A"
Single(h) == CASE h \in {"A2Jposition", "J2Aposition"} -> "position" [] h \in {"A2Jvelocity", "J2Avelocity"} -> "velocity" [] OTHER -> "effort"
IsState(h) == h \in {"A2Jstate", "J2Astate"}
Needed(h) == IF IsState(h) THEN {"position", "velocity", "effort"} ELSE {Single(h)}
\* ---- construction
Trs == [none |-> <<1, 1>>, simple |-> <<1, 1>>, diff |-> <<2, 2>>, four |-> <<2, 2>>, wide |-> <<3, 1>>, tall |-> <<1, 2>>]
TrNames == {"none", "simple", "diff", "four", "wide", "tall"}
Keys == {<<s, q>> : s \in {"a", "j"}, q \in QuantitySet}
SizeOf(t, k) == IF k[1] = "a" THEN Trs[t][1] ELSE Trs[t][2]
Shapes(n) == {<<l, 0>> : l \in 0..(n + 1)} \cup {<<n, p>> : p \in 1..n} \cup {<<n + 1, n + 1>>}
Bases(h, t) == {[k \in Keys |-> <<SizeOf(t, k), 0>>], [k \in Keys |-> IF k[2] \in Needed(h) THEN <<SizeOf(t, k), 0>> ELSE <<0, 0>>], [k \in Keys |-> <<0, 0>>],
                [k \in Keys |-> IF k[2] \in {"absolute_position", "torque_sensor"} THEN <<SizeOf(t, k), 0>> ELSE <<0, 0>>]}
Deviate(v, t, n) == IF n = 0 THEN {v}
                    ELSE IF n = 1 THEN {[v EXCEPT ![k] = s] : k \in Keys, s \in {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>>, <<1, 1>>, <<2, 2>>, <<3, 1>>, <<3, 3>>}}
                    ELSE {[v EXCEPT ![k] = <<l, 0>>, ![k2] = <<m, 0>>] : k \in Keys, k2 \in Keys, l \in 0..2, m \in 0..2}
Acceptable == /\ tr # "none"
              /\ \E s \in {"a", "j"}, i \in 1..3 : vec[<<s, Basic[i]>>][1] > 0
              /\ \A k \in Keys : vec[k][1] = 0 \/ (vec[k][1] = SizeOf(tr, k) /\ vec[k][2] = 0)
\* every vector that propagating would use is there (a precondition of propagating, not of construction)
Usable == /\ Acceptable /\ \A q \in Needed(hk) : \A s \in {"a", "j"} : vec[<<s, q>>][1] > 0
          /\ hk = "A2Jstate" => \A q \in {"absolute_position", "torque_sensor"} : vec[<<"a", q>>][1] > 0 => vec[<<"j", q>>][1] > 0
InitBuild == /\ Mode = "build" /\ hk \in HandleKinds /\ tr \in TrNames /\ \E b \in Bases(hk, tr) : vec \in Deviate(b, tr, Deviations)
             /\ st = "described" /\ reg = <<>> /\ slot = <<>> /\ hist = <<>>
Construct == /\ Mode = "build" /\ st = "described" /\ st' = (IF Acceptable THEN "accepted" ELSE "rejected") /\ UNCHANGED <<hk, tr, vec, reg, slot, hist>>
\* ---- running
R(n) == <<n, 1>>
ConfMenu == [simple |-> [kind |-> "simple", ar |-> <<R(-3)>>, jr |-> <<R(1)>>, of |-> <<<<3, 2>>>>, ign |-> FALSE],
             diff |-> [kind |-> "diff", ar |-> <<R(2), R(-1)>>, jr |-> <<R(-2), <<1, 2>>>>, of |-> <<R(1), R(-4)>>, ign |-> FALSE],
             bypass |-> [kind |-> "diff", ar |-> <<R(2), R(2)>>, jr |-> <<R(1), R(3)>>, of |-> <<R(0), R(5)>>, ign |-> TRUE],
             four |-> [kind |-> "four", ar |-> <<<<1, 2>>, R(3)>>, jr |-> <<R(-2), R(1)>>, of |-> <<R(7), R(0)>>, ign |-> FALSE],
             \* without absolute encoder and torque sensor maps
             plain |-> [kind |-> "simple", ar |-> <<R(2)>>, jr |-> <<R(1)>>, of |-> <<R(0)>>, ign |-> FALSE]]
Presence == {"all", "basic", "needed", "encoder", "sensor"}
Has(p, h, q) == p = "all" \/ (p \in {"basic", "encoder", "sensor"} /\ q \in {"position", "velocity", "effort"}) \/ q \in Needed(h)
                \/ (p = "encoder" /\ q = "absolute_position") \/ (p = "sensor" /\ q = "torque_sensor")
Measured(h, c, p, q) == h = "A2Jstate" /\ c # "plain" /\ Has(p, h, q)
MapsOf(h, c, p) == IF ~IsState(h) THEN <<Single(h)>> ELSE Basic \o SelectSeq(<<"absolute_position", "torque_sensor">>, LAMBDA q : Measured(h, c, p, q))
SlotData(k, dim) == [a |-> [q \in QuantitySet |-> LET x == CHOOSE x \in 1..5 : Quantities[x] = q IN [i \in 1..dim |-> R(7 * k + 5 * x - 11 * i)]],
                     j |-> [q \in QuantitySet |-> LET x == CHOOSE x \in 1..5 : Quantities[x] = q IN [i \in 1..dim |-> R(40 - 9 * k + 3 * x * i)]]]
InitRun == /\ Mode = "run" /\ hk \in HandleKinds /\ tr = "none" /\ vec = <<>> /\ st = "running"
           /\ reg = [n \in RunNames |-> 0] /\ slot = <<>> /\ hist = <<>>
Slots == IF Depth > 5 THEN 5 ELSE 3
More == Mode = "run" /\ Len(hist) < Depth
Note(op, args) == hist' = Append(hist, [op |-> op, args |-> args, d |-> [i \in 1..Len(slot') |-> Flat(slot'[i].d)]]) /\ UNCHANGED <<hk, tr, vec, st>>
\* a name registered again is served by the newest handle only
Register(n, c, p) == /\ More /\ Len(slot) < Slots
                     /\ slot' = Append(slot, [conf |-> c, has |-> p, d |-> SlotData(Len(slot) + 1, Dim(ConfMenu[c]))])
                     /\ reg' = [reg EXCEPT ![n] = Len(slot) + 1]
                     /\ Note("register", [name |-> n, conf |-> ConfMenu[c], plain |-> c = "plain", has |-> p])
RECURSIVE ApplyAll(_, _, _, _)
ApplyAll(c, dir, qs, d) == IF qs = <<>> THEN d ELSE ApplyAll(c, dir, Tail(qs), Apply(c, <<dir, Head(qs)>>, d))
Moved(s) == [s EXCEPT !.d = ApplyAll(ConfMenu[s.conf], Dir(hk), MapsOf(hk, s.conf, s.has), s.d)]
Served == {reg[n] : n \in RunNames} \ {0}
Propagate == /\ More /\ slot' = [i \in 1..Len(slot) |-> IF i \in Served THEN Moved(slot[i]) ELSE slot[i]] /\ UNCHANGED reg /\ Note("propagate", <<>>)
One(n) == /\ More /\ UNCHANGED reg
          /\ slot' = (IF reg[n] = 0 THEN slot ELSE [slot EXCEPT ![reg[n]] = Moved(slot[reg[n]])]) /\ Note("one", [name |-> n, known |-> reg[n] # 0])
\* the hardware or the controllers write new values
Flip(v) == [i \in 1..Len(v) |-> Minus(R(1), v[i])]
FlipAll(d) == [a |-> [q \in QuantitySet |-> Flip(d.a[q])], j |-> [q \in QuantitySet |-> Flip(d.j[q])]]
Write == /\ More /\ slot # <<>> /\ slot' = [i \in 1..Len(slot) |-> [slot[i] EXCEPT !.d = FlipAll(slot[i].d)]] /\ UNCHANGED reg /\ Note("write", <<>>)
Names == /\ More /\ UNCHANGED <<reg, slot>> /\ Note("names", [names |-> {n \in RunNames : reg[n] # 0}])
\* histories end by propagating: the rest has no effect of its own
Last == Len(hist) = Depth - 1
Next == \/ Construct \/ Propagate
        \/ \E n \in RunNames : One(n)
        \/ ~Last /\ (\/ \E n \in RunNames, c \in Confs, p \in Presence : Register(n, c, p) \/ Write \/ Names)
Init == InitBuild \/ InitRun
Spec == Init /\ [][Next]_vars
\* ---- properties
NeverNull == st = "accepted" => tr # "none" /\ \A k \in Keys : vec[k][2] = 0 /\ vec[k][1] \in {0, SizeOf(tr, k)}
Untouched == [][\A i \in 1..Len(slot) : (hist'[Len(hist')].op \in {"propagate", "one"} /\ i \notin Served => slot'[i] = slot[i])]_vars
InputsKept == [][(Mode = "run" /\ hist'[Len(hist')].op \in {"propagate", "one"}) => \A i \in 1..Len(slot) : IF Dir(hk) = "A2J" THEN slot'[i].d.a = slot[i].d.a ELSE slot'[i].d.j = slot[i].d.j]_vars
\* a handle without sensor data or support does not touch the sensors
Sensors == [][Mode = "run" /\ hist'[Len(hist')].op = "propagate" => \A i \in 1..Len(slot) : \A q \in {"absolute_position", "torque_sensor"} :
              ~Measured(hk, slot[i].conf, slot[i].has, q) => slot'[i].d.j[q] = slot[i].d.j[q]]_vars
VecOut == [s \in {"a", "j"} |-> [i \in 1..5 |-> vec[<<s, Quantities[i]>>]]]
Emit == /\ st \in {"accepted", "rejected"} => PrintT(<<"CASE", ToJson([hk |-> hk, tr |-> tr, vec |-> VecOut, st |-> st, usable |-> Usable])>>)
        /\ st = "running" /\ Len(hist) = Depth => PrintT(<<"CASE", ToJson([hk |-> hk, ops |-> hist])>>)
=============================================================================
