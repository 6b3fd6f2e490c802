---------------------------- MODULE Transmission ----------------------------
(* A transmission and the data of its actuators and joints (property C21). Every step applies one of its maps. *)
EXTENDS Integers, Sequences, TLC, Json
INSTANCE Rational
INSTANCE TransmissionMaps
CONSTANTS Depth, Kinds, RedNames, OffNames, DataNames, MapSet
VARIABLES conf, data, start, hist
vars == <<conf, data, start, hist>>
Reds == [one |-> <<1, 1>>, neg |-> <<-3, 1>>, half |-> <<1, 2>>, tenth |-> <<-1, 10>>, big |-> <<20, 1>>]
Offs == [zero |-> <<0, 1>>, plus |-> <<3, 2>>, minus |-> <<-7, 1>>]
\* the values of ten quantities (five of actuators, five of joints) for two elements each
Datas == [generic |-> <<11, -13, 17, 19, -23, 29, 31, 37, -41, 43, 47, 53, -59, 61, 67, 71, -73, 79, 83, -89>>,
          big |-> <<1000, 973, -1000, 1, 496, -819, 500, -503, 777, 1000, 600, 1, 2, -900, 901, 7, 70, 700, -3, 30>>,
          zeros |-> <<0, 0, 0, 5, 4, 0, 0, 0, 0, 3, 0, 0, 0, 0, 0, 1, 2, 0, 0, 0>>,
          equal |-> <<6, 6, 6, 6, 6, 6, 6, 6, 6, 6, -6, -6, -6, -6, -6, -6, -6, -6, -6, -6>>]
DataOf(dim, v) == LET side(off) == [q \in QuantitySet |-> LET k == CHOOSE k \in 1..5 : Quantities[k] = q IN [i \in 1..dim |-> Int2Rat(v[off + 2 * (k - 1) + i])]]
                  IN [a |-> side(0), j |-> side(10)]
Tuples(S, n) == [1..n -> S]
Confs == UNION {LET n == IF k = "simple" THEN 1 ELSE 2 IN
                {[kind |-> k, ar |-> [i \in 1..n |-> Reds[ar[i]]], jr |-> [i \in 1..n |-> Reds[jr[i]]], of |-> [i \in 1..n |-> Offs[of[i]]], ign |-> g] :
                   ar \in Tuples(RedNames, n), jr \in (IF k = "simple" THEN {<<"one">>} ELSE Tuples(RedNames, n)), of \in Tuples(OffNames, n),
                   g \in (IF k = "diff" THEN BOOLEAN ELSE {FALSE})} : k \in Kinds}
Init == /\ conf \in Confs /\ \E n \in DataNames : data = DataOf(Dim(conf), Datas[n])
        /\ start = data /\ hist = <<>>
Step(m) == /\ Len(hist) < Depth /\ data' = Apply(conf, m, data)
           /\ hist' = Append(hist, [map |-> m, d |-> Flat(data')]) /\ UNCHANGED <<conf, start>>
Wanted == IF MapSet = "all" THEN Maps ELSE IF hist = <<>> THEN {m \in Maps : m[2] \in {"position", "velocity", "effort"}}
          ELSE {m \in Maps : m[2] = hist[1].map[2] /\ m[1] # hist[1].map[1]}        \* there and back
Next == \E m \in Wanted : Step(m)
Spec == Init /\ [][Next]_vars
\* ---- properties of the specified behaviour
\* there and back returns the original values
There(m) == Image(conf, m, IF m[1] = "A2J" THEN data.a[m[2]] ELSE data.j[m[2]])
Back(m) == <<IF m[1] = "A2J" THEN "J2A" ELSE "A2J", m[2]>>
Inverse == \A m \in Maps : m[2] \in {"position", "velocity", "effort"} =>
             Image(conf, Back(m), There(m)) = (IF m[1] = "A2J" THEN data.a[m[2]] ELSE data.j[m[2]])
RECURSIVE Dot(_, _)
Dot(x, y) == IF x = <<>> THEN <<0, 1>> ELSE Plus(Product(Head(x), Head(y)), Dot(Tail(x), Tail(y)))
\* effort times velocity is the same on both sides of a simple or differential transmission
Power == conf.kind # "four" => Dot(data.a["effort"], data.a["velocity"]) = Dot(EffortToJoint(conf, data.a["effort"]), FlowToJoint(conf, data.a["velocity"]))
Sensors == /\ Image(conf, <<"A2J", "torque_sensor">>, data.a["effort"]) = There(<<"A2J", "effort">>)
           /\ ~conf.ign => Image(conf, <<"A2J", "absolute_position">>, data.a["position"]) = There(<<"A2J", "position">>)
OneOutput == [][LET m == hist'[Len(hist')].map IN \A q \in QuantitySet : (q # m[2] => data'.a[q] = data.a[q] /\ data'.j[q] = data.j[q]) /\ (m[1] = "A2J" => data'.a = data.a) /\ (m[1] = "J2A" => data'.j = data.j)]_vars
Emit == Len(hist) = Depth => PrintT(<<"CASE", ToJson([c |-> conf, d |-> Flat(start), ops |-> hist])>>)
=============================================================================
