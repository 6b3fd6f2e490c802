------------------------- MODULE TransmissionMaps -------------------------
(* The documented equations of the simple, differential and four-bar transmissions.  A configuration c has the reductions   *)
(* c.ar, c.jr, the joint offsets c.of and (differential only) c.ign: absolute encoders bypass the transmission.              *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Rational
Quantities == <<"position", "velocity", "effort", "absolute_position", "torque_sensor">>
QuantitySet == {Quantities[i] : i \in 1..5}
Maps == {<<"A2J", q>> : q \in QuantitySet} \cup {<<"J2A", q>> : q \in {"position", "velocity", "effort"}}
Dim(c) == IF c.kind = "simple" THEN 1 ELSE 2
Two == <<2, 1>>
FlowToJoint(c, v) ==
  CASE c.kind = "simple" -> <<Over(v[1], c.ar[1])>>
    [] c.kind = "diff" -> <<Over(Plus(Over(v[1], c.ar[1]), Over(v[2], c.ar[2])), Product(Two, c.jr[1])),
                            Over(Minus(Over(v[1], c.ar[1]), Over(v[2], c.ar[2])), Product(Two, c.jr[2]))>>
    [] c.kind = "four" -> <<Over(v[1], Product(c.jr[1], c.ar[1])),
                            Over(Minus(Over(v[2], c.ar[2]), Over(v[1], Product(c.jr[1], c.ar[1]))), c.jr[2])>>
EffortToJoint(c, e) ==
  CASE c.kind = "simple" -> <<Product(e[1], c.ar[1])>>
    [] c.kind = "diff" -> <<Product(c.jr[1], Plus(Product(c.ar[1], e[1]), Product(c.ar[2], e[2]))),
                            Product(c.jr[2], Minus(Product(c.ar[1], e[1]), Product(c.ar[2], e[2])))>>
    [] c.kind = "four" -> <<Product(c.jr[1], Product(c.ar[1], e[1])),
                            Product(c.jr[2], Minus(Product(c.ar[2], e[2]), Product(c.jr[1], Product(c.ar[1], e[1]))))>>
FlowToActuator(c, v) ==
  CASE c.kind = "simple" -> <<Product(v[1], c.ar[1])>>
    [] c.kind = "diff" -> <<Product(c.ar[1], Plus(Product(c.jr[1], v[1]), Product(c.jr[2], v[2]))),
                            Product(c.ar[2], Minus(Product(c.jr[1], v[1]), Product(c.jr[2], v[2])))>>
    [] c.kind = "four" -> <<Product(Product(c.jr[1], c.ar[1]), v[1]), Product(c.ar[2], Plus(v[1], Product(c.jr[2], v[2])))>>
EffortToActuator(c, e) ==
  CASE c.kind = "simple" -> <<Over(e[1], c.ar[1])>>
    [] c.kind = "diff" -> <<Over(Plus(Over(e[1], c.jr[1]), Over(e[2], c.jr[2])), Product(Two, c.ar[1])),
                            Over(Minus(Over(e[1], c.jr[1]), Over(e[2], c.jr[2])), Product(Two, c.ar[2]))>>
    [] c.kind = "four" -> <<Over(e[1], Product(c.jr[1], c.ar[1])), Over(Plus(e[1], Over(e[2], c.jr[2])), c.ar[2])>>
Each(op(_, _), x, y) == [i \in 1..Len(x) |-> op(x[i], y[i])]
Image(c, m, v) ==
  LET q == m[2] IN
  IF m[1] = "A2J" THEN
    CASE q = "velocity" -> FlowToJoint(c, v)
      [] q = "position" -> Each(Plus, FlowToJoint(c, v), c.of)
      [] q = "absolute_position" -> IF c.ign THEN <<v[2], v[1]>> ELSE Each(Plus, FlowToJoint(c, v), c.of)
      [] q \in {"effort", "torque_sensor"} -> EffortToJoint(c, v)
  ELSE
    CASE q = "velocity" -> FlowToActuator(c, v)
      [] q = "position" -> FlowToActuator(c, Each(Minus, v, c.of))
      [] q = "effort" -> EffortToActuator(c, v)
\* data d = [a |-> quantity -> values, j |-> quantity -> values]; only the map's own output changes
Apply(c, m, d) == IF m[1] = "A2J" THEN [d EXCEPT !.j[m[2]] = Image(c, m, d.a[m[2]])] ELSE [d EXCEPT !.a[m[2]] = Image(c, m, d.j[m[2]])]
Flat(d) == <<[i \in 1..5 |-> d.a[Quantities[i]]], [i \in 1..5 |-> d.j[Quantities[i]]]>>
=============================================================================
