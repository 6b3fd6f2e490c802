---------------------------- MODULE TransLoaders ----------------------------
(* Building simple, differential and four-bar transmissions from their descriptions (property C24).  Numbers are given as     *)
(* classes of texts; "blank" is an element without content, "trailing" a number followed by something else.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Vary                                          \* "dims", "roles", "actuators", "joints" or "all"
VARIABLES kind, acts, joints, st, result
vars == <<kind, acts, joints, st, result>>
Numbers == {"num", "other", "neg", "zero"}
Texts == Numbers \cup {"absent", "blank", "text", "trailing", "range"}
Roles == {"first", "second", "unknown", "absent", "blank"}
A(r, n) == [role |-> r, red |-> n, off |-> "absent", ign |-> FALSE]
J(r, n, o, g) == [role |-> r, red |-> n, off |-> o, ign |-> g]
Pair(a, b) == <<a, b>>
GoodActs == {Pair(A("first", "num"), A("second", "other")), Pair(A("second", "num"), A("first", "neg"))}
GoodJoints == {Pair(J("first", "num", "other", FALSE), J("second", "neg", "num", FALSE)), Pair(J("second", "absent", "neg", TRUE), J("first", "other", "absent", TRUE))}
Some(n, x) == [i \in 1..n |-> x]
RoleOf(i) == IF i = 1 THEN "first" ELSE "second"
Two == {"diff", "four"}
Descriptions ==
  CASE Vary = "dims" -> {<<k, [i \in 1..n |-> A(RoleOf(i), "num")], [i \in 1..m |-> J(RoleOf(i), "num", "num", FALSE)]>> : k \in {"simple", "diff", "four"}, n \in 0..3, m \in 0..3}
                        \cup {<<"simple", <<A(r, n)>>, <<J(q, x, o, g)>>>> : r \in Roles, q \in {"first", "absent"}, n \in Texts, x \in {"absent", "zero", "text"}, o \in Texts, g \in BOOLEAN}
    [] Vary = "roles" -> {<<k, Pair(A(a, "num"), A(b, "other")), Pair(J(c, "neg", "num", g), J(d, "other", "absent", h))>> : k \in Two, a \in Roles, b \in Roles, c \in Roles, d \in Roles, g \in BOOLEAN, h \in BOOLEAN}
    [] Vary = "actuators" -> {<<k, IF s THEN Pair(A("second", n), A("first", m)) ELSE Pair(A("first", n), A("second", m)), js>> : k \in Two, n \in Texts, m \in Texts, s \in BOOLEAN, js \in GoodJoints}
    [] Vary = "joints" -> {<<k, as, IF s THEN Pair(J("second", n, o, g), J("first", m, p, g)) ELSE Pair(J("first", n, o, g), J("second", m, p, g))>> :
                             k \in Two, as \in GoodActs, s \in BOOLEAN, n \in {"num", "zero", "absent", "blank", "trailing"}, m \in {"other", "zero", "absent", "text", "range"}, o \in {"neg", "zero", "absent", "text", "trailing"}, p \in {"num", "absent", "blank", "range"}, g \in BOOLEAN}
    [] OTHER -> {<<k, as, Pair(J(r, n, o, g), J(IF r = "first" THEN "second" ELSE "first", m, p, h))>> : k \in Two, as \in GoodActs, r \in {"first", "second"}, n \in Texts, m \in Texts, o \in Texts, p \in Texts, g \in BOOLEAN, h \in BOOLEAN}
Init == \E x \in Descriptions : kind = x[1] /\ acts = x[2] /\ joints = x[3] /\ st = "described" /\ result = <<>>
Dim == IF kind = "simple" THEN 1 ELSE 2
DistinctRoles(xs) == {xs[1].role, xs[2].role} = {"first", "second"}
Required(t) == t \in Numbers
Optional(t) == t \in Numbers \cup {"absent"}
Valid == /\ Len(acts) = Dim /\ Len(joints) = Dim
         /\ \A i \in 1..Dim : Required(acts[i].red) /\ acts[i].red # "zero" /\ Optional(joints[i].off)
         /\ kind # "simple" => /\ DistinctRoles(acts) /\ DistinctRoles(joints)
                               /\ \A i \in 1..2 : Optional(joints[i].red) /\ joints[i].red # "zero"
ByRole(xs, k) == IF kind = "simple" \/ (xs[1].role = "first") = (k = 1) THEN xs[1] ELSE xs[2]
Value(t, default) == IF t = "absent" THEN default ELSE t
Load == /\ st = "described" /\ UNCHANGED <<kind, acts, joints>>
        /\ IF Valid THEN st' = "loaded" /\ result' = [ar |-> [i \in 1..Dim |-> ByRole(acts, i).red], jr |-> IF kind = "simple" THEN <<>> ELSE [i \in 1..2 |-> Value(ByRole(joints, i).red, "one")],
                                                      of |-> [i \in 1..Dim |-> Value(ByRole(joints, i).off, "zero")], ign |-> kind = "diff" /\ joints[1].ign /\ joints[2].ign]
                    ELSE st' = "nothing" /\ result' = <<>>
Next == Load
Spec == Init /\ [][Next]_vars
NoZeroReduction == st = "loaded" => \A i \in 1..Dim : result.ar[i] # "zero" /\ (kind # "simple" => result.jr[i] # "zero")
OrderFree == st = "loaded" /\ kind # "simple" => \A k \in 1..2 : LET r == IF k = 1 THEN "first" ELSE "second" IN \E i \in 1..2 : acts[i].role = r /\ result.ar[k] = acts[i].red
Emit == st # "described" => PrintT(<<"CASE", ToJson([kind |-> kind, acts |-> acts, joints |-> joints, st |-> st, result |-> result])>>)
=============================================================================
