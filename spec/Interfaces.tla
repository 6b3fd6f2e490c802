----------------------------- MODULE Interfaces -----------------------------
(* InterfaceManager (property C12): interfaces registered by type in managers that can be nested.                  *)
(* Objects A1..A4 are resource interfaces of type "A" with fixed resources, P1, P2 plain interfaces of type "P"     *)
(* which cannot be combined.                                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS NMan, Objects, Depth
TypeOf == [A1 |-> "A", A2 |-> "A", A3 |-> "A", A4 |-> "A", P1 |-> "P", P2 |-> "P", B1 |-> "B", B2 |-> "B"]
ResOf  == [A1 |-> {"x", "y"}, A2 |-> {"y", "z"}, A3 |-> {"w"}, A4 |-> {"v", "w"}, P1 |-> {}, P2 |-> {}, B1 |-> {"x"}, B2 |-> {}]
Man == 1..NMan
Types == {"A", "B", "P"}
Combinable(ty) == ty # "P"
VARIABLES own, kids, hist
vars == <<own, kids, hist>>
Init == own = [m \in Man |-> [ty \in Types |-> ""]] /\ kids = [m \in Man |-> <<>>] /\ hist = <<>>
Register(m, o) == (\A x \in Man : x = m \/ own[x][TypeOf[o]] # o) /\ own' = [own EXCEPT ![m][TypeOf[o]] = o] /\ kids' = kids /\ hist' = Append(hist, <<"reg", m, o>>)
Nested(c) == \E m \in Man : c \in ToSet(kids[m])
Nest(m, c) == m < c /\ ~Nested(c) /\ kids' = [kids EXCEPT ![m] = Append(@, c)] /\ own' = own /\ hist' = Append(hist, <<"nest", m, c>>)
Look == (IF hist = <<>> THEN FALSE ELSE hist[Len(hist)][1] # "look") /\ UNCHANGED <<own, kids>> /\ hist' = Append(hist, <<"look", 0, "">>)
Next == Len(hist) < Depth /\ (Look \/ (\E m \in Man, o \in Objects : Register(m, o)) \/ (\E m, c \in Man : Nest(m, c)))
Spec == Init /\ [][Next]_vars
\* Lookup at m: the set of objects behind the answer; {} = nothing.  A plain type found several times gives nothing.
RECURSIVE Find(_, _)
RECURSIVE FindKids(_, _)
Find(m, ty) == LET parts == (IF own[m][ty] = "" THEN <<>> ELSE <<{own[m][ty]}>>) \o FindKids(kids[m], ty)
               IN IF parts = <<>> THEN {} ELSE IF Len(parts) = 1 THEN parts[1] ELSE IF Combinable(ty) THEN UNION ToSet(parts) ELSE {}
FindKids(ks, ty) == IF ks = <<>> THEN <<>> ELSE LET f == Find(Head(ks), ty) IN (IF f = {} THEN <<>> ELSE <<f>>) \o FindKids(Tail(ks), ty)
RECURSIVE Below(_)
Below(m) == {m} \cup UNION {Below(c) : c \in ToSet(kids[m])}
Names(m) == {ty \in Types : \E x \in Below(m) : own[x][ty] # ""}
Resources(m, ty) == UNION {ResOf[own[x][ty]] : x \in {y \in Below(m) : own[y][ty] # ""}}
Owners(S, r) == {o \in S : r \in ResOf[o]}
Expected == [m \in Man |-> [names |-> SetToSeq(Names(m)),
              get |-> [ty \in Types |-> LET F == Find(m, ty) IN [objs |-> SetToSeq(F), res |-> {<<r, SetToSeq(Owners(F, r))>> : r \in UNION {ResOf[o] : o \in F}},
                                                                 listed |-> SetToSeq(Resources(m, ty))]]]]
\* a lookup exposes exactly what is listed, unless a plain type cannot be combined
Complete == \A m \in Man : \A ty \in Types : Combinable(ty) => UNION {ResOf[o] : o \in Find(m, ty)} = Resources(m, ty)
Emit == Len(hist) = Depth /\ hist[Depth][1] # "look" => PrintT(<<"CASE", ToJson([ops |-> hist, exp |-> Expected])>>)
=============================================================================
