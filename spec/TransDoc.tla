------------------------------ MODULE TransDoc ------------------------------
(* Parsing transmissions from robot descriptions (property C23).  A document is "broken" (not well formed), "empty", "noroot"   *)
(* (nothing but comments) or has a root with elements; the parser looks at the transmission elements directly below the root.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, MaxDocs, MaxElems
VARIABLES docs, d, pos, out, results
vars == <<docs, d, pos, out, results>>
Text == {"ok", "absent", "empty"}
Hws == {<<>>, <<"E">>, <<"empty">>, <<"E", "P">>, <<"E", "E">>, <<"empty", "P">>, <<"P", "empty", "E">>}
J(n, r, h) == [name |-> n, role |-> r, hw |-> h]
A(n, h) == [name |-> n, role |-> "absent", hw |-> h]
T(n, t, js, as) == [kind |-> "transmission", name |-> n, type |-> t, joints |-> js, actuators |-> as]
Noise(k) == [kind |-> k, name |-> "ok", type |-> "ok", joints |-> <<J("ok", "ok", <<"E">>)>>, actuators |-> <<A("ok", <<>>)>>]
GoodJ == J("ok", "absent", <<"E">>)
GoodA == A("ok", <<"E">>)
Joints == {J(n, r, h) : n \in Text, r \in Text, h \in Hws}
Actuators == {A(n, h) : n \in Text, h \in Hws}
Upto2(S) == {<<>>} \cup {<<x>> : x \in S} \cup {<<x, y>> : x \in S, y \in S}
\* one transmission, everything about it varied
OneTransmission == {T(n, t, <<GoodJ>>, <<GoodA>>) : n \in Text, t \in Text}
                   \cup {T("ok", "ok", js, <<GoodA>>) : js \in Upto2(Joints)}
                   \cup {T("ok", "ok", <<GoodJ, GoodJ>>, as) : as \in Upto2(Actuators)}
                   \cup {T("ok", "ok", <<x, GoodJ, y>>, <<GoodA, A(n, <<>>), GoodA>>) : x \in Joints, y \in {J("ok", "ok", <<"P">>), J("empty", "ok", <<"P">>)}, n \in Text}
\* several elements
Several == {T("ok", "ok", <<GoodJ>>, <<GoodA>>), T("ok", "ok", <<GoodJ, J("ok", "ok", <<"E", "P">>)>>, <<GoodA, A("ok", <<>>)>>),
            T("absent", "ok", <<GoodJ>>, <<GoodA>>), T("ok", "absent", <<GoodJ>>, <<GoodA>>), T("ok", "ok", <<>>, <<GoodA>>), T("ok", "ok", <<GoodJ>>, <<>>),
            T("ok", "ok", <<GoodJ, J("absent", "ok", <<"E">>)>>, <<GoodA>>), T("ok", "ok", <<J("ok", "ok", <<>>), GoodJ>>, <<A("empty", <<>>), GoodA>>), T("ok", "ok", <<GoodJ>>, <<A("absent", <<>>)>>),
            Noise("joint"), Noise("comment"), Noise("nested")}
Doc(k, es) == [kind |-> k, elems |-> es]
SeqUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Documents == IF Mode = "one" THEN {Doc("root", <<t, T("ok", "ok", <<GoodJ>>, <<GoodA>>)>>) : t \in OneTransmission} \cup {Doc("root", <<T(n, t, <<GoodJ>>, <<GoodA>>)>>) : n \in Text, t \in Text}
             ELSE IF Mode = "several" THEN {Doc("root", es) : es \in SeqUpTo(Several, MaxElems)} \cup {Doc(k, <<>>) : k \in {"broken", "empty", "noroot"}}
             ELSE {Doc("root", <<>>), Doc("broken", <<>>), Doc("empty", <<>>), Doc("noroot", <<>>)} \cup {Doc("root", <<x, y>>) : x \in Several, y \in {T("ok", "ok", <<GoodJ>>, <<GoodA>>), Noise("comment")}}
Init == docs \in [1..MaxDocs -> Documents] /\ d = 1 /\ pos = 1 /\ out = <<>> /\ results = <<>>
\* ---- reading one transmission
\* an item without a name spoils the transmission, items without content are passed over
Spoilt(items) == \E i \in 1..Len(items) : items[i].name = "absent"
Full(hw) == SelectSeq(hw, LAMBDA h : h # "empty")
RECURSIVE ReadItems(_, _, _)
ReadItems(items, i, needhw) ==
  IF i > Len(items) THEN <<>>
  ELSE (IF items[i].name = "empty" \/ (needhw /\ Full(items[i].hw) = <<>>) THEN <<>>
        ELSE <<[i |-> i, role |-> IF items[i].role = "ok" THEN "ok" ELSE "", hw |-> Full(items[i].hw)]>>) \o ReadItems(items, i + 1, needhw)
ReadJoints == ReadItems(docs[d].elems[pos].joints, 1, TRUE)
ReadActuators == ReadItems(docs[d].elems[pos].actuators, 1, FALSE)
Elem == docs[d].elems[pos]
Reading == d <= MaxDocs /\ docs[d].kind = "root" /\ pos <= Len(docs[d].elems)
Accept == /\ Reading /\ pos' = pos + 1 /\ UNCHANGED <<docs, d, results>>
          /\ Elem.kind = "transmission" /\ Elem.name = "ok" /\ Elem.type = "ok" /\ ~Spoilt(Elem.joints) /\ ~Spoilt(Elem.actuators)
          /\ ReadJoints # <<>> /\ ReadActuators # <<>> /\ out' = Append(out, [doc |-> d, i |-> pos, joints |-> ReadJoints, actuators |-> ReadActuators])
Skip == /\ Reading /\ pos' = pos + 1 /\ UNCHANGED <<docs, d, results, out>>
        /\ \/ Elem.kind # "transmission" \/ Elem.name # "ok" \/ Elem.type # "ok"
           \/ Spoilt(Elem.joints) \/ Spoilt(Elem.actuators) \/ ReadJoints = <<>> \/ ReadActuators = <<>>
Finish == /\ d <= MaxDocs /\ ~Reading /\ d' = d + 1 /\ pos' = 1 /\ results' = Append(results, docs[d].kind = "root") /\ UNCHANGED <<docs, out>>
Next == Accept \/ Skip \/ Finish
Spec == Init /\ [][Next]_vars
\* ---- properties
InOrder == \A k \in 1..(Len(out) - 1) : out[k].doc < out[k + 1].doc \/ (out[k].doc = out[k + 1].doc /\ out[k].i < out[k + 1].i)
Wellformed == \A k \in 1..Len(out) : LET e == docs[out[k].doc].elems[out[k].i] IN e.kind = "transmission" /\ e.name = "ok" /\ e.type = "ok" /\ out[k].joints # <<>> /\ out[k].actuators # <<>>
FailedAddsNothing == \A k \in 1..Len(results) : ~results[k] => \A o \in 1..Len(out) : out[o].doc # k
Deterministic == ~(ENABLED Accept /\ ENABLED Skip)
Emit == d > MaxDocs => PrintT(<<"CASE", ToJson([docs |-> docs, out |-> out, results |-> results])>>)
=============================================================================
