---- MODULE Queries ----
\* What the query functions answer: searching for controller managers among services, filtering controller lists, looking for controller
\* configurations among parameters, and the two listers that ask again and again.
\* Service and parameter names are sequences of segments, text is a sequence of characters.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Size
VARIABLES in, step, out
vars == <<in, step, out>>
SeqUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Beneath(name, ns) == Len(name) > Len(ns) /\ SubSeq(name, 1, Len(ns)) = ns
\* ---- searching for managers
Api == <<"list_controllers", "list_controller_types", "load_controller", "unload_controller", "switch_controller", "reload_controller_libraries">>
Right(s) == "right " \o s
\* a node at a namespace: everything right, or one service missing or of another type, or nothing
Nodes == {[kind |-> "none", which |-> 0], [kind |-> "full", which |-> 0]} \cup {[kind |-> k, which |-> x] : k \in {"missing", "other"}, x \in 1..Size}
Offers(n, ns) == {<<Append(ns, Api[x]), Right(Api[x])>> : x \in IF n.kind = "none" THEN {} ELSE {y \in 1..6 : n.which # y}}
                 \cup (IF n.kind = "other" THEN {<<Append(ns, Api[n.which]), "other type">>} ELSE {})
\* names that look like those of a manager and are not
Confusers == {<<"p", "list_controllers_x">>, <<"p", "list_controllers_x", "list_controllers">>, <<"p", "q", "list_controllers", "more">>, <<"list_controllers2", "load_controller">>, <<"my_list_controllers">>}
Places == {<<>>, <<"p">>, <<"p", "q">>}
SearchNs == {<<>>, <<"p">>, <<"pp">>}
Services(world) == (UNION {Offers(world.nodes[ns], ns) : ns \in Places}) \cup {<<c, "whatever">> : c \in world.extra}
Exposes(world, ns) == \A x \in 1..6 : <<Append(ns, Api[x]), Right(Api[x])>> \in Services(world)
Listing(world, ns, search) == Beneath(Append(ns, Api[1]), search) /\ \E s \in Services(world) : s[1] = Append(ns, Api[1])
\* everywhere some service ends in list_controllers
Candidates(world) == {SubSeq(s[1], 1, Len(s[1]) - 1) : s \in {x \in Services(world) : x[1][Len(x[1])] = Api[1]}}
\* an entry of the guess stays as long as its listing service is there, anything new must expose everything
Managers(world, search, guess) == IF world.down THEN {} ELSE {ns \in Candidates(world) : Listing(world, ns, search) /\ (ns \in guess \/ Exposes(world, ns))}
World(m, e, d) == [nodes |-> m, extra |-> e, down |-> d]
NodeMap(r, p, q) == [ns \in Places |-> IF ns = <<>> THEN r ELSE IF ns = <<"p">> THEN p ELSE q]
None == [kind |-> "none", which |-> 0]
Full == [kind |-> "full", which |-> 0]
Worlds == {World(NodeMap(r, p, q), {}, FALSE) : r \in {None, Full}, p \in Nodes, q \in Nodes}
          \cup {World(NodeMap(r, p, q), e, FALSE) : r \in {None, Full}, p \in {None, Full}, q \in {None, Full}, e \in SUBSET Confusers}
Changes == {World(NodeMap(r, p, q), {}, d) : r \in {None, Full}, p \in {None, Full, [kind |-> "missing", which |-> 1], [kind |-> "missing", which |-> 3], [kind |-> "other", which |-> 1]}, q \in {None, Full}, d \in BOOLEAN}
\* ---- filtering
Letters == {"x", "y"}
Texts == SeqUpTo(Letters, 2)
Substring(a, b) == \E k \in 0..Len(b) : Len(a) + k <= Len(b) /\ SubSeq(b, k + 1, k + Len(a)) = a
Ctl(n, t, s, rs) == [name |-> n, type |-> t, state |-> s, claims |-> rs]
Claim(hw, rs) == [hw |-> hw, res |-> rs]
ResSets == {{}, {<<"x">>}, {<<"y">>}, {<<"x">>, <<"y">>}}
Claims == {Claim(h, r) : h \in {<<"x">>, <<"x", "y">>}, r \in ResSets}
AttrLists == SeqUpTo({Ctl(n, t, <<"x">>, <<>>) : n \in Texts, t \in {<<"x", "y">>, <<"y">>}}, 2) \cup {<<Ctl(a, <<"x">>, <<"y">>, <<>>), Ctl(b, a, <<"x", "y">>, <<>>), Ctl(<<"x">>, b, a, <<>>)>> : a \in Texts, b \in Texts}
ClaimLists == SeqUpTo({Ctl(<<"x">>, <<"x">>, <<"x">>, c) : c \in SeqUpTo(Claims, 2)}, IF Size \in 3..8 THEN 2 ELSE 1)
              \cup {<<Ctl(<<"x">>, <<"y">>, <<"x">>, <<a>>), Ctl(<<"y">>, <<"x">>, <<"x">>, <<b>>), Ctl(<<"x">>, <<"x">>, <<"x">>, <<a, b>>)>> : a \in Claims, b \in Claims}
Keep(l, Ok(_)) == SelectSeq([k \in 1..Len(l) |-> k], LAMBDA k : Ok(l[k]))
Match(v, x, sub) == IF sub THEN Substring(v, x) ELSE v = x
ByAttr(l, a, v, sub) == Keep(l, LAMBDA c : Match(v, c[a], sub))
ByHw(l, v, sub) == Keep(l, LAMBDA c : \E k \in 1..Len(c.claims) : Match(v, c.claims[k].hw, sub))
ByRes(l, rs, hw, any) == Keep(l, LAMBDA c : \E k \in 1..Len(c.claims) : (hw = <<"*">> \/ hw = c.claims[k].hw)
                                               /\ IF any THEN \E r \in rs : r \in c.claims[k].res ELSE rs \subseteq c.claims[k].res)
\* ---- parameters
ParamNames == {<<"foo", "type">>, <<"foo", "gain">>, <<"foo", "type", "x">>, <<"n", "bar", "type">>, <<"n", "type">>, <<"type", "type">>, <<"n", "n", "type">>, <<"nn", "bar", "type">>, <<"m", "n", "baz", "type">>, <<"n", "a", "type">>}
Controllers(ps, ns) == {p[Len(ns) + 1] : p \in {x \in ps : Beneath(x, ns) /\ Len(x) = Len(ns) + 2 /\ x[Len(x)] = "type"}}
\* ---- the listers: every call tries the connection it has, then once a new one, then gives up for this time.  A connection that failed once
\* never works again; whether one that failed last is replaced at once or when it is next needed is left open.
Outcomes == {"1", "2", "x"}
RECURSIVE Calls(_, _, _)
Calls(tries, n, good) ==
  LET next == IF tries = <<>> THEN "x" ELSE tries[1]
      rest == IF tries = <<>> THEN <<>> ELSE Tail(tries)
      second == IF rest = <<>> THEN "x" ELSE rest[1]
      rest2 == IF rest = <<>> THEN <<>> ELSE Tail(rest)
      add(x, more) == {<<x>> \o y : y \in more} IN
  IF n = 0 THEN {<<>>}
  ELSE IF next # "x" THEN add(next, Calls(rest, n - 1, TRUE))
  ELSE IF good THEN (IF second # "x" THEN add(second, Calls(rest2, n - 1, TRUE)) ELSE add("none", Calls(rest2, n - 1, FALSE) \cup Calls(rest2, n - 1, TRUE)))
  ELSE add("none", Calls(rest, n - 1, FALSE) \cup Calls(rest, n - 1, TRUE))
\* ---- histories: most queries are one step, the manager lister takes several, each starting from the last answer
Inputs ==
  CASE Mode = "managers" -> {[worlds |-> <<x>>, search |-> s, guess |-> g] : x \in Worlds, s \in SearchNs, g \in {{}, {<<"p">>}, {<<>>, <<"p", "q">>}, {<<"elsewhere">>}}}
    [] Mode = "lister" -> {[worlds |-> h, search |-> s, guess |-> {}] : h \in [1..Size -> Changes], s \in {<<>>, <<"p">>}}
    [] Mode = "attr" -> {[list |-> l, by |-> a, val |-> v, sub |-> b] : l \in AttrLists, a \in {"name", "type", "state"}, v \in Texts, b \in BOOLEAN}
    [] Mode = "hw" -> {[list |-> l, val |-> v, sub |-> b] : l \in ClaimLists, v \in Texts, b \in BOOLEAN}
    [] Mode = "res" -> {[list |-> l, rs |-> rs, hw |-> h, any |-> b] : l \in ClaimLists, rs \in SUBSET {<<"x">>, <<"y">>, <<"z">>}, h \in {<<"*">>, <<"x">>, <<"y">>}, b \in BOOLEAN}
    [] Mode = "params" -> {[params |-> p, ns |-> n] : p \in SUBSET ParamNames, n \in {<<>>, <<"n">>, <<"n", "n">>, <<"foo">>}}
    [] Mode = "calls" -> {[tries |-> t, n |-> n] : t \in [1..2 * Size -> Outcomes], n \in {Size}}
\* longer lists with longer texts and more claims, drawn at random (Size 9)
Drawn(S, x) == TLCEval(RandomElement(S))
Long == UNION {[1..k -> Letters] : k \in 0..3}
Words(n, x) == TLCEval([k \in 1..n |-> Drawn(Long, x)])
ManyClaims(x) == TLCEval([k \in 1..Drawn(0..3, x) |-> Claim(Drawn(Texts, x), {Drawn(Texts, x) : z \in 1..Drawn(0..3, x)})])
ManyCtls(x) == TLCEval([k \in 1..Drawn(0..6, x) |-> Ctl(Drawn(Long, x), Drawn(Long, x), Drawn(Texts, x), ManyClaims(x))])
DrawnInput(x) == CASE Mode = "attr" -> [list |-> ManyCtls(x), by |-> Drawn({"name", "type", "state"}, x), val |-> Drawn(Long, x), sub |-> Drawn(BOOLEAN, x)]
                   [] Mode = "hw" -> [list |-> ManyCtls(x), val |-> Drawn(Texts, x), sub |-> Drawn(BOOLEAN, x)]
                   [] OTHER -> [list |-> ManyCtls(x), rs |-> {Drawn(Texts, x) : z \in 1..Drawn(0..3, x)}, hw |-> Drawn(Texts \cup {<<"*">>}, x), any |-> Drawn(BOOLEAN, x)]
Init == /\ out = <<>> /\ IF Size = 9 THEN in = <<>> /\ step = 0 ELSE in \in Inputs /\ step = 1
Draw == step = 0 /\ step' = 1 /\ in' = DrawnInput(out) /\ UNCHANGED out
Steps == IF Mode \in {"managers", "lister"} THEN Len(in.worlds) ELSE 1
Last == IF out = <<>> THEN in.guess ELSE out[Len(out)]
Reply == CASE Mode \in {"managers", "lister"} -> Managers(in.worlds[step], in.search, Last)
           [] Mode = "attr" -> ByAttr(in.list, in.by, in.val, in.sub) [] Mode = "hw" -> ByHw(in.list, in.val, in.sub)
           [] Mode = "res" -> ByRes(in.list, in.rs, in.hw, in.any) [] Mode = "params" -> Controllers(in.params, in.ns) [] OTHER -> Calls(in.tries, in.n, TRUE)
Answer == step > 0 /\ step <= Steps /\ out' = Append(out, Reply) /\ step' = step + 1 /\ UNCHANGED in
Next == Draw \/ Answer
Spec == Init /\ [][Next]_vars
\* ---- properties
\* without a guess only namespaces exposing everything are found, and all of them
Exact == (Mode \in {"managers", "lister"} /\ out # <<>> /\ in.guess = {} /\ ~in.worlds[1].down) => out[1] = {ns \in Places : Exposes(in.worlds[1], ns) /\ Len(ns) >= Len(in.search) /\ SubSeq(ns, 1, Len(in.search)) = in.search}
\* a manager that exposes everything is found whatever came before, and nothing without a listing service is
NeverMissed == Mode \in {"managers", "lister"} => \A k \in 1..Len(out) : \A ns \in Places :
   /\ (Exposes(in.worlds[k], ns) /\ ~in.worlds[k].down /\ Beneath(Append(ns, Api[1]), in.search)) => ns \in out[k]
   /\ (in.worlds[k].down \/ ~Listing(in.worlds[k], ns, in.search)) => ns \notin out[k]
Increasing(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
InOrderOnce == (Mode \in {"attr", "hw", "res"} /\ out # <<>>) => Increasing(out[1])
NothingAskedMatchesAll == (Mode = "attr" /\ out # <<>> /\ in.sub /\ in.val = <<>>) => Len(out[1]) = Len(in.list)
Shown == IF Mode \in {"managers", "lister"} THEN [search |-> in.search, guess |-> in.guess, worlds |-> [k \in 1..Len(in.worlds) |-> [down |-> in.worlds[k].down, services |-> Services(in.worlds[k])]]] ELSE in
Emit == (step > 0 /\ step > Steps) => PrintT(<<"CASE", ToJson([in |-> Shown, out |-> out])>>)
=============================================================================
