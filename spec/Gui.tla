---- MODULE Gui ----
\* The graphical front end: which controller managers it offers, which controllers it shows and what its context menu asks of the selected
\* manager, while managers come and go, controllers change state and configurations appear and disappear around it (also while a menu is open).
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Depth,
  Merged                      \* one clock for managers and controllers, or one each
VARIABLES up, ctl, conf, cv,  \* the world: managers that are up, the controllers each has loaded (name, state, which version), configured names
                              \* per namespace, version of the configurations
          items, sel,         \* the front end: managers offered, the one selected
          rows, known,        \* what it shows of the selected manager; known: FALSE when that manager vanished before a refresh
          menu, saved, over, h
vars == <<up, ctl, conf, cv, items, sel, rows, known, menu, saved, over, h>>
VARIABLE told    \* a simulated history that has ended is printed once
Mgrs == {"m1", "m2", "m3"}
Ns(m) == IF m = "m2" THEN "n2" ELSE "n1"
Names == {"a", "b", "c"}
States == {"initialized", "running", "stopped", "waiting", "aborted"}
None == "-"
Idle == [n |-> None, s |-> None]
Has(m, n) == \E k \in 1..Len(ctl[m]) : ctl[m][k].n = n
At(m, n) == CHOOSE k \in 1..Len(ctl[m]) : ctl[m][k].n = n
Loaded(l) == {l[k].n : k \in 1..Len(l)}
\* what should be shown of a manager: its controllers in its order, then the configured ones it does not have
View(m, l, cs) == IF m = None THEN [loaded |-> <<>>, idle |-> {}, cv |-> 0] ELSE [loaded |-> l[m], idle |-> cs[Ns(m)] \ Loaded(l[m]), cv |-> cv]
Shown == Loaded(rows.loaded) \cup rows.idle
StateOf(n) == IF n \in rows.idle THEN "uninitialized" ELSE rows.loaded[CHOOSE k \in 1..Len(rows.loaded) : rows.loaded[k].n = n].s
\* entries of the menu for a state, and the requests each stands for
Entries(s) == CASE s = "running" -> {"stop", "kill"} [] s \in {"stopped", "initialized", "aborted"} -> {"start", "unload"} [] s = "uninitialized" -> {"load", "spawn"} [] OTHER -> {}
Requests(e) == CASE e = "stop" -> <<"stop">> [] e = "kill" -> <<"stop", "unload">> [] e = "start" -> <<"start">> [] e = "unload" -> <<"unload">> [] e = "load" -> <<"load">> [] OTHER -> <<"load", "start">>
\* a manager's answer to a request about one controller
Ok(l, r, n) == LET S == {k \in 1..Len(l) : l[k].n = n} IN
               CASE r = "load" -> S = {} [] r = "unload" -> \E k \in S : l[k].s # "running" [] r = "stop" -> \E k \in S : l[k].s = "running" [] OTHER -> \E k \in S : l[k].s \notin {"running", "waiting"}
After(l, r, n) == IF ~Ok(l, r, n) THEN l
                  ELSE CASE r = "load" -> Append(l, [n |-> n, s |-> "initialized", v |-> Len(h)])
                         [] r = "unload" -> SelectSeq(l, LAMBDA c : c.n # n)
                         [] OTHER -> [k \in 1..Len(l) |-> IF l[k].n = n THEN [l[k] EXCEPT !.s = IF r = "stop" THEN "stopped" ELSE "running"] ELSE l[k]]
RECURSIVE Serve(_, _, _)
Serve(l, rs, n) == IF rs = <<>> THEN l ELSE Serve(After(l, Head(rs), n), Tail(rs), n)
RECURSIVE AllOk(_, _, _)
AllOk(l, rs, n) == Len(rs) <= 1 \/ (Ok(l, Head(rs), n) /\ AllOk(After(l, Head(rs), n), Tail(rs), n))
\* ---- steps; x: what the step is about, what can be seen after it
World == [up |-> up', ctl |-> ctl', conf |-> conf', cv |-> cv']
Note(e, m, n, x) == h' = Append(h, [e |-> e, m |-> m, n |-> n, x |-> x, world |-> World])
Nothing == [seen |-> "nothing"]
SeeItems == [seen |-> "items", items |-> items', sel |-> sel']
SeeRows == IF known' THEN [seen |-> "rows", rows |-> rows'] ELSE Nothing
SeeAll == [seen |-> "all", items |-> items', sel |-> sel', rows |-> rows', known |-> known']
More == ~over /\ Len(h) < Depth
Gui == <<items, sel, rows, known, menu, saved, over>>
\* the world around
Appear(m) == More /\ m \notin up /\ up' = up \cup {m} /\ UNCHANGED <<ctl, conf, cv, Gui>> /\ Note("world", m, None, Nothing)
Vanish(m) == More /\ m \in up /\ up' = up \ {m} /\ known' = (known /\ m # sel) /\ ctl' = [ctl EXCEPT ![m] = <<>>] /\ UNCHANGED <<conf, cv, items, sel, rows, menu, saved, over>> /\ Note("world", m, None, Nothing)
Restart(m) == More /\ m \in up /\ ctl' = [ctl EXCEPT ![m] = <<>>] /\ UNCHANGED <<up, conf, cv, Gui>> /\ Note("restart", m, None, Nothing)
Load(m, n, s) == More /\ m \in up /\ ~Has(m, n) /\ ctl' = [ctl EXCEPT ![m] = Append(@, [n |-> n, s |-> s, v |-> Len(h)])] /\ UNCHANGED <<up, conf, cv, Gui>> /\ Note("world", m, n, Nothing)
Turn(m, n, s) == More /\ m \in up /\ Has(m, n) /\ ctl[m][At(m, n)].s # s /\ ctl' = [ctl EXCEPT ![m][At(m, n)].s = s] /\ UNCHANGED <<up, conf, cv, Gui>> /\ Note("world", m, n, Nothing)
Replace(m, n) == More /\ m \in up /\ Has(m, n) /\ ctl' = [ctl EXCEPT ![m][At(m, n)].v = Len(h)] /\ UNCHANGED <<up, conf, cv, Gui>> /\ Note("world", m, n, Nothing)
Reconfigure == More /\ cv' = Len(h) /\ UNCHANGED <<up, ctl, conf, Gui>> /\ Note("world", None, None, Nothing)
Unload(m, n) == More /\ m \in up /\ Has(m, n) /\ ctl' = [ctl EXCEPT ![m] = SelectSeq(@, LAMBDA c : c.n # n)] /\ UNCHANGED <<up, conf, cv, Gui>> /\ Note("world", m, n, Nothing)
Configure(s, n) == More /\ conf' = [conf EXCEPT ![s] = IF n \in @ THEN @ \ {n} ELSE @ \cup {n}] /\ UNCHANGED <<up, ctl, cv, Gui>> /\ Note("world", None, n, Nothing)
\* the front end's own clock: managers, and controllers of the selected one
Polled == items' = up /\ sel' = IF sel \in up THEN sel ELSE None
Viewed(m) == known' = (m = None \/ m \in up) /\ rows' = IF m = None \/ m \in up THEN View(m, ctl, conf) ELSE rows
PollManagers == More /\ UNCHANGED <<up, ctl, conf, cv, menu, saved, over>> /\ Polled /\ (IF Merged THEN Viewed(sel') ELSE IF sel' # sel THEN known' = FALSE /\ UNCHANGED rows ELSE UNCHANGED <<rows, known>>) /\ Note("managers", None, None, IF Merged THEN SeeAll ELSE SeeItems)
PollControllers == More /\ UNCHANGED <<up, ctl, conf, cv, menu, saved, over>> /\ (IF Merged THEN Polled ELSE UNCHANGED <<items, sel>>) /\ Viewed(sel') /\ Note("controllers", None, None, IF Merged THEN SeeAll ELSE SeeRows)
\* the user
Select(m) == More /\ menu = Idle /\ m \in items /\ m # sel /\ sel' = m /\ Viewed(m) /\ UNCHANGED <<up, ctl, conf, cv, items, menu, saved, over>> /\ Note("select", m, None, SeeRows)
Open(n) == More /\ menu = Idle /\ known /\ n \in Shown /\ menu' = [n |-> n, s |-> StateOf(n)] /\ UNCHANGED <<up, ctl, conf, cv, items, sel, rows, known, saved, over>> /\ Note("open", None, n, [seen |-> "menu", state |-> StateOf(n), entries |-> Entries(StateOf(n))])
Dismiss == More /\ menu # Idle /\ menu' = Idle /\ UNCHANGED <<up, ctl, conf, cv, items, sel, rows, known, saved, over>> /\ Note("dismiss", None, menu.n, [seen |-> "requests", to |-> None, rs |-> <<>>, free |-> FALSE])
\* requests go to the selected manager if it is there; with two, what happens after a refused first one is left open
Choose(e) == /\ More /\ menu # Idle /\ e \in Entries(menu.s) /\ menu' = Idle /\ UNCHANGED <<up, conf, cv, items, sel, rows, known, saved>>
             /\ IF sel \in up THEN /\ ctl' = [ctl EXCEPT ![sel] = Serve(@, Requests(e), menu.n)] /\ over' = ~AllOk(ctl[sel], Requests(e), menu.n)
                                   /\ Note("choose " \o e, sel, menu.n, [seen |-> "requests", to |-> sel, rs |-> Requests(e), free |-> over'])
                ELSE UNCHANGED <<ctl, over>> /\ Note("choose " \o e, None, menu.n, [seen |-> "requests", to |-> None, rs |-> <<>>, free |-> FALSE])
Details(n) == More /\ menu = Idle /\ known /\ n \in Shown /\ UNCHANGED <<up, ctl, conf, cv, Gui>> /\ Note("details", sel, n, [seen |-> "details", idle |-> n \in rows.idle, v |-> IF n \in rows.idle THEN rows.cv ELSE rows.loaded[CHOOSE k \in 1..Len(rows.loaded) : rows.loaded[k].n = n].v])
\* closed, its settings kept, and opened again
Reopen == More /\ menu = Idle /\ saved' = sel /\ items' = up /\ sel' = (IF sel \in up THEN sel ELSE None) /\ Viewed(sel') /\ UNCHANGED <<up, ctl, conf, cv, menu, over>> /\ Note("reopen", None, None, SeeAll)
Init == /\ cv = 0 /\ menu = Idle /\ saved = None /\ over = FALSE
        /\ up \in (IF Mode # "sim" THEN {{"m1", "m2"}} ELSE SUBSET Mgrs)
        /\ ctl = [m \in Mgrs |-> IF m \notin up THEN <<>> ELSE IF m = "m1" THEN <<[n |-> "b", s |-> "running", v |-> 0], [n |-> "a", s |-> "stopped", v |-> 0]>> ELSE <<[n |-> "a", s |-> "running", v |-> 0]>>]
        /\ conf = [s \in {"n1", "n2"} |-> IF s = "n1" THEN {"a", "c"} ELSE {"b"}]
        /\ items = up /\ sel = (IF Mode # "sim" THEN "m1" ELSE None) /\ known = TRUE /\ rows = View(sel, ctl, conf)
        /\ h = <<[e |-> IF Mode # "sim" THEN "start selected" ELSE "start", m |-> sel, n |-> None, x |-> [seen |-> "all", items |-> up, sel |-> sel, rows |-> rows, known |-> TRUE], world |-> [up |-> up, ctl |-> ctl, conf |-> conf, cv |-> cv]]>>
Environment == \/ \E m \in Mgrs : Appear(m) \/ Vanish(m) \/ Restart(m)
               \/ \E m \in Mgrs, n \in Names : Unload(m, n) \/ Replace(m, n) \/ \E s \in States : Load(m, n, s) \/ Turn(m, n, s)
               \/ \E s \in {"n1", "n2"}, n \in Names : Configure(s, n)
               \/ Reconfigure
Relevant == \/ \E m \in {sel} \ {None} : (Vanish(m) \/ Restart(m))
            \/ \E m \in {sel} \ {None}, n \in Names : (Unload(m, n) \/ Replace(m, n) \/ Load(m, n, "running") \/ \E s \in States : Turn(m, n, s))
            \/ \E n \in {"b", "c"} : Configure("n1", n)
            \/ \E m \in Mgrs \ {sel} : Appear(m) \/ Vanish(m)
            \/ Turn("m2", "a", "stopped") \/ Reconfigure
\* a menu that stays open while its manager goes away, comes back or is restarted and others change it
Meanwhile == \/ IF Len(h) = 1 THEN \E n \in Names : Open(n) ELSE menu # Idle /\ Len(h) < Depth - 1 /\ (Vanish("m1") \/ Appear("m1") \/ Restart("m1") \/ Load("m1", menu.n, "running") \/ Turn("m1", menu.n, "running") \/ Turn("m1", menu.n, "stopped") \/ Unload("m1", menu.n) \/ PollManagers \/ PollControllers)
             \/ Dismiss
             \/ \E e \in {"stop", "kill", "start", "unload", "load", "spawn"} : Choose(e)
\* two requests with whatever a restart changes between them
Choices == Cardinality({k \in 1..Len(h) : h[k].x.seen = "requests"})
Twice == Choices < 2 /\ IF menu # Idle THEN \E e \in {"stop", "kill", "start", "unload", "load", "spawn"} : Choose(e)
                        ELSE \/ h[Len(h)].e \in {"controllers", "start selected", "restart"} /\ \E n \in Names : Open(n)
                             \/ h[Len(h)].x.seen = "requests" /\ (Restart("m1") \/ PollControllers)
                             \/ h[Len(h)].e = "restart" /\ PollControllers
Anything ==
        \/ IF Mode = "bfs" THEN Relevant ELSE Environment
        \/ PollManagers \/ PollControllers
        \/ PollManagers \/ PollControllers
        \/ \E m \in Mgrs : Select(m)
        \/ \E n \in Names : Open(n)
        \/ \E n \in Names : Details(n)
        \/ \E e \in {"stop", "kill", "start", "unload", "load", "spawn"} : Choose(e)
        \/ \E e \in {"stop", "kill", "start", "unload", "load", "spawn"} : Choose(e)
        \/ Dismiss \/ Reopen

\* ---- properties
Offered == sel = None \/ sel \in items
EachOnce == Cardinality(Shown) = Len(rows.loaded) + Cardinality(rows.idle)
Last == h[Len(h)]
\* right after a refresh everything the manager has is shown, and everything configured for it
Faithful == (Last.x.seen = "rows" \/ (Last.x.seen = "all" /\ Last.x.known)) /\ sel \in up => rows.loaded = ctl[sel] /\ Shown = conf[Ns(sel)] \cup Loaded(ctl[sel])
KeptWhileUp == [][(sel \in up /\ sel' # sel) => h'[Len(h')].e = "select"]_vars
\* only a choice from the menu asks anything of a manager, and only of the one selected
AsksOnlyWhenChosen == [][\A k \in Len(h) + 1..Len(h') : h'[k].x.seen = "requests" => (h'[k].x.to \in {None, sel} /\ (h'[k].e = "dismiss" => h'[k].x.rs = <<>>))]_vars
Done == over \/ Len(h) >= Depth \/ (Mode = "twice" /\ Choices = 2) \/ (Mode = "menu" /\ Len(h) > 1 /\ menu = Idle)
Next == \/ (CASE Mode = "menu" -> Meanwhile [] Mode = "twice" -> Twice [] OTHER -> Anything) /\ UNCHANGED told
        \/ Mode = "sim" /\ Done /\ ~told /\ told' = TRUE /\ UNCHANGED vars
Spec == Init /\ told = FALSE /\ [][Next]_<<vars, told>>
Emit == Done /\ (Mode = "sim" => told) /\ (told \/ over \/ Last.x.seen # "nothing") => PrintT(<<"CASE", ToJson([h |-> h])>>)
====
