---- MODULE ManagerWorld ----
\* The controller manager as its command-line tools see it: services that change the state of named controllers.
\* A world is [st |-> state per name, log |-> requests made so far with their answers].  Every operator returns the world after a request,
\* the answer being the ok field of the last log entry: "ok", "no" (refused) or "x" (the call itself failed).
\* f describes what goes wrong: f.load, f.unload = names that can be loaded / unloaded, f.refuse = names whose start the manager refuses,
\* f.reload = whether libraries can be reloaded, f.throws = requests whose call fails ("load:a", "unload:a", "start:a", "stop:a").
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[k] : k \in 1..Len(s)}
Loaded(w) == {c \in DOMAIN w.st : w.st[c] # "absent"}
Running(w) == {c \in DOMAIN w.st : w.st[c] = "running"}
\* rep: whether the tool reports the request as a failure
Ev(op, c, start, stop, strict, ok) == [op |-> op, c |-> c, start |-> start, stop |-> stop, strict |-> strict, ok |-> ok, rep |-> ok # "ok"]
Answer(w) == w.log[Len(w.log)].ok
Put(w, cs, s) == [w EXCEPT !.st = [c \in DOMAIN w.st |-> IF c \in cs THEN s ELSE w.st[c]]]
Note(w, e) == [w EXCEPT !.log = Append(w.log, e)]
DoLoad(w, f, c) ==
  LET e(ok) == Ev("load", c, {}, {}, FALSE, ok) IN
  IF "load:" \o c \in f.throws THEN Note(w, e("x"))
  ELSE IF c \in f.load /\ c \in DOMAIN w.st /\ w.st[c] = "absent" THEN Note(Put(w, {c}, "stopped"), e("ok")) ELSE Note(w, e("no"))
DoUnload(w, f, c) ==
  LET e(ok) == Ev("unload", c, {}, {}, FALSE, ok) IN
  IF "unload:" \o c \in f.throws THEN Note(w, e("x"))
  ELSE IF c \in f.unload /\ c \in Loaded(w) \ Running(w) THEN Note(Put(w, {c}, "absent"), e("ok")) ELSE Note(w, e("no"))
DoSwitch(w, f, start, stop, strict) ==
  LET e(ok) == Ev("switch", "", start, stop, strict, ok)
      gone == stop \cap Running(w)
      come == start \cap (Loaded(w) \ Running(w)) IN
  IF (\E c \in start : "start:" \o c \in f.throws) \/ (\E c \in stop : "stop:" \o c \in f.throws) THEN Note(w, e("x"))
  ELSE IF strict /\ (gone # stop \/ come # start) THEN Note(w, e("no"))
  ELSE IF come \cap f.refuse # {} THEN Note(w, e("no"))
  ELSE Note(Put(Put(w, gone, "stopped"), come, "running"), e("ok"))
DoReload(w, f) == IF f.reload THEN Note(Put(w, DOMAIN w.st, "absent"), Ev("reload", "", {}, {}, FALSE, "ok")) ELSE Note(w, Ev("reload", "", {}, {}, FALSE, "no"))
\* somebody else changes the manager: per name one of "none", "stop", "start", "unload", "load"
Meddle(w, acts) == [w EXCEPT !.st = [c \in DOMAIN w.st |->
     CASE acts[c] = "stop" /\ w.st[c] = "running" -> "stopped" [] acts[c] = "start" /\ w.st[c] = "stopped" -> "running"
       [] acts[c] = "unload" /\ w.st[c] # "absent" -> "absent" [] acts[c] = "load" /\ w.st[c] = "absent" -> "stopped" [] OTHER -> w.st[c]]]
=============================================================================
