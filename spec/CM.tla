-------------------------------- MODULE CM --------------------------------
(* Contract-level specification of controller_manager::ControllerManager: API threads calling load / unload /     *)
(* switch / lookup / services, one real-time thread calling update(), and a robot hardware that answers conflict  *)
(* checks, prepareSwitch, doSwitch and switchResult.  One action per externally visible event of the real code,   *)
(* plus a few silent steps (lock acquisition, publication of a list, arming of a switch, taking of a snapshot).   *)
(* MC_CM checks it exhaustively for small constants; Trace_CM validates recordings of the real code against it.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES
  meta,   \* fixed data of the scenario: what each controller name stands for, loaders, permission to conflict
  fresh,  \* loaders that have been reloaded at least once
  list,   \* published controllers: sequence of instance ids, in load order
  inst,   \* every controller instance ever constructed: [name, st, alive]
  lock,   \* thread inside the controllers critical section, 0 = none
  slock,  \* thread inside the services critical section
  pc,     \* per API thread: where it is in its current call
  sw,     \* the switch handed over to the control cycle
  rt      \* the control cycle in progress
vars == <<meta, fresh, list, inst, lock, slock, pc, sw, rt>>

NoOp   == [op |-> "none", svc |-> FALSE, name |-> "", start |-> <<>>, stop |-> <<>>, strict |-> 0, asap |-> FALSE, to |-> 0, force |-> FALSE]
NoRel  == [on |-> FALSE, todo |-> <<>>, done |-> {}]
Idle   == [ph |-> "idle", op |-> NoOp, rel |-> NoRel, id |-> 0, start |-> {}, stop |-> {}, will |-> {}, t0 |-> -1,
           w0 |-> 0, res |-> {}, out |-> <<>>]
NoSw   == [on |-> FALSE, by |-> 0, start |-> {}, stop |-> {}, asap |-> FALSE, to |-> 0, t0 |-> 0, ds |-> FALSE, stopped |-> {}, touched |-> {}]
NoRt   == [on |-> FALSE, t |-> 0, per |-> 0, reset |-> FALSE, snapped |-> FALSE, snap |-> <<>>, run |-> <<>>, upd |-> 0,
           r1 |-> {}, r2 |-> {}, must |-> FALSE, sr |-> "", src |-> {}, hand |-> {}, kind |-> ""]

InitWith(m, Threads) ==
  /\ meta = m /\ fresh = {} /\ list = <<>> /\ inst = <<>> /\ lock = 0 /\ slock = 0
  /\ pc = [t \in Threads |-> Idle] /\ sw = NoSw /\ rt = NoRt

---------------------------------------------------------------------------
(* Vocabulary *)
Ids          == ToSet(list)
St(i)        == inst[i].st
Running(i)   == inst[i].st = "run"
NameOf(i)    == inst[i].name
Loaded(n)    == \E i \in Ids : NameOf(i) = n
IdOf(n)      == CHOOSE i \in Ids : NameOf(i) = n
Known(n)     == n \in DOMAIN meta.ctl
Sig(i)       == meta.ctl[NameOf(i)].sig
Res(i)       == meta.ctl[NameOf(i)].res
Sigs(S)      == {Sig(i) : i \in S}
ConflictIn(S) == \E i, j \in S : i # j /\ Res(i) \cap Res(j) # {}
StateWord(s) == CASE s = "init" -> "initialized" [] s = "run" -> "running" [] s = "stop" -> "stopped"
                  [] s = "wait" -> "waiting" [] s = "abort" -> "aborted" [] OTHER -> "unknown"

(* What creating an instance of the type configured for a name leads to: the loader used, or a failure.           *)
TypeOf(n)    == IF Known(n) THEN meta.ctl[n].type ELSE "-"
\* what a loader offers: reloading may change it, once
Offered(k)   == IF meta.loaders[k].name \in fresh THEN meta.loaders[k].after ELSE meta.loaders[k].types
Offer(ty)    == {k \in 1..Len(meta.loaders) : ty \in Offered(k)}
TypesOut     == FoldLeft(LAMBDA o, k : o \o SetToSeq({<<ty, meta.loaders[k].name>> : ty \in Offered(k)}), <<>>, [k \in 1..Len(meta.loaders) |-> k])
Creation(n)  == LET ty == TypeOf(n)
                    good == {k \in Offer(ty) : ty \notin meta.loaders[k].nulls}
                    k == CHOOSE x \in good : \A y \in good : x <= y
                IN IF ty = "-" \/ good = {} THEN [kind |-> "fail", loader |-> ""]
                   ELSE IF ty \in meta.throwing THEN [kind |-> "throw", loader |-> ""]
                   ELSE [kind |-> "con", loader |-> meta.loaders[k].name]

(* Admission of a switch request (property C04). *)
Admission(o) ==
  LET S  == ToSet(o.start)   P == ToSet(o.stop)
      be == o.strict # 2
      stop0 == {i \in Ids : NameOf(i) \in P}
      start0 == {i \in Ids : NameOf(i) \in S}
      stop1 == {i \in stop0 : Running(i)}
      start1 == {i \in start0 : ~Running(i) \/ i \in stop1}
      missing == \E n \in S \cup P : ~Loaded(n)
      refused == \/ ~be /\ (missing \/ stop1 # stop0 \/ start1 # start0)
                 \/ stop1 \cap start1 # {}
  IN [ok |-> ~refused, start |-> start1, stop |-> stop1, will |-> ({i \in Ids : Running(i)} \ stop1) \cup start1]

---------------------------------------------------------------------------
(* Finishing the critical section of a call, with the continuation of a forced reload. *)
Fin(t, r, o) == [pc[t] EXCEPT !.ph = "fin", !.res = r, !.out = o, !.rel = NoRel, !.start = {}, !.stop = {}, !.will = {}, !.id = 0, !.t0 = -1]
Next_(t, l, ok) ==       \* where a sub-operation of a reload leads
  LET r == pc[t].rel IN
  IF ~ok THEN Fin(t, {"false"}, <<>>)
  ELSE IF r.todo = <<>> THEN [Idle EXCEPT !.ph = "reload", !.op = pc[t].op, !.rel = r]
  ELSE [Idle EXCEPT !.ph = "called", !.op = [NoOp EXCEPT !.op = "unload", !.name = Head(r.todo)], !.rel = [r EXCEPT !.todo = Tail(@)]]
\* l = controller list after the step
Leave(t, l, ok, r, o) ==
  /\ LET n == IF pc[t].rel.on THEN Next_(t, l, ok) ELSE Fin(t, r, o)
     IN /\ pc' = [pc EXCEPT ![t] = n]
        /\ lock' = IF n.ph = "fin" THEN 0 ELSE lock          \* a reload keeps everybody else out until it is through
        /\ slock' = IF slock = t /\ n.ph = "fin" THEN 0 ELSE slock

Call(t, o) == /\ pc[t].ph = "idle" /\ pc' = [pc EXCEPT ![t] = [Idle EXCEPT !.ph = "called", !.op = o]]
              /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, sw, rt>>
Ret(t, r)  == /\ pc[t].ph = "fin" /\ r \in pc[t].res /\ pc' = [pc EXCEPT ![t] = Idle]
              /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, sw, rt>>

(* Entering the critical section: the request is evaluated against the current list and states. *)
Refuse(t, r) == Leave(t, list, FALSE, r, <<>>) /\ UNCHANGED <<meta, fresh, list, inst, sw, rt>>
EnterTo(t, p) == /\ lock' = t /\ pc' = [pc EXCEPT ![t] = p] /\ slock' = (IF pc[t].op.svc THEN t ELSE slock)
                 /\ UNCHANGED <<meta, fresh, list, inst, sw, rt>>
ListOut == [k \in 1..Len(list) |-> <<Sig(list[k]), StateWord(St(list[k]))>>]
Acquire(t) ==
  /\ pc[t].ph = "called" /\ (lock = 0 \/ (lock = t /\ pc[t].rel.on) \/ pc[t].op.op = "types")
  /\ pc[t].op.svc => slock = 0
  /\ LET o == pc[t].op IN
     CASE o.op = "load" ->
            IF Loaded(o.name) THEN Refuse(t, {"false"})
            ELSE LET c == Creation(o.name) IN
                 IF c.kind = "fail" THEN Refuse(t, {"false"})
                 ELSE IF c.kind = "throw" THEN Refuse(t, {"false", "exc"})
                 ELSE EnterTo(t, [pc[t] EXCEPT !.ph = "construct"])
       [] o.op = "unload" ->
            IF ~Loaded(o.name) THEN Refuse(t, {"false"})
            ELSE IF Running(IdOf(o.name)) THEN Refuse(t, {"false"})
            ELSE EnterTo(t, [pc[t] EXCEPT !.ph = "unlink", !.id = IdOf(o.name)])
       [] o.op = "switch" ->
            LET a == Admission(o) IN
            IF ~a.ok THEN Refuse(t, {"false"})
            ELSE EnterTo(t, [pc[t] EXCEPT !.ph = "check", !.start = a.start, !.stop = a.stop, !.will = a.will])
       [] o.op = "get" ->
            /\ Leave(t, list, TRUE, IF Loaded(o.name) THEN {"true"} ELSE {"false"}, IF Loaded(o.name) THEN IdOf(o.name) ELSE 0)
            /\ UNCHANGED <<meta, fresh, list, inst, sw, rt>>
       [] o.op = "list" ->
            /\ Leave(t, list, TRUE, {"true"}, ListOut)
            /\ UNCHANGED <<meta, fresh, list, inst, sw, rt>>
       [] o.op = "types" ->
            /\ pc' = [pc EXCEPT ![t] = Fin(t, {"true"}, TypesOut)]      \* no controller is looked at
            /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, sw, rt>>
       [] o.op = "reload" ->
            IF list # <<>> /\ ~o.force THEN Refuse(t, {"false"})
            ELSE /\ slock' = t /\ lock' = t /\ UNCHANGED <<meta, fresh, list, inst, sw, rt>>
                 /\ LET ns == [k \in 1..Len(list) |-> NameOf(list[k])] IN
                    pc' = [pc EXCEPT ![t] = IF ns = <<>> THEN [Idle EXCEPT !.ph = "reload", !.op = o, !.rel = [NoRel EXCEPT !.on = TRUE]]
                             ELSE [Idle EXCEPT !.ph = "called", !.op = [NoOp EXCEPT !.op = "switch", !.stop = ns, !.strict = 1],
                                               !.rel = [NoRel EXCEPT !.on = TRUE, !.todo = ns]]]
       [] OTHER -> FALSE

---------------------------------------------------------------------------
(* Loading *)
Construct(t, ty, ld) ==
  /\ pc[t].ph = "construct"
  /\ LET n == pc[t].op.name   c == Creation(n) IN c.loader = ld /\ TypeOf(n) = ty
  /\ inst' = Append(inst, [name |-> pc[t].op.name, st |-> "con", alive |-> TRUE])
  /\ pc' = [pc EXCEPT ![t].ph = "initialise", ![t].id = Len(inst) + 1]
  /\ UNCHANGED <<meta, fresh, list, lock, slock, sw, rt>>
InitCtl(t, i, n, accepts) ==
  /\ pc[t].ph = "initialise" /\ i = pc[t].id /\ n = pc[t].op.name
  /\ pc' = [pc EXCEPT ![t].ph = IF accepts THEN "link" ELSE "discard"]
  /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, sw, rt>>
\* publication of the longer list; the call may still wait for the control cycle before it returns
Link(t) ==
  /\ pc[t].ph = "link"
  /\ list' = Append(list, pc[t].id) /\ inst' = [inst EXCEPT ![pc[t].id].st = "init"]
  /\ Leave(t, list', TRUE, {"true"}, <<>>)
  /\ UNCHANGED <<meta, fresh, sw, rt>>
InUse(i) == rt.on /\ rt.snapped /\ i \in ToSet(rt.snap)
Discard(t, i) ==
  /\ pc[t].ph = "discard" /\ i = pc[t].id /\ inst[i].alive
  /\ inst' = [inst EXCEPT ![i].alive = FALSE]
  /\ Leave(t, list, FALSE, {"false"}, <<>>)
  /\ UNCHANGED <<meta, fresh, list, sw, rt>>

(* Unloading *)
Unlink(t) ==
  /\ pc[t].ph = "unlink"
  /\ list' = SelectSeq(list, LAMBDA i : i # pc[t].id)
  /\ pc' = [pc EXCEPT ![t].ph = "reclaim"]
  /\ UNCHANGED <<meta, fresh, inst, lock, slock, sw, rt>>
Reclaim(t, i) ==
  /\ pc[t].ph = "reclaim" /\ i = pc[t].id /\ inst[i].alive /\ ~InUse(i)
  /\ inst' = [inst EXCEPT ![i].alive = FALSE]
  /\ Leave(t, list, TRUE, {"true"}, <<>>)
  /\ UNCHANGED <<meta, fresh, list, sw, rt>>
Destroy(t, i) == Discard(t, i) \/ Reclaim(t, i)

(* Switching: requesting side *)
CheckConflict(t, L, ans) ==
  /\ pc[t].ph \in {"check", "prepare"} /\ L = pc[t].will
  /\ IF ans THEN Refuse(t, {"false"})
     ELSE pc' = [pc EXCEPT ![t].ph = "prepare"] /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, sw, rt>>
Prepare(t, A, B, ans) ==
  /\ pc[t].ph = "prepare" /\ A = pc[t].start /\ B = pc[t].stop
  /\ IF ~ans THEN Refuse(t, {"false"})
     ELSE pc' = [pc EXCEPT ![t].ph = "arm"] /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, sw, rt>>
ReadClock(t, tm, w) ==
  /\ pc' = [pc EXCEPT ![t].t0 = tm, ![t].w0 = w] /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, sw, rt>>
Arm(t) ==
  /\ pc[t].ph = "arm" /\ pc[t].t0 >= 0
  /\ sw' = [on |-> TRUE, by |-> t, start |-> pc[t].start, stop |-> pc[t].stop, asap |-> pc[t].op.asap, to |-> pc[t].op.to,
            t0 |-> pc[t].t0, ds |-> FALSE, stopped |-> {}, touched |-> {}]
  /\ rt' = [rt EXCEPT !.hand = {}, !.kind = "", !.must = FALSE, !.sr = "", !.src = {}]
  /\ pc' = [pc EXCEPT ![t].ph = "wait"]
  /\ UNCHANGED <<meta, fresh, list, inst, lock, slock>>
Elapsed    == sw.to > 0 /\ rt.t - sw.t0 > sw.to       \* certainly elapsed
MayElapse  == sw.to > 0 /\ rt.t - sw.t0 >= sw.to      \* the instant itself is left open
StopsDone  == sw.ds /\ sw.stopped = sw.stop
\* has the control cycle carried out everything?
SwComplete ==
  /\ sw.on /\ StopsDone
  /\ IF sw.asap THEN sw.start \subseteq sw.touched /\ \A i \in sw.start : St(i) \in {"run", "abort"}
     ELSE IF sw.start = {} THEN rt.on /\ (rt.sr \in {"DONE", "ERROR"} \/ (rt.sr = "ONGOING" /\ MayElapse))
     ELSE rt.on /\ rt.hand = sw.start /\ rt.kind \in {"sta", "abo"}
SwPending == sw.on /\ sw.ds      \* it may stay unfinished after this cycle
SwitchDone(t) ==
  /\ pc[t].ph = "wait" /\ (~sw.on \/ (sw.by = t /\ SwComplete))
  /\ sw' = NoSw /\ rt' = [rt EXCEPT !.must = FALSE]
  /\ Leave(t, list, TRUE, {"true"}, <<>>)
  /\ UNCHANGED <<meta, fresh, list, inst>>
\* giving up: the switch is cancelled and never carried out later
GiveUp(t) ==
  /\ pc[t].ph = "wait" /\ sw' = NoSw /\ rt' = [rt EXCEPT !.must = FALSE]
  /\ Leave(t, list, FALSE, {"false"}, <<>>)
  /\ UNCHANGED <<meta, fresh, list, inst>>

(* Reloading libraries *)
Loaders == {meta.loaders[k].name : k \in 1..Len(meta.loaders)}
ReloadLoader(t, ld) ==
  /\ pc[t].ph = "reload" /\ list = <<>> /\ ld \in Loaders \ pc[t].rel.done
  /\ LET d == pc[t].rel.done \cup {ld} IN
     IF d = Loaders THEN pc' = [pc EXCEPT ![t] = Fin(t, {"true"}, <<>>)] /\ slock' = 0 /\ lock' = 0
     ELSE pc' = [pc EXCEPT ![t].rel.done = d] /\ UNCHANGED <<slock, lock>>
  /\ fresh' = fresh \cup {ld} /\ UNCHANGED <<meta, list, inst, sw, rt>>

---------------------------------------------------------------------------
(* The control cycle *)
CycleBegin(tm, per, reset) ==
  /\ ~rt.on
  /\ rt' = [NoRt EXCEPT !.on = TRUE, !.t = tm, !.per = per, !.reset = reset, !.must = sw.on]
  /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, pc, sw>>
Snap ==
  /\ rt.on /\ ~rt.snapped
  /\ rt' = [rt EXCEPT !.snapped = TRUE, !.snap = list, !.run = SelectSeq(list, LAMBDA i : Running(i))]
  /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, pc, sw>>
ResetDone == rt.reset => rt.r2 = ToSet(rt.run)
SetSt(i, s) == inst' = [inst EXCEPT ![i].st = s]
ResetStop(i) ==
  /\ rt.on /\ rt.snapped /\ rt.reset /\ rt.upd = 0 /\ i \in ToSet(rt.run) \ rt.r1 /\ inst[i].alive
  /\ rt' = [rt EXCEPT !.r1 = @ \cup {i}] /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, pc, sw>>      \* it stays running
ResetStart(i) ==
  /\ rt.on /\ rt.snapped /\ rt.reset /\ rt.upd = 0 /\ i \in rt.r1 \ rt.r2 /\ inst[i].alive
  /\ rt' = [rt EXCEPT !.r2 = @ \cup {i}] /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, pc, sw>>
Update(i, tm, per) ==
  /\ rt.on /\ rt.snapped /\ ResetDone /\ rt.upd < Len(rt.run) /\ i = rt.run[rt.upd + 1] /\ inst[i].alive
  /\ tm = rt.t /\ per = rt.per
  /\ rt' = [rt EXCEPT !.upd = @ + 1] /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, pc, sw>>
Updated == rt.on /\ rt.snapped /\ ResetDone /\ rt.upd = Len(rt.run)
DoSwitch(A, B) ==
  /\ Updated /\ sw.on /\ ~sw.ds /\ A = sw.start /\ B = sw.stop
  /\ sw' = [sw EXCEPT !.ds = TRUE] /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, pc, rt>>
SwitchStop(i) ==
  /\ Updated /\ sw.on /\ sw.ds /\ i \in sw.stop \ sw.stopped /\ inst[i].alive
  /\ sw' = [sw EXCEPT !.stopped = @ \cup {i}] /\ SetSt(i, "stop") /\ UNCHANGED <<meta, fresh, list, lock, slock, pc, rt>>
AskResult(r) == /\ rt' = (IF rt.on THEN [rt EXCEPT !.sr = r] ELSE rt) /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, pc, sw>>
AskOne(s, r) == /\ rt' = (IF rt.on THEN [rt EXCEPT !.src = {x \in @ : x[1] # s} \cup {<<s, r>>}] ELSE rt)
                /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, pc, sw>>
Answer(i, r) == IF sw.asap THEN <<Sig(i), r>> \in rt.src ELSE rt.sr = r
\* an aborted controller of a still unfinished as-soon-as-possible switch may be looked at again
Pending(i) == /\ i \in sw.start \ rt.hand
              /\ sw.asap => (St(i) # "run" \/ i \notin sw.touched)
Handle(i, k, s) ==
  /\ Updated /\ sw.on /\ sw.ds /\ Pending(i) /\ inst[i].alive
  /\ ~sw.asap => rt.kind \in {"", k}
  /\ rt' = [rt EXCEPT !.hand = @ \cup {i}, !.kind = k]
  /\ sw' = [sw EXCEPT !.touched = @ \cup {i}]
  /\ SetSt(i, s) /\ UNCHANGED <<meta, fresh, list, lock, slock, pc>>
SwitchStart(i) == StopsDone /\ Answer(i, "DONE") /\ Handle(i, "sta", "run")
SwitchAbort(i) == (Answer(i, "ERROR") \/ (Answer(i, "ONGOING") /\ MayElapse)) /\ Handle(i, "abo", "abort")
SwitchWait(i)  == Answer(i, "ONGOING") /\ ~Elapsed /\ Handle(i, "wai", "wait")
\* what the cycle owes to a switch that was pending when it began
Served == /\ StopsDone
          /\ IF sw.asap THEN \A i \in sw.start : i \in rt.hand \/ (i \in sw.touched /\ St(i) \in {"run", "abort"})
             ELSE IF sw.start = {} THEN rt.sr # "" ELSE rt.hand = sw.start
\* a pending switch that the cycle touched must have been served in full
CycleEnd ==
  /\ Updated
  /\ (sw.on /\ (rt.must \/ sw.ds)) => Served
  /\ \/ /\ sw.on /\ SwComplete /\ sw' = NoSw       \* finished: the waiting call may now return
     \/ /\ ~(sw.on /\ SwComplete /\ ~(sw.start = {} /\ ~sw.asap /\ rt.sr = "ONGOING" /\ ~Elapsed)) /\ sw' = sw
  /\ rt' = NoRt /\ UNCHANGED <<meta, fresh, list, inst, lock, slock, pc>>

---------------------------------------------------------------------------
(* Properties of the design *)
TypeOK == /\ list \in Seq(1..Len(inst)) /\ lock \in {0} \cup DOMAIN pc /\ slock \in {0} \cup DOMAIN pc
          /\ \A i \in 1..Len(inst) : inst[i].st \in {"con", "init", "run", "stop", "wait", "abort"}
UniqueNames  == \A j, k \in 1..Len(list) : j # k => NameOf(list[j]) # NameOf(list[k])                        \* C07
ListedAlive  == \A i \in Ids : inst[i].alive /\ St(i) # "con"                                                  \* C07, C08
RunningListed == \A i \in 1..Len(inst) : Running(i) => i \in Ids                                               \* C07
NoSharedResource == meta.mayConflict \/ ~ConflictIn({i \in Ids : Running(i)})                                  \* C03
CycleSafe    == rt.on /\ rt.snapped => \A i \in ToSet(rt.snap) : inst[i].alive                                 \* C08
SwitchOwned  == sw.on => lock = sw.by /\ pc[sw.by].ph = "wait"                                                 \* C09
SwitchDisjoint == sw.start \cap sw.stop = {}                                                                   \* C04
OnlyAskedStart == \A i \in sw.touched : i \in sw.start                                                         \* C05
StopBeforeStart == sw.on /\ (\E i \in sw.touched : St(i) = "run") => StopsDone                                 \* C05
Inv == TypeOK /\ UniqueNames /\ ListedAlive /\ RunningListed /\ NoSharedResource /\ CycleSafe /\ SwitchOwned /\ SwitchDisjoint
       /\ OnlyAskedStart /\ StopBeforeStart
=============================================================================
