------------------------------ MODULE Trace_CM ------------------------------
(* Trace validation: every recording of the real ControllerManager must be a behaviour of CM.  One TLC run checks *)
(* many recordings (variable ti picks one).  Acquire, Link, Unlink, Arm, SwitchDone, GiveUp and Snap are not       *)
(* logged and are inferred; they are placed as late or as early as possible without losing behaviours.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
VARIABLES fresh, list, inst, lock, slock, pc, sw, rt, ti, l, late, down

Traces == ndJsonDeserialize(IOEnv.TRACES)
MetaOf(tr) == [ctl |-> [n \in DOMAIN tr.ctl |-> [type |-> tr.ctl[n].type, sig |-> tr.ctl[n].sig, res |-> ToSet(tr.ctl[n].res)]],
               loaders |-> [k \in 1..Len(tr.loaders) |-> [name |-> tr.loaders[k].name, types |-> ToSet(tr.loaders[k].types), after |-> ToSet(tr.loaders[k].after), nulls |-> ToSet(tr.loaders[k].nulls)]],
               throwing |-> ToSet(tr.throwing), mayConflict |-> tr.mayConflict]
Metas == [k \in 1..Len(Traces) |-> MetaOf(Traces[k])]
C == INSTANCE CM WITH meta <- Metas[ti]
tvars == <<fresh, list, inst, lock, slock, pc, sw, rt, ti, l, late, down>>

Ev == Traces[ti].ev
E  == Ev[l]
T  == E.th
Threads == 1..4
Api == T \in Threads
Rt  == T = 0
Opt(f, d) == IF f \in DOMAIN E THEN E[f] ELSE d
OpOf == [op |-> E.op, svc |-> E.svc, name |-> Opt("name", ""), start |-> Opt("start", <<>>), stop |-> Opt("stop", <<>>),
         strict |-> Opt("strict", 0), asap |-> Opt("asap", FALSE), to |-> Opt("to", 0), force |-> Opt("force", FALSE)]
NoDup(s) == Len(s) = Cardinality(ToSet(s))

TInit == /\ ti \in 1..Len(Traces) /\ l = 1 /\ down = FALSE /\ late = [t \in Threads |-> 0] /\ C!InitWith(Metas[ti], Threads)

\* reported controller states against the specification's
Loading(i) == \E t \in Threads : pc[t].ph # "idle" /\ pc[t].op.op = "load" /\ pc[t].op.name = inst[i].name
StatesMatch(st) ==
  /\ {st[k][1] : k \in 1..Len(st)} = {i \in 1..Len(inst) : inst[i].alive}
  /\ \A k \in 1..Len(st) : LET i == st[k][1] IN st[k][2] = inst[i].st \/ (Loading(i) /\ st[k][2] \in {"con", "init"} /\ inst[i].st \in {"con", "init"})

cvars == <<fresh, list, inst, lock, slock, pc, sw, rt>>
\* A call that can only be waiting for the control cycle must stop sleeping soon after the cycle has run:
\* late[t] counts, for load/unload, the cycles ended since the call first slept; for switch, sleeps after completion.
Tick == late' = [t \in Threads |-> IF late[t] \in 1..90 THEN late[t] + 1 ELSE late[t]]
Sleep(t) ==
  /\ pc[t].ph # "idle" /\ ~(pc[t].ph = "arm" /\ pc[t].t0 >= 0)
  /\ LET p == pc[t]
         over == p.op.op = "switch" /\ (p.ph = "fin" \/ (p.ph = "wait" /\ ~sw.on))
         n == IF p.ph = "called" /\ (\E u \in Threads \ {t} : pc[u].ph # "idle") THEN late[t]      \* may be waiting for its turn
              ELSE IF p.op.op = "switch" THEN (IF over THEN late[t] + 200 ELSE 0)
              ELSE IF late[t] = 0 THEN 1 ELSE IF late[t] >= 100 THEN late[t] + 100 ELSE IF late[t] >= 5 THEN 100 ELSE late[t]
     IN n < 900 /\ late' = [late EXCEPT ![t] = n]
  /\ UNCHANGED cvars
Fresh(t) == late' = [late EXCEPT ![t] = 0]

\* a call that gives up because the node is shutting down: what it had handed over stays where it is
Interrupted(t) ==
  /\ pc[t].ph # "idle" /\ pc' = [pc EXCEPT ![t] = C!Idle]
  /\ lock' = (IF lock = t THEN 0 ELSE lock) /\ slock' = (IF slock = t THEN 0 ELSE slock)
  /\ UNCHANGED <<fresh, list, inst, sw, rt>>

Step ==
  /\ l <= Len(Ev) /\ ti' = ti
  /\ CASE E.e = "ue" -> Tick [] E.e \in {"call", "con", "init", "del"} -> Fresh(T) [] E.e = "slp" -> TRUE [] OTHER -> late' = late
  /\ down' = (down \/ E.e = "shutdown")
  /\ CASE E.e = "call" -> Api /\ C!Call(T, OpOf)
       [] E.e = "shutdown" -> UNCHANGED cvars
       [] E.e = "ret" /\ down /\ E.res = "false" -> Interrupted(T) \/ C!Ret(T, "false")
       [] E.e = "ret"  -> /\ Api /\ C!Ret(T, E.res)
                          /\ CASE E.op = "get" -> E.id = pc[T].out
                               [] E.op = "list" -> E.out = pc[T].out
                               [] E.op = "types" -> Len(E.out) = Len(pc[T].out) /\ ToSet(E.out) = ToSet(pc[T].out)
                               [] OTHER -> TRUE
       [] E.e = "con"  -> Api /\ E.id = Len(inst) + 1 /\ C!Construct(T, E.type, E.loader)
       [] E.e = "init" -> Api /\ E.okargs /\ C!InitCtl(T, E.id, E.name, E.how = "ok")
       [] E.e = "del"  -> Api /\ C!Destroy(T, E.id)
       [] E.e = "cc"   -> /\ Api /\ NoDup(E.l) /\ C!CheckConflict(T, {i \in C!Ids : C!Sig(i) \in ToSet(E.l)}, E.res)
                          /\ ToSet(E.l) = C!Sigs(pc[T].will)
                          /\ E.forced \/ E.res = C!ConflictIn(pc[T].will)
       [] E.e = "ps"   -> /\ Api /\ NoDup(E.start) /\ NoDup(E.stop)
                          /\ ToSet(E.start) = C!Sigs(pc[T].start) /\ ToSet(E.stop) = C!Sigs(pc[T].stop)
                          /\ C!Prepare(T, pc[T].start, pc[T].stop, E.res)
       [] E.e = "now"  -> Api /\ C!ReadClock(T, E.t, E.w)
       [] E.e = "slp"  -> Api /\ Sleep(T)
       [] E.e = "rl"   -> Api /\ C!ReloadLoader(T, E.loader)
       [] E.e = "ub"   -> Rt /\ C!CycleBegin(E.t, E.per, E.reset)
       [] E.e = "upd"  -> Rt /\ C!Update(E.id, E.t, E.per)
       [] E.e = "ds"   -> /\ Rt /\ NoDup(E.start) /\ NoDup(E.stop) /\ sw.on
                          /\ ToSet(E.start) = C!Sigs(sw.start) /\ ToSet(E.stop) = C!Sigs(sw.stop) /\ C!DoSwitch(sw.start, sw.stop)
       [] E.e = "sto"  -> Rt /\ E.t = rt.t /\ (C!SwitchStop(E.id) \/ C!ResetStop(E.id))
       [] E.e = "sta"  -> Rt /\ E.t = rt.t /\ (C!SwitchStart(E.id) \/ C!ResetStart(E.id))
       [] E.e = "abo"  -> Rt /\ E.t = rt.t /\ C!SwitchAbort(E.id)
       [] E.e = "wai"  -> Rt /\ E.t = rt.t /\ C!SwitchWait(E.id)
       [] E.e = "sr"   -> IF Rt THEN C!AskResult(E.res) ELSE UNCHANGED cvars
       [] E.e = "src"  -> IF Rt THEN C!AskOne(E.c, E.res) ELSE UNCHANGED cvars
       [] E.e = "ue"   -> Rt /\ StatesMatch(E.st) /\ C!NoSharedResource /\ C!CycleEnd
       [] E.e = "end"  -> /\ ~rt.on /\ (~sw.on \/ down) /\ \A t \in Threads : pc[t].ph = "idle"
                          /\ StatesMatch(E.st) /\ UNCHANGED cvars
       [] OTHER -> FALSE
  /\ l' = l + 1

Quiet == l' = l /\ down' = down /\ late' = late
Expired(t) == pc[t].op.to # 0 /\ E.w - pc[t].w0 >= pc[t].op.to + 1000
Silent ==
  \/ \E t \in Threads :
       \/ C!Acquire(t) /\ (T = t \/ pc'[t].ph = "fin" \/ pc[t].op.op = "unload")
       \/ (C!Arm(t) /\ ((Rt /\ E.e = "ds") \/ (T = t /\ E.e \in {"slp", "ret"}) \/ (Api /\ Expired(t))))
       \/ (Api /\ C!SwitchDone(t))
       \/ ((Api \/ E.e = "ue") /\ pc[t].ph = "wait" /\ Expired(t) /\ C!GiveUp(t))
Urgent(t) == pc[t].ph \in {"link", "unlink"}
NeedSnap == Rt /\ E.e # "ub" /\ rt.on /\ ~rt.snapped
TNext ==
  /\ l <= Len(Ev) /\ ti' = ti
  /\ IF \E t \in Threads : Urgent(t) THEN (\E t \in Threads : C!Link(t) \/ C!Unlink(t)) /\ Quiet
     ELSE IF NeedSnap THEN (C!Snap \/ (\E t \in Threads : pc[t].op.op = "unload" /\ C!Acquire(t))) /\ Quiet    \* an unload may get in first
     ELSE Step \/ (Silent /\ Quiet)
TSpec == TInit /\ [][TNext]_tvars

Accepted == l > Len(Ev) => PrintT(<<"ACC", Traces[ti].id>>)
\* diagnosis (one worker): how far each trace got
Furthest == TLCSet(ti, IF TLCGet(ti) < l THEN l ELSE TLCGet(ti))
DInit == TInit /\ \A k \in 1..Len(Traces) : TLCSet(k, 0)
DSpec == DInit /\ [][TNext]_tvars
Report == \A k \in 1..Len(Traces) : PrintT(<<"REJ", Traces[k].id, TLCGet(k), Len(Traces[k].ev)>>)
=============================================================================
