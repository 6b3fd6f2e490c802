------------------------------- MODULE MC_CM --------------------------------
(* Exhaustive check of CM for small constants: every interleaving of API threads with a limited number of calls, *)
(* the control loop and every answer of the robot hardware.  Properties: CM!Inv, the action properties below and  *)
(* completion of every call as long as the control loop keeps running.                                             *)
EXTENDS CM
CONSTANTS NThreads, Calls, Reset, Timeouts, OpsName
VARIABLE left                      \* calls each thread may still make
mcvars == <<vars, left>>
Threads == 1..NThreads
Meta == [ctl |-> [n \in {"a", "b", "c"} |-> [type |-> "P0", sig |-> n, res |-> IF n = "c" THEN {"r2"} ELSE {"r1"}]],
         loaders |-> <<[name |-> "L", types |-> {"P0"}, after |-> {"P0"}, nulls |-> {}]>>, throwing |-> {}, mayConflict |-> FALSE]
Sw(s, p, strict, asap, to) == [NoOp EXCEPT !.op = "switch", !.start = s, !.stop = p, !.strict = strict, !.asap = asap, !.to = to]
O1(k, n) == [NoOp EXCEPT !.op = k, !.name = n]
OpSets == [
  core  |-> {O1("load", "a"), O1("load", "b"), O1("unload", "a"), Sw(<<"a">>, <<>>, 2, FALSE, 0), Sw(<<"b">>, <<"a">>, 1, FALSE, 5)},
  asap  |-> {Sw(<<"a", "c">>, <<>>, 2, TRUE, 5), Sw(<<"c">>, <<"a">>, 1, TRUE, 0), Sw(<<>>, <<"a", "c">>, 1, FALSE, 5), O1("unload", "a")},
  names |-> {O1("load", "a"), O1("unload", "a"), O1("get", "a"), Sw(<<"a">>, <<>>, 1, FALSE, 0), [NoOp EXCEPT !.op = "reload", !.svc = TRUE, !.force = TRUE],
             [NoOp EXCEPT !.op = "list", !.svc = TRUE]}]
Ops == OpSets[OpsName]
\* asap starts with a and c loaded
Init0 == IF OpsName = "asap"
         THEN /\ meta = Meta /\ fresh = {} /\ list = <<1, 2>> /\ inst = <<[name |-> "a", st |-> "init", alive |-> TRUE], [name |-> "c", st |-> "init", alive |-> TRUE]>>
              /\ lock = 0 /\ slock = 0 /\ pc = [t \in Threads |-> Idle] /\ sw = NoSw /\ rt = NoRt
         ELSE InitWith(Meta, Threads)
MCInit == Init0 /\ left = [t \in Threads |-> Calls]

ApiStep(t) ==
  \/ Acquire(t) \/ Construct(t, "P0", "L") \/ Link(t) \/ Unlink(t) \/ Arm(t) \/ SwitchDone(t)
  \/ \E ok \in BOOLEAN : InitCtl(t, pc[t].id, pc[t].op.name, ok)
  \/ Destroy(t, pc[t].id)
  \/ CheckConflict(t, pc[t].will, ConflictIn(pc[t].will)) /\ pc[t].ph = "check"
  \/ \E ok \in BOOLEAN : Prepare(t, pc[t].start, pc[t].stop, ok)
  \/ pc[t].ph = "arm" /\ pc[t].t0 = -1 /\ ReadClock(t, 0, 0)
  \/ \E ld \in Loaders : ReloadLoader(t, ld)
  \/ \E r \in {"true", "false"} : Ret(t, r)
GiveUpStep(t) == pc[t].ph = "wait" /\ pc[t].op.to > 0 /\ Timeouts /\ GiveUp(t)
CycleStep ==
  \/ \E tm \in {0, 10}, reset \in {FALSE, Reset} : (tm = 10 => Timeouts) /\ CycleBegin(tm, 1, reset)
  \/ Snap
  \/ \E i \in Ids : ResetStop(i) \/ ResetStart(i) \/ Update(i, rt.t, 1) \/ SwitchStop(i) \/ SwitchStart(i) \/ SwitchAbort(i) \/ SwitchWait(i)
  \/ DoSwitch(sw.start, sw.stop)
  \/ Updated /\ StopsDone /\ sw.on /\ ~sw.asap /\ rt.sr = "" /\ \E r \in {"DONE", "ONGOING", "ERROR"} : AskResult(r)
  \/ Updated /\ StopsDone /\ sw.on /\ sw.asap /\ \E i \in sw.start : (\A x \in rt.src : x[1] # Sig(i)) /\ \E r \in {"DONE", "ONGOING", "ERROR"} : AskOne(Sig(i), r)
  \/ CycleEnd
MCNext ==
  \/ \E t \in Threads : left[t] > 0 /\ (\E o \in Ops : Call(t, o)) /\ left' = [left EXCEPT ![t] = @ - 1]
  \/ (\E t \in Threads : ApiStep(t) \/ GiveUpStep(t)) /\ UNCHANGED left
  \/ CycleStep /\ UNCHANGED left
MCSpec == MCInit /\ [][MCNext]_mcvars

\* fairness: the loop keeps cycling, threads keep running, and hardware that is asked for ever eventually says it is done
Live == /\ MCSpec
        /\ WF_mcvars(CycleStep /\ UNCHANGED left)
        /\ (\A t \in Threads : WF_mcvars(ApiStep(t) /\ UNCHANGED left))
        /\ (\A t \in Threads : SF_mcvars(Acquire(t) /\ UNCHANGED left))
        /\ SF_mcvars(Updated /\ StopsDone /\ sw.on /\ ~sw.asap /\ rt.sr = "" /\ AskResult("DONE") /\ UNCHANGED left)
        /\ (\A s \in {"a", "b", "c"} : SF_mcvars(Updated /\ StopsDone /\ sw.on /\ sw.asap /\ (\A x \in rt.src : x[1] # s) /\ AskOne(s, "DONE") /\ UNCHANGED left))
EveryCallEnds == \A t \in Threads : (pc[t].ph # "idle") ~> (pc[t].ph = "idle")

---------------------------------------------------------------------------
(* Action properties *)
Changed(i) == i \in DOMAIN inst' /\ inst'[i].st # inst[i].st
\* C01/C05: a controller's state changes only in a control cycle and only for a reason
HooksInCycle == [][\A i \in DOMAIN inst : (Changed(i) /\ inst[i].st # "con") => rt.on /\ Updated /\ sw.on /\ sw.ds]_mcvars
\* C06: a call that fails leaves list and states alone
FailureSilent == [][\A t \in Threads : (pc[t].ph \notin {"fin", "idle"} /\ pc'[t].ph = "fin" /\ pc'[t].res = {"false"})
                       => list' = list /\ \A i \in Ids : inst'[i] = inst[i]]_mcvars
\* C06: once a switch is no longer pending the hardware is never told to perform it
NoLateSwitch == [][sw'.ds /\ ~sw.ds => sw.on /\ pc[sw.by].ph = "wait"]_mcvars
\* C07: the list changes by appending one new name or removing one controller that is not running
ListSteps == [][list' # list => \/ \E i \in 1..Len(inst) : list' = Append(list, i) /\ ~Loaded(inst[i].name)
                                \/ \E i \in Ids : list' = SelectSeq(list, LAMBDA j : j # i) /\ ~Running(i)]_mcvars
\* C08: whatever dies is out of the list and out of the cycle's reach
SafeDeath == [][\A i \in DOMAIN inst : (inst[i].alive /\ ~inst'[i].alive) => i \notin ToSet(list') /\ ~InUse(i)]_mcvars
\* C02: a cycle that ends has updated exactly the controllers that were running, in order
FullCycle == [][(rt.on /\ ~rt'.on) => rt.upd = Len(rt.run)]_mcvars
\* C03: conflict check precedes acceptance
NoBadAccept == [][\A t \in Threads : pc[t].ph = "prepare" /\ pc'[t].ph = "arm" => ~ConflictIn(pc[t].will)]_mcvars
\* C05: success only when everything asked for was carried out
SuccessMeans == [][\A t \in Threads : (pc[t].ph = "wait" /\ pc'[t].ph = "fin" /\ pc'[t].res = {"true"} /\ sw.on /\ sw.by = t)
                      => sw.stopped = sw.stop /\ \A i \in sw.start : St(i) \in {"run", "abort"}]_mcvars
=============================================================================
