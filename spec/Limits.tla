------------------------------- MODULE Limits -------------------------------
(* Enforcing joint limits (properties C18, C19).  All quantities are integers counting 1/S of a unit so that every  *)
(* value the specification computes is exact; periods are quarters of a second.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Depth, Lean, Wide
S == 65536
None == 1000000000                                       \* "no value" (a limit that does not exist, no previous command, a command that is no number)
Big == 2000 * S                                          \* stands for an unreachably large command
VARIABLES kind, lim, soft, prev, st, hist, out
vars == <<kind, lim, soft, prev, st, hist, out>>
U(n) == IF n = None THEN None ELSE n * S
\* menus of limits; pos = <<min, max>>
Lims == [pos : {<<None, None>>, <<-4, 4>>, <<1, 6>>, <<2, 2>>}, vel : {None, 2, 8}, acc : {None, 4}, eff : {None, 5}]
Softs == [lo : {-3, 2}, hi : {3, 5}, kp : {1, 4}, kv : {1, 2}] \cup {[lo |-> -6, hi |-> 7, kp |-> 2, kv |-> 1], [lo |-> -3, hi |-> 3, kp |-> 0, kv |-> 1], [lo |-> -3, hi |-> 5, kp |-> 1, kv |-> 0], [lo |-> 1, hi |-> 1, kp |-> 4, kv |-> 2]}
NoSoft == [lo |-> 0, hi |-> 0, kp |-> 0, kv |-> 0]
IsSoft(k) == k \in {"PosSoft", "VelSoft", "EffSoft"}
HasPos == lim.pos[1] # None
HasVel == lim.vel # None
HasAcc == lim.acc # None
HasEff == lim.eff # None
\* limits a handle cannot do without
Rejected(k, l) == CASE k = "PosSat" -> FALSE [] k = "VelSoft" -> FALSE [] k \in {"VelSat", "PosSoft"} -> l.vel = None [] OTHER -> l.vel = None \/ l.eff = None
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == Min(Max(x, lo), hi)
MinPos == IF HasPos THEN lim.pos[1] * S ELSE -Big
MaxPos == IF HasPos THEN lim.pos[2] * S ELSE Big
MaxVel == IF HasVel THEN lim.vel * S ELSE Big
\* velocity allowed by the proportional law of the distance to the soft limits
SoftMinVel(p) == IF HasPos THEN Clamp(-soft.kp * (p - soft.lo * S), -MaxVel, MaxVel) ELSE -MaxVel
SoftMaxVel(p) == IF HasPos THEN Clamp(-soft.kp * (p - soft.hi * S), -MaxVel, MaxVel) ELSE MaxVel
\* reference of position handles: the command enforced last, or the joint's position if there is none
Ref(e) == IF prev = None THEN e.pos * S ELSE prev
\* every constraint on the enforced value as an interval; e is the step's input
Intervals(e) ==
  CASE kind = "PosSat" -> {<<MinPos, MaxPos>>} \cup (IF HasVel THEN {<<Ref(e) - (MaxVel * e.n) \div 4, Ref(e) + (MaxVel * e.n) \div 4>>} ELSE {})
    [] kind = "VelSat" -> {<<-MaxVel, MaxVel>>} \cup (IF HasAcc THEN {<<(IF prev = None THEN 0 ELSE prev) - (lim.acc * S * e.n) \div 4, (IF prev = None THEN 0 ELSE prev) + (lim.acc * S * e.n) \div 4>>} ELSE {})
    [] kind = "EffSat" -> {<<IF (HasPos /\ e.pos < lim.pos[1]) \/ e.vel < -lim.vel THEN 0 ELSE -lim.eff * S,
                             IF (HasPos /\ e.pos > lim.pos[2]) \/ e.vel > lim.vel THEN 0 ELSE lim.eff * S>>}
    [] kind = "PosSoft" -> {<<MinPos, MaxPos>>, <<Ref(e) + (SoftMinVel(Ref(e)) * e.n) \div 4, Ref(e) + (SoftMaxVel(Ref(e)) * e.n) \div 4>>}
    [] kind = "VelSoft" -> {<<SoftMinVel(e.pos * S), SoftMaxVel(e.pos * S)>>} \cup (IF HasAcc THEN {<<e.vel * S - (lim.acc * S * e.n) \div 4, e.vel * S + (lim.acc * S * e.n) \div 4>>} ELSE {})
    [] kind = "EffSoft" -> {<<Clamp(-soft.kv * (e.vel * S - SoftMinVel(e.pos * S)), -lim.eff * S, lim.eff * S), Clamp(-soft.kv * (e.vel * S - SoftMaxVel(e.pos * S)), -lim.eff * S, lim.eff * S)>>}
MaxOf(T) == CHOOSE x \in T : \A y \in T : x >= y
MinOf(T) == CHOOSE x \in T : \A y \in T : x <= y
Lo(e) == MaxOf({i[1] : i \in Intervals(e)})
Hi(e) == MinOf({i[2] : i \in Intervals(e)})
Feasible(e) == Lo(e) <= Hi(e)
Inputs == IF Lean THEN [cmd : {-2000, -3, 1, 2000}, n : {1, 4}, pos : {-5, 0, 3, 7}, vel : {-9, 1}]
          ELSE [cmd : {-2000, -5, -1, 0, 1, 3, 2000}, n : {1, 2, 4}, pos : {-7, -4, 0, 2, 4, 7}, vel : {-9, -2, 0, 2, 3, 9}]
MaxVelIn == IF Lean THEN 1 ELSE 9
\* unless Wide, what a kind does not look at stays fixed
RelLim(k, l) == Wide \/ CASE k \in {"PosSat", "PosSoft"} -> l.acc = 4 /\ l.eff = 5 [] k = "VelSat" -> l.eff = 5 /\ l.pos = <<1, 6>> [] k = "VelSoft" -> l.eff = 5 [] OTHER -> l.acc = 4
RelIn(k, e) == Wide \/ CASE k \in {"PosSat", "PosSoft"} -> e.vel = MaxVelIn [] k = "VelSat" -> e.pos = 7 /\ e.vel = MaxVelIn [] k = "VelSoft" -> TRUE [] OTHER -> e.n = 1
Init == /\ kind \in Kinds /\ lim \in {l \in Lims : RelLim(kind, l)} /\ soft \in (IF IsSoft(kind) /\ ~Rejected(kind, lim) THEN Softs ELSE {NoSoft}) /\ prev = None /\ hist = <<>> /\ out = None
        /\ st = IF Rejected(kind, lim) THEN "rejected" ELSE "ok"
Remembers == kind \in {"PosSat", "VelSat", "PosSoft"}
Enforce(e) == /\ st = "ok" /\ Len(hist) < Depth
              /\ LET r == Clamp(e.cmd * S, Lo(e), Hi(e)) IN
                 IF Feasible(e)
                 THEN /\ out' = r /\ prev' = (IF Remembers THEN r ELSE None) /\ st' = st
                      /\ hist' = Append(hist, [op |-> "enforce", e |-> e, lo |-> r, hi |-> r, same |-> r = e.cmd * S])
                 ELSE \* nothing satisfies everything: anything between the conflicting bounds will do, and the history ends here unless the handle is reset
                      /\ out' = None /\ prev' = None /\ st' = "infeasible"
                      /\ hist' = Append(hist, [op |-> "enforce", e |-> e, lo |-> Hi(e), hi |-> Lo(e), same |-> FALSE])
              /\ UNCHANGED <<kind, lim, soft>>
\* a command that is not a number: whatever becomes of it, the limits hold for the next one (the rate then relates to the last proper command)
NotANumber(e) == /\ st = "ok" /\ Len(hist) < Depth /\ kind = "VelSat" /\ out' = None /\ UNCHANGED <<kind, lim, soft, prev, st>>
                 /\ hist' = Append(hist, [op |-> "nan", e |-> e, lo |-> 0, hi |-> 0, same |-> FALSE])
Resettable == kind \in {"PosSat", "PosSoft"}
\* (a handle that is reset after nothing satisfied everything starts afresh, too)
Reset == /\ Len(hist) < Depth /\ Resettable /\ ((st = "ok" /\ prev # None) \/ st = "infeasible")
         /\ prev' = None /\ out' = None /\ st' = "ok" /\ UNCHANGED <<kind, lim, soft>>
         /\ hist' = Append(hist, [op |-> "reset", e |-> [cmd |-> 0, n |-> 1, pos |-> 0, vel |-> 0], lo |-> 0, hi |-> 0, same |-> FALSE])
Next == (\E e \in Inputs : RelIn(kind, e) /\ Enforce(e)) \/ Reset \/ (\E e \in {x \in Inputs : x.cmd = 1 /\ RelIn(kind, x)} : NotANumber(e))
Spec == Init /\ [][Next]_vars
\* ---- properties of the specified behaviour
Cur == hist'[Len(hist')]
Enforced == Len(hist') > Len(hist) /\ Cur.op = "enforce" /\ st' = "ok"
WithinHard == [][Enforced => CASE kind \in {"PosSat", "PosSoft"} -> MinPos <= out' /\ out' <= MaxPos
                               [] kind \in {"VelSat", "VelSoft"} -> -MaxVel <= out' /\ out' <= MaxVel
                               [] OTHER -> -lim.eff * S <= out' /\ out' <= lim.eff * S]_vars
Nearest == [][Enforced => LET c == Cur.e.cmd * S IN (Lo(Cur.e) <= c /\ c <= Hi(Cur.e) => out' = c) /\ (\A x \in {Lo(Cur.e), Hi(Cur.e)} : Max(c - out', out' - c) <= Max(c - x, x - c))]_vars
RateOfPosition == [][(Enforced /\ kind \in {"PosSat", "PosSoft"} /\ HasVel) => Max(out' - Ref(Cur.e), Ref(Cur.e) - out') * 4 <= MaxVel * Cur.e.n]_vars
\* beyond a soft limit the joint is only ever allowed to move back
OnlyBack == [][(Enforced /\ IsSoft(kind) /\ HasPos /\ soft.kp > 0) =>
     LET p == IF kind = "PosSoft" THEN Ref(Cur.e) ELSE Cur.e.pos * S
         v == IF kind = "PosSoft" THEN out' - p ELSE out'
     IN kind # "EffSoft" => (p > soft.hi * S => v <= 0) /\ (p < soft.lo * S => v >= 0)]_vars
MemorylessUnlessPosition == ~Remembers => prev = None
Emit == (st # "ok" \/ Len(hist) = Depth) => PrintT(<<"CASE", ToJson([kind |-> kind, lim |-> <<lim.pos[1], lim.pos[2], lim.vel, lim.acc, lim.eff>>, soft |-> <<soft.lo, soft.hi, soft.kp, soft.kv>>, st |-> st,
                     ops |-> [i \in 1..Len(hist) |-> <<hist[i].op, hist[i].e.cmd, hist[i].e.n, hist[i].e.pos, hist[i].e.vel, hist[i].lo, hist[i].hi, hist[i].same>>]])>>)
=============================================================================
