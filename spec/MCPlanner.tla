------------------------------ MODULE MCPlanner ------------------------------
(* Exhaustive model of Planner: every interleaving of few requests, a worker, a computation and
   one or two consumers, with small times. *)
EXTENDS Planner

CONSTANTS MaxOps,      \* requests and consumer operations in total
          MaxT,        \* evaluation times 0..MaxT
          Dt,          \* time between two waypoints
          Zone,        \* replanning horizon
          Ops          \* kinds of operations in this configuration

MUnk == -999999
VARIABLE nops
mvars == <<vars, nops>>

Wp(n, p) == [n |-> n, p |-> p]
Lists == {<<Wp("a", 1), Wp("b", 2)>>, <<Wp("c", 3)>>}
Singles == {Wp("d", 4)}
Moves == {Wp("a", 7), Wp("d", 8)}

MCInit == PInit /\ nops = 0

Times(g) == [i \in 1..Len(G[g].wps) |-> G[g].base + (i - 1) * Dt]

FirstNamedAhead ==
  LET A == {i \in 1..Len(plan.wps) : plan.wps[i].n # "" /\ G[plan.g].ts[i] > par.last} IN
  IF A = {} THEN 0 ELSE CHOOSE i \in A : \A j \in A : i <= j
InZone == traj # 0 /\ FirstNamedAhead # 0
          /\ G[plan.g].ts[FirstNamedAhead] - (par.last + G[par.g].off) <= Zone

CanStitch == traj # 0 /\ Last(G[traj].ts) - par.last >= 1

Counted == /\ nops < MaxOps /\ nops' = nops + 1 /\ life = "up"
           /\ \A d \in Clients : cl[d].pc = "call" => cl[d].op # "del"   \* nobody uses what is being destroyed
Free == UNCHANGED nops
IdleC(c) == cl[c].pc = "idle"
Has(o) == o \in Ops

New(c) == /\ life = "none" /\ IdleC(c) /\ Free
          /\ life' = "up"
          /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, cl, lk, gh>>

Keeps == UNCHANGED cl
Requests(c) ==
  /\ IdleC(c) /\ Counted
  /\ \/ Has("set") /\ \E l \in Lists : DoSet(c, l) /\ Keeps
     \/ Has("set0") /\ DoSet(c, <<>>) /\ Keeps
     \/ Has("app") /\ \E w \in Singles : DoApp(c, w) /\ Keeps
     \/ Has("mod") /\ \E m \in Moves : DoMod(c, m.n, m.p, FALSE) /\ Keeps
     \/ Has("modg") /\ \E m \in Moves : DoMod(c, m.n, m.p, TRUE) /\ Keeps
     \/ Has("mods") /\ \E m \in Moves : DoMod(c, m.n, m.p, FALSE) /\ cl' = [cl EXCEPT ![c] = [pc |-> "mods"]]
     \/ Has("speed") /\ DoSpeed(c, par.speed + 1) /\ Keeps
     \/ Has("veh") /\ DoVeh(c, nops) /\ Keeps
ModsEnd(c) == cl[c].pc = "mods" /\ DoModsEnd(c) /\ cl' = [cl EXCEPT ![c] = Idle] /\ Free

Call(c) ==
  /\ IdleC(c) /\ Counted
  /\ \/ \E t \in {par.last + 1, par.last + 2} : Has("eval") /\ t <= MaxT /\ cl' = [cl EXCEPT ![c] = [pc |-> "call", op |-> "eval", t |-> t, plot |-> FALSE]]
     \/ Has("plot") /\ cl' = [cl EXCEPT ![c] = [pc |-> "call", op |-> "eval", t |-> 0, plot |-> TRUE]]
     \/ Has("plan") /\ cl' = [cl EXCEPT ![c] = [pc |-> "call", op |-> "plan"]]
     \/ Has("min") /\ cl' = [cl EXCEPT ![c] = [pc |-> "call", op |-> "min"]]
     \/ Has("regen") /\ cl' = [cl EXCEPT ![c] = [pc |-> "call", op |-> "regen"]]
     \/ Has("next") /\ cl' = [cl EXCEPT ![c] = [pc |-> "call", op |-> "next"]]
     \/ Has("del") /\ (\A d \in Clients \ {c} : IdleC(d)) /\ cl' = [cl EXCEPT ![c] = [pc |-> "call", op |-> "del"]]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, lk, life, gh>>

Installs(c) == cl[c].op \in {"eval", "plan"}
CStep(c) ==
  /\ Free
  /\ \/ cl[c].pc = "call" /\ cl[c].op \in {"eval", "plan", "min"} /\ KLock(c)
     \/ KSkip(c, Installs(c))
     \/ \E off \in {0} : IFit(c, Installs(c), off, {"done"})
     \/ IPar(c) \/ ITraj(c) \/ INote(c) \/ IPlan(c) \/ IDone(c)
     \/ ESet(c) \/ EVal(c) \/ Read(c, {"plan", "min"})
     \/ NClock(c) \/ NPlan(c)
     \/ NRead(c) \/ NClear(c)
     \/ DStop(c) \/ DDead(c)
\* what a consumer saw, at its return
Seen(c) == cl[c].pc = "ret" /\ cl[c].op \notin {"next", "del", "regen"}
SeenOneGeneration == \A c \in Clients : Seen(c) => (cl[c].g = cl[c].tg /\ cl[c].pg = cl[c].g)
Ret(c) == /\ cl[c].pc = "ret" /\ Free
          /\ cl' = [cl EXCEPT ![c] = Idle]
          /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, lk, life, gh>>

BuildD == {i \in 1..Len(wk.nxt) : wk.nxt[i].n = SP /\ wk.nxt[i].u = 0 /\ wk.nxt[i].p < 0}
Worker ==
  /\ Free
  /\ \/ WSnap(InZone) \/ WStart \/ WDrain1
     \/ \E S \in PassedSets(plan.g, par.last) : WDrain2(S)
     \/ WEmpty
     \/ wk.pc = "build" /\ WBuild(wk.base, CanStitch, {}, <<>>, 90, 91)
     \/ WModBegin \/ WModOne \/ WModEnd \/ WStop
  /\ UNCHANGED cl
WorkerX == Worker
Compute == CDone(Times(comp.g)) /\ Free

MCNext ==
  \/ \E c \in Clients : New(c) \/ Requests(c) \/ ModsEnd(c) \/ Call(c) \/ CStep(c) \/ Ret(c)
  \/ WorkerX \/ Compute

MCSpec == MCInit /\ [][MCNext]_mvars
Fair == /\ WF_mvars(Worker) /\ WF_mvars(Compute)
        /\ \A c \in Clients : WF_mvars(CStep(c)) /\ WF_mvars(Ret(c)) /\ WF_mvars(ModsEnd(c))
LiveSpec == MCSpec /\ Fair

\* C13: every operation returns, unless there is no trajectory and nothing that leads to one
Returns == \A c \in Clients :
   (cl[c].pc # "idle" /\ (traj # 0 \/ todo.set # <<>> \/ todo.add # <<>> \/ comp.st # "no")) ~> (cl[c].pc = "idle")
\* C14: destruction ends
Ends == (life = "stop") ~> (life = "dead")
\* C01: the worker takes every request over, unless the clock stands still in the zone of a waypoint
TakenOver == (todo.gen /\ life = "up") ~> (~todo.gen \/ InZone \/ life # "up" \/ computing)
\* C04: a named waypoint is never closer to the start of the new trajectory than the horizon
NoSqueeze ==
  (wk.pc = "build" /\ traj # 0) =>
    \A i \in 1..Len(plan.wps) :
       (/\ plan.wps[i].n \notin {"", SP} /\ (\E j \in 1..Len(wk.nxt) : wk.nxt[j].u = plan.wps[i].u)
        /\ G[plan.g].ts[i] > wk.base) => G[plan.g].ts[i] - wk.base > Zone
MCSafety == NoSqueeze /\ Safety /\ SeenOneGeneration
==============================================================================
