------------------------------- MODULE Planner -------------------------------
(***************************************************************************)
(* The dynamic planner: requests (set, append, move), the worker thread    *)
(* that drains them and starts computations, the computation thread, and   *)
(* any number of consumers that evaluate, query and, as a side effect,     *)
(* install a computed trajectory.  One action per critical section or      *)
(* atomic access of the implementation; the order of the actions of one    *)
(* thread is the order of its statements.                                  *)
(*                                                                         *)
(* What the numerical part decides (waypoint times, the time compensation) *)
(* enters as parameters of CDone and IFit; the exhaustive models (MC*.tla) *)
(* choose them from small sets, the trace specification (PlannerTrace.tla) *)
(* takes them from the recorded execution, or leaves them unknown (UNK)    *)
(* until the execution shows them.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Clients,      \* ids of the client threads
          UNK,          \* a number that is no time: "not observed yet"
          NOPOS,        \* position of the vehicle before it is reported
          Fuzz,         \* precision of the waypoint times; the first one is the base, exactly
          Defects       \* defects of the design switched on (see MC*.cfg); {} is the real design

SP == "stitching_point"

VARIABLES
  todo,      \* [set, add: Seq(Wp), mod: Seq([n,p]), gen: BOOLEAN]: requests not yet taken over
  plan,      \* [g, wps, mv]: the installed waypoints, their generation, number of local moves
  par,       \* [g, last, speed]: generation whose base and compensation are in force; clock
  traj,      \* generation of the installed trajectory, 0: none
  G,         \* generation -> what belongs to it (see NewGen)
  comp,      \* [st, g]: the computation: "no", "run", "done", "taken"
  computing, \* the flag that the planner reports
  regen,     \* the notice
  veh,       \* vehicle position
  wk,        \* the worker: [pc, ...]
  cl,        \* client -> [pc, ...]
  lk,        \* [todo, traj]: owner of the locks that span several actions ("" free)
  life,      \* "none", "up", "stop", "dead"
  gh         \* ghost: [want, taken (want when the requests were last taken over), nu, lastReal, speed, inst, back, gone (waypoints left behind), unread]

vars == <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, cl, lk, life, gh>>

(***************************************************************************)
(* Waypoints are [n, p, u]: name, position, and an identity given when the *)
(* waypoint is requested (ghost; 0 for the points the planner adds).       *)
(***************************************************************************)
Idle == [pc |-> "idle"]
NoTodo == [set |-> <<>>, add |-> <<>>, mod |-> <<>>, gen |-> FALSE]
NewGen(b, wps, sc, sp, st) ==
  [base |-> b,        \* time base: the clock at which it was started
   off  |-> UNK,      \* time compensation
   ts   |-> [i \in 1..Len(wps) |-> UNK],   \* time of each waypoint
   cons |-> {},       \* <<k, L>>: the first k times are <= L, the others > L
   sc   |-> sc,       \* from scratch, or stitched
   sp   |-> sp,       \* the speeds it may have been computed for
   st   |-> st,       \* whatever is known about its initial state
   wps  |-> wps]

PInit ==
  /\ todo = NoTodo
  /\ plan = [g |-> 0, wps |-> <<>>, mv |-> 0]
  /\ par = [g |-> 0, last |-> 0, speed |-> 0]
  /\ traj = 0
  /\ G = (0 :> [NewGen(0, <<>>, TRUE, {}, <<>>) EXCEPT !.off = 0])
  /\ comp = [st |-> "no", g |-> 0]
  /\ computing = FALSE
  /\ regen = FALSE
  /\ veh = NOPOS
  /\ wk = Idle
  /\ cl = [c \in Clients |-> Idle]
  /\ lk = [todo |-> "", traj |-> ""]
  /\ life = "none"
  /\ gh = [want |-> <<>>, taken |-> <<>>, nu |-> 1, lastReal |-> 0, speed |-> 0, inst |-> 0, back |-> FALSE, gone |-> {}, unread |-> FALSE]

(***************************************************************************)
(* Helpers                                                                 *)
(***************************************************************************)
Last(s) == s[Len(s)]
MaxOf(a, b) == IF a > b THEN a ELSE b
NewestG == CHOOSE g \in DOMAIN G : \A h \in DOMAIN G : h <= g
Moved(wps, n, p) == [i \in 1..Len(wps) |-> IF wps[i].n = n /\ n # "" THEN [wps[i] EXCEPT !.p = p] ELSE wps[i]]
RECURSIVE MovedAll(_, _)
MovedAll(wps, mods) ==
  IF mods = <<>> THEN wps ELSE MovedAll(Moved(wps, Head(mods).n, Head(mods).p), Tail(mods))
PutMod(mods, n, p) ==
  IF \E i \in 1..Len(mods) : mods[i].n = n
  THEN [i \in 1..Len(mods) |-> IF mods[i].n = n THEN [n |-> n, p |-> p] ELSE mods[i]]
  ELSE Append(mods, [n |-> n, p |-> p])
Tagged(wps, u) == [i \in 1..Len(wps) |-> [n |-> wps[i].n, p |-> wps[i].p, u |-> u + i - 1]]
OwnPoint(n, p) == [n |-> n, p |-> p, u |-> 0]

\* the numbers of waypoints of generation g that may have been passed at time L: exactly one
\* when the times are known
PassedSets(g, L) ==
  LET ts == G[g].ts
      n  == Len(ts)
      Passed == {i \in 1..n : ts[i] # UNK /\ (IF i = 1 THEN G[g].base <= L ELSE ts[i] + Fuzz <= L)}
      Ahead  == {i \in 1..n : ts[i] # UNK /\ (IF i = 1 THEN G[g].base > L ELSE ts[i] - Fuzz > L)}
  IN {1..k : k \in {m \in 0..n :
             /\ \A i \in Passed : i <= m
             /\ \A i \in Ahead : i > m
             /\ \A c \in G[g].cons : /\ c[2] <= L => m >= c[1]
                                     /\ L <= c[2] => m <= c[1]}}
\* what choosing the first k as passed at L says about unknown times
Note(g, k, L) == IF \E i \in 1..Len(G[g].ts) : G[g].ts[i] = UNK
                 THEN [G[g] EXCEPT !.cons = @ \cup {<<k, L>>}] ELSE G[g]
Keep(wps, S) == LET RECURSIVE F(_)
                    F(i) == IF i > Len(wps) THEN <<>>
                            ELSE IF i \in S THEN F(i + 1) ELSE <<wps[i]>> \o F(i + 1)
                IN F(1)

(***************************************************************************)
(* Client requests                                                         *)
(***************************************************************************)
TodoFree == lk.todo = ""
Up == life \in {"up", "stop"}

DoSet(c, wps) ==
  /\ TodoFree
  /\ todo' = [set |-> Tagged(wps, gh.nu), add |-> IF "keepAdds" \in Defects THEN todo.add ELSE <<>>,
              mod |-> <<>>, gen |-> TRUE]
  /\ gh' = [gh EXCEPT !.nu = @ + Len(wps), 
                      \* an empty set only withdraws what has not been taken over yet
                      !.want = IF wps = <<>> THEN gh.taken ELSE Tagged(wps, gh.nu)]
  /\ UNCHANGED <<plan, par, traj, G, comp, computing, regen, veh, wk, lk, life>>

DoApp(c, wp) ==
  /\ TodoFree
  /\ LET w == [n |-> wp.n, p |-> wp.p, u |-> gh.nu] IN
     /\ todo' = [todo EXCEPT !.add = Append(@, w), !.gen = TRUE]
     /\ gh' = [gh EXCEPT !.nu = @ + 1, !.want = Append(@, w)]
  /\ UNCHANGED <<plan, par, traj, G, comp, computing, regen, veh, wk, lk, life>>

\* one move; g: also ask for a regeneration
DoMod(c, n, p, g) ==
  /\ TodoFree
  /\ todo' = [todo EXCEPT !.mod = PutMod(@, n, p),
                          !.set = IF "planOnly" \in Defects THEN @ ELSE Moved(@, n, p),
                          !.add = IF "planOnly" \in Defects THEN @ ELSE Moved(@, n, p),
                          !.gen = IF "modCancels" \in Defects THEN g ELSE @ \/ g]
  /\ gh' = [gh EXCEPT !.want = Moved(@, n, p)]
  /\ UNCHANGED <<plan, par, traj, G, comp, computing, regen, veh, wk, lk, life>>

\* the end of a list of moves: asks for a regeneration, without the lock
DoModsEnd(c) ==
  /\ todo' = [todo EXCEPT !.gen = TRUE]
  /\ UNCHANGED <<plan, par, traj, G, comp, computing, regen, veh, wk, lk, life, gh>>

DoSpeed(c, v) ==
  /\ par' = [par EXCEPT !.speed = v]
  /\ gh' = [gh EXCEPT !.speed = v]
  /\ G' = IF comp.st = "run" THEN [G EXCEPT ![comp.g].sp = @ \cup {v}] ELSE G
  /\ UNCHANGED <<todo, plan, traj, comp, computing, regen, veh, wk, lk, life>>

DoVeh(c, p) ==
  /\ veh' = p
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, wk, lk, life, gh>>

(***************************************************************************)
(* The worker                                                              *)
(***************************************************************************)
\* decides that a generation can start; zone: whether the next named waypoint is closer than
\* the replanning horizon (of the clock read here)
WSnap(zone) ==
  /\ wk.pc = "idle" /\ Up
  /\ todo.gen /\ (~computing \/ "overlap" \in Defects) /\ ~zone
  /\ wk' = [pc |-> "start", base |-> par.last]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, cl, lk, life, gh>>

WStart ==
  /\ wk.pc = "start"
  /\ computing' = TRUE
  /\ wk' = [wk EXCEPT !.pc = "drain", !.base = IF "staleZone" \in Defects THEN par.last ELSE @]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, regen, veh, cl, lk, life, gh>>

\* takes the lock and withdraws the request flag
WDrain1 ==
  /\ wk.pc = "drain" /\ TodoFree
  /\ lk' = [lk EXCEPT !.todo = "w"]
  /\ todo' = [todo EXCEPT !.gen = IF "lateClear" \in Defects THEN @ ELSE FALSE]
  /\ wk' = [wk EXCEPT !.pc = "drain2"]
  /\ UNCHANGED <<plan, par, traj, G, comp, computing, regen, veh, cl, life, gh>>

\* takes the requests over; S: indices of the waypoints of the plan that have been passed
WDrain2(S) ==
  /\ wk.pc = "drain2"
  /\ LET old  == IF todo.set # <<>> THEN todo.set ELSE IF "keepPassed" \in Defects THEN plan.wps ELSE Keep(plan.wps, S)
         nxt  == IF "modsLast" \in Defects \/ "planOnly" \in Defects THEN MovedAll(old \o todo.add, todo.mod)
                ELSE MovedAll(old, todo.mod) \o todo.add
         gone == IF todo.set # <<>> THEN {} ELSE {plan.wps[i].u : i \in S}
         back == \E i \in (IF "keepPassed" \in Defects THEN 1..Len(plan.wps) ELSE (1..Len(plan.wps)) \ S) :
                   todo.set = <<>> /\ G[plan.g].ts[i] # UNK /\ G[plan.g].ts[i] + Fuzz <= par.last
         now  == SelectSeq(gh.want, LAMBDA w : w.u \notin gone) IN
     /\ G' = IF todo.set # <<>> THEN G ELSE [G EXCEPT ![plan.g] = Note(plan.g, Cardinality(S), par.last)]
     /\ gh' = [gh EXCEPT !.want = now, !.taken = now, !.back = @ \/ back, !.gone = @ \cup gone]
     /\ wk' = [wk EXCEPT !.pc = IF nxt = <<>> THEN "empty" ELSE "build"] @@ [nxt |-> nxt]
  /\ todo' = [NoTodo EXCEPT !.gen = todo.gen]
  /\ lk' = [lk EXCEPT !.todo = ""]
  /\ UNCHANGED <<plan, par, traj, comp, computing, regen, veh, cl, life>>

WEmpty ==
  /\ wk.pc = "empty"
  /\ computing' = FALSE
  /\ todo' = IF "lateClear" \in Defects THEN [todo EXCEPT !.gen = FALSE] ELSE todo
  /\ wk' = Idle
  /\ UNCHANGED <<plan, par, traj, G, comp, regen, veh, cl, lk, life, gh>>

\* builds the list of points and starts the computation.
\* b: the time base; stitch: continue the trajectory in use; D: indices of unnamed waypoints of
\* nxt that lie before the replanning horizon and are left out; st: what is known of the start;
\* p1, p2: positions of the stitching points
WBuild(b, stitch, D, st, p1, p2) ==
  /\ wk.pc = "build"
  /\ LET g == NewestG + 1
         wps == IF stitch THEN <<OwnPoint(SP, p1), OwnPoint(SP, p2)>> \o Keep(wk.nxt, D)
                ELSE <<OwnPoint("", veh)>> \o wk.nxt IN
     /\ stitch => traj # 0
     /\ ~stitch => D = {}
     /\ \A i \in D : wk.nxt[i].n = "" \/ wk.nxt[i].n = SP
     /\ G' = G @@ (g :> NewGen(b, wps, ~stitch, {par.speed}, st))
     /\ comp' = [st |-> "run", g |-> g]
     /\ LET Left(ws) == SelectSeq(ws, LAMBDA w : ~\E i \in D : wk.nxt[i].u = w.u) IN
        gh' = [gh EXCEPT !.want = Left(@), !.taken = Left(@)]
  /\ todo' = IF "lateClear" \in Defects THEN [todo EXCEPT !.gen = FALSE] ELSE todo
  /\ wk' = Idle
  /\ UNCHANGED <<plan, par, traj, computing, regen, veh, cl, lk, life>>

\* local moves, one after the other, while the lock is held
WModBegin ==
  /\ wk.pc = "idle" /\ Up
  /\ todo.mod # <<>> /\ ~computing /\ TodoFree
  /\ lk' = [lk EXCEPT !.todo = "w"]
  /\ wk' = [pc |-> "mod", i |-> 1]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, cl, life, gh>>

WModOne ==
  /\ wk.pc = "mod" /\ wk.i <= Len(todo.mod)
  /\ LET m == todo.mod[wk.i]
         hit == m.n # "" /\ \E i \in 1..Len(plan.wps) : plan.wps[i].n = m.n IN
     /\ plan' = [plan EXCEPT !.wps = Moved(@, m.n, m.p), !.mv = IF hit THEN @ + 1 ELSE @]
     /\ regen' = (regen \/ hit)
     /\ gh' = [gh EXCEPT !.unread = @ \/ hit]
  /\ wk' = [wk EXCEPT !.i = @ + 1]
  /\ UNCHANGED <<todo, par, traj, G, comp, computing, veh, cl, lk, life>>

WModEnd ==
  /\ wk.pc = "mod" /\ wk.i > Len(todo.mod)
  /\ todo' = [todo EXCEPT !.mod = <<>>]
  /\ gh' = [gh EXCEPT !.taken = MovedAll(@, todo.mod)]
  /\ lk' = [lk EXCEPT !.todo = ""]
  /\ wk' = Idle
  /\ UNCHANGED <<plan, par, traj, G, comp, computing, regen, veh, cl, life>>

WStop ==
  /\ wk.pc = "idle" /\ life = "stop"
  /\ wk' = [pc |-> "stopped"]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, cl, lk, life, gh>>

(***************************************************************************)
(* The computation                                                         *)
(***************************************************************************)
CDone(ts) ==
  /\ comp.st = "run"
  /\ comp' = [comp EXCEPT !.st = "done"]
  /\ G' = [G EXCEPT ![comp.g].ts = ts]
  /\ UNCHANGED <<todo, plan, par, traj, computing, regen, veh, wk, cl, lk, life, gh>>

(***************************************************************************)
(* Consumers.  cl[c] = [pc, op, t, plot, ...]; an operation that may wait  *)
(* for or install a trajectory goes through: call, (lock) in, (install)    *)
(* i1..i5, rdy, and then its own steps.                                    *)
(***************************************************************************)
TrajFree == lk.traj = ""
Consumer(c) == "c" \o ToString(c)

KLock(c) ==
  /\ cl[c].pc = "call"
  /\ IF "unserialised" \in Defects THEN lk' = lk
     ELSE TrajFree /\ lk' = [lk EXCEPT !.traj = Consumer(c)]
  /\ cl' = [cl EXCEPT ![c].pc = "in"]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, life, gh>>

\* nothing to install; always: this operation also installs when a trajectory exists
KSkip(c, always) ==
  /\ cl[c].pc = "in"
  /\ traj # 0
  /\ always => ~(computing /\ comp.st = "done")
  /\ cl' = [cl EXCEPT ![c].pc = "rdy"]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, lk, life, gh>>

\* takes the result and aligns it with the present (ready: {"done"}; PlannerTrace lets the
\* end of the computation and this step coincide)
IFit(c, always, off, ready) ==
  /\ cl[c].pc = "in"
  /\ traj = 0 \/ always
  /\ computing /\ comp.st \in ready
  /\ comp' = [comp EXCEPT !.st = "taken"]
  /\ G' = [G EXCEPT ![comp.g].off = off]
  /\ cl' = [cl EXCEPT ![c].pc = "i1"]
  /\ UNCHANGED <<todo, plan, par, traj, computing, regen, veh, wk, lk, life, gh>>

IPar(c) ==
  /\ cl[c].pc = "i1"
  /\ par' = [par EXCEPT !.g = comp.g, !.last = IF "clockBack" \in Defects THEN G[comp.g].base ELSE @,
                        !.speed = IF "speedBack" \in Defects THEN CHOOSE v \in G[comp.g].sp : \A w \in G[comp.g].sp : v <= w ELSE @]
  /\ computing' = IF "doneFirst" \in Defects THEN FALSE ELSE computing
  /\ cl' = [cl EXCEPT ![c].pc = "i2"]
  /\ UNCHANGED <<todo, plan, traj, G, comp, regen, veh, wk, lk, life, gh>>

ITraj(c) ==
  /\ cl[c].pc = "i2"
  /\ traj' = comp.g
  /\ gh' = [gh EXCEPT !.inst = @ + 1]
  /\ cl' = [cl EXCEPT ![c].pc = "i3"]
  /\ UNCHANGED <<todo, plan, par, G, comp, computing, regen, veh, wk, lk, life>>

INote(c) ==
  /\ cl[c].pc = "i3"
  /\ regen' = TRUE
  /\ gh' = [gh EXCEPT !.unread = TRUE]
  /\ cl' = [cl EXCEPT ![c].pc = "i4"]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, veh, wk, lk, life>>

IPlan(c) ==
  /\ cl[c].pc = "i4"
  /\ plan' = [g |-> comp.g, wps |-> G[comp.g].wps, mv |-> 0]
  /\ cl' = [cl EXCEPT ![c].pc = "i5"]
  /\ UNCHANGED <<todo, par, traj, G, comp, computing, regen, veh, wk, lk, life, gh>>

IDone(c) ==
  /\ cl[c].pc = "i5"
  /\ computing' = FALSE
  /\ todo' = IF "lateClear" \in Defects THEN [todo EXCEPT !.gen = FALSE] ELSE todo
  /\ comp' = [comp EXCEPT !.st = "no"]
  /\ cl' = [cl EXCEPT ![c].pc = "rdy"]
  /\ UNCHANGED <<plan, par, traj, G, regen, veh, wk, lk, life, gh>>

\* evaluation: moves the clock, unless it is for plotting, then reads the references
ESet(c) ==
  /\ cl[c].pc = "rdy" /\ cl[c].op = "eval"
  /\ par' = IF cl[c].plot /\ "plotMoves" \notin Defects THEN par ELSE [par EXCEPT !.last = cl[c].t]
  /\ gh' = IF cl[c].plot THEN gh ELSE [gh EXCEPT !.lastReal = cl[c].t]
  /\ cl' = [cl EXCEPT ![c] = [@ EXCEPT !.pc = "val"] @@ [mv0 |-> plan.mv]]
  /\ UNCHANGED <<todo, plan, traj, G, comp, computing, regen, veh, wk, lk, life>>
EVal(c) ==
  /\ cl[c].pc = "val"
  /\ lk' = [lk EXCEPT !.traj = ""]
  /\ cl' = [cl EXCEPT ![c] = [@ EXCEPT !.pc = "ret"] @@ [g |-> par.g, tg |-> traj, pg |-> plan.g, mv |-> plan.mv]]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, life, gh>>

\* the plan, the borders
Read(c, ops) ==
  /\ cl[c].pc = "rdy" /\ cl[c].op \in ops
  /\ lk' = [lk EXCEPT !.traj = ""]
  /\ cl' = [cl EXCEPT ![c] = [@ EXCEPT !.pc = "ret"] @@ [g |-> par.g, tg |-> traj, pg |-> plan.g, wps |-> plan.wps]]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, life, gh>>

\* the waypoints ahead: the clock, then the plan; no lock in between, never waits
NClock(c) ==
  /\ cl[c].pc = "call" /\ cl[c].op \in {"next", "rem"}
  /\ cl' = [cl EXCEPT ![c] = [@ EXCEPT !.pc = "n1"] @@ [last |-> par.last]]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, lk, life, gh>>
NPlan(c) ==
  /\ cl[c].pc = "n1"
  /\ cl' = [cl EXCEPT ![c] = [@ EXCEPT !.pc = "ret"] @@ [pg |-> plan.g, wps |-> plan.wps]]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, lk, life, gh>>

\* the notice is read and cleared in one step
NRead(c) ==
  /\ cl[c].pc = "call" /\ cl[c].op = "regen"
  /\ cl' = [cl EXCEPT ![c] = [@ EXCEPT !.pc = IF "splitNotice" \in Defects THEN "nclear" ELSE "ret"] @@ [v |-> regen]]
  /\ regen' = IF "splitNotice" \in Defects THEN regen ELSE FALSE
  /\ gh' = [gh EXCEPT !.unread = FALSE]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, veh, wk, lk, life>>
NClear(c) ==
  /\ cl[c].pc = "nclear"
  /\ cl' = [cl EXCEPT ![c].pc = "ret"]
  /\ regen' = FALSE
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, veh, wk, lk, life, gh>>

\* the compensation, the speed
QRead(c) ==
  /\ cl[c].pc = "call" /\ cl[c].op \in {"off", "getspeed"}
  /\ cl' = [cl EXCEPT ![c] = [@ EXCEPT !.pc = "ret"] @@ [g |-> par.g, v |-> par.speed]]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, lk, life, gh>>

(***************************************************************************)
(* Life                                                                    *)
(***************************************************************************)
\* the end of the planner: stop the worker, wait for it, wait for the computation
DStop(c) ==
  /\ cl[c].pc = "call" /\ cl[c].op = "del" /\ life = "up"
  /\ life' = "stop"
  /\ cl' = [cl EXCEPT ![c].pc = "d1"]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, lk, gh>>
DDead(c) ==
  /\ cl[c].pc = "d1"
  /\ wk.pc = "stopped"
  /\ comp.st # "run" \/ "noWait" \in Defects
  /\ life' = "dead"
  /\ cl' = [cl EXCEPT ![c].pc = "ret"]
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, lk, gh>>

(***************************************************************************)
(* What has to hold                                                        *)
(***************************************************************************)
PassedU == {plan.wps[i].u : i \in {j \in 1..Len(plan.wps) : G[plan.g].ts[j] # UNK /\ G[plan.g].ts[j] <= par.last}} \cup gh.gone
UserPart(wps) == SelectSeq(wps, LAMBDA w : w.u # 0)
AheadPart(wps) == SelectSeq(wps, LAMBDA w : w.u \notin PassedU)

NothingWaiting == ~todo.gen /\ ~computing /\ todo.mod = <<>> /\ wk.pc = "idle"

\* C01, C02, C03: when nothing is waiting the plan is what was asked for
PlanIsWhatWasAskedFor ==
  (NothingWaiting /\ life = "up" /\ \A c \in Clients : cl[c].pc # "mods")
     => AheadPart(UserPart(plan.wps)) = AheadPart(gh.want)

\* C06, C01: as long as a plan request is not in the plan, the planner says so
PendingIsReported ==
  (todo.set # <<>> \/ todo.add # <<>> \/ comp.st # "no" \/ wk.pc \in {"drain", "drain2", "build"})
     => (todo.gen \/ computing)

\* C02: no duplicates, nothing invented, order of the requests
NoDuplicates == \A i, j \in 1..Len(plan.wps) :
                  (plan.wps[i].u # 0 /\ plan.wps[i].u = plan.wps[j].u) => i = j
InOrder == \A i, j \in 1..Len(plan.wps) :
             (i < j /\ plan.wps[i].u # 0 /\ plan.wps[j].u # 0) => plan.wps[i].u < plan.wps[j].u
OwnPointsInFront == \A i, j \in 1..Len(plan.wps) : (i < j /\ plan.wps[j].u = 0) => plan.wps[i].u = 0

\* C05: outside an installation everything belongs to one generation
OneGeneration ==
  (\A c \in Clients : cl[c].pc \notin {"i1", "i2", "i3", "i4", "i5"})
     => (plan.g = traj /\ par.g = traj)

\* C12: the clock is that of the last real evaluation
ClockIsLastReal == par.last = gh.lastReal

\* C15
SpeedIsLastSet == par.speed = gh.speed

\* C17: generations are installed once each and in order
InstalledOnce == gh.inst = Cardinality({g \in DOMAIN G : g # 0 /\ g <= traj}) /\ (traj # 0 => gh.inst = traj)
OneComputation == /\ (comp.st # "no" \/ wk.pc \in {"build"}) => computing
                  /\ wk.pc \in {"drain", "drain2", "build"} => comp.st = "no"

\* C06: a notice that was raised stays until it is read
NoticeIsKept == gh.unread => (regen \/ \E c \in Clients : cl[c].pc = "nclear" /\ cl[c].v)

\* C14
DeadIsQuiet == life = "dead" => (wk.pc = "stopped" /\ comp.st # "run")

\* C04: nothing that was passed when the next plan was built comes back
PassedStayOut == ~gh.back

Safety ==
  /\ PlanIsWhatWasAskedFor /\ PendingIsReported /\ NoDuplicates /\ InOrder /\ OwnPointsInFront
  /\ OneGeneration /\ ClockIsLastReal /\ SpeedIsLastSet /\ InstalledOnce /\ OneComputation
  /\ DeadIsQuiet /\ PassedStayOut /\ NoticeIsKept
==============================================================================
