----------------------------- MODULE PlannerTrace -----------------------------
(***************************************************************************)
(* Is a recorded execution of the real planner a behaviour of Planner, and *)
(* are the numbers it shows those that the state of Planner calls for?     *)
(*                                                                         *)
(* A trace is a sequence of runs; each run starts a new planner.  Calls    *)
(* and returns of the public operations are recorded; the steps in between *)
(* and all steps of the worker and of the computation are silent: TLC      *)
(* searches for a placement of them that explains every recorded value.    *)
(* Times are microseconds, lengths and their derivatives 10 micrometres.   *)
(*                                                                         *)
(* Checks selects the conditions that are enforced on the recorded values; *)
(* the others are ignored (so that a check of one property does not report *)
(* the violation of another one).                                          *)
(***************************************************************************)
EXTENDS Planner, Json, IOUtils

CONSTANTS Checks, Budget   \* Budget: give up on a run after so many states
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,    \* next line of the trace
          ax    \* bookkeeping about the recorded numbers
tvars == <<vars, l, ax>>

MUnk == -1999999999      \* times
MNoPos == <<>>           \* positions
NEWT == -1999999998      \* "time" of a waypoint that was never planned

Chk(what, cond) == (what \in Checks) => cond
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Near(p, q, tol) == \A i \in 1..3 : Abs(p[i] - q[i]) <= tol
Zero3 == <<0, 0, 0>>
VMax(e) == Max2(Max2(Abs(e.v[1]), Abs(e.v[2])), Abs(e.v[3]))

Ev == Trace[l]
IsCall(op) == l <= Len(Trace) /\ Ev.k = "call" /\ Ev.op = op
IsThr(op) == l <= Len(Trace) /\ Ev.k = "thr" /\ Ev.op = op
IsRet(op) == l <= Len(Trace) /\ Ev.k = "ret" /\ Ev.op = op
Adv == l' = l + 1
C == Ev.c

AxInit == [hint |-> FALSE, body |-> FALSE,  \* the life of the computation thread is recorded
           quick |-> FALSE, \* durations of calls are meaningful
           cost |-> 0,    \* virtual duration of a computation
           tlo |-> 0, thi |-> 0,   \* bounds of the last computation time
           s0 |-> 0,      \* when the running computation was started (lower bound)
           lr |-> 0,      \* line with the references at the clock, on the trajectory in use; 0: none
           lb |-> 0,      \* line with the references at the base of the generation being prepared; 0: none
           s1 |-> 0, s2 |-> 0,     \* the last two samples (lines)
           e0 |-> 0, e1 |-> 0, b0 |-> 0, b1 |-> 0,   \* samples since the last move: e0..e1; before it: b0..b1
           md |-> <<>>,   \* local moves of the generation in use: [i, mu, d, last, wpp]
           cv |-> [lo |-> 0, hi |-> 0, g |-> 0],    \* lines of a curve of generation g
           p0 |-> 0,      \* line of the last real evaluation
           du |-> {},     \* [key, sp, d]: durations seen
           lm |-> 0,      \* the last move hit something that was ahead
           tame |-> TRUE, \* nothing was moved locally: no bends, however tight, anywhere
           one |-> 0,     \* the computation started last
           vc |-> {},     \* [n, v]: the velocity that the waypoints called n have to be passed with
           wm |-> FALSE,  \* moves were waiting when the worker woke: it takes them before it sleeps again
           jump |-> 0]    \* an installation happened: line of the evaluation before it

TraceInit == PInit /\ l = 1 /\ ax = AxInit

KeepP == UNCHANGED vars
KeepA == UNCHANGED ax

(***************************************************************************)
(* Runs and marks                                                          *)
(***************************************************************************)
TRun ==
  /\ l <= Len(Trace) /\ Ev.k = "run" /\ Adv
  /\ todo' = NoTodo
  /\ plan' = [g |-> 0, wps |-> <<>>, mv |-> 0]
  /\ par' = [g |-> 0, last |-> 0, speed |-> 0]
  /\ traj' = 0
  /\ G' = (0 :> [NewGen(0, <<>>, TRUE, {}, <<>>) EXCEPT !.off = 0])
  /\ comp' = [st |-> "no", g |-> 0]
  /\ computing' = FALSE /\ regen' = FALSE /\ veh' = NOPOS /\ wk' = Idle
  /\ cl' = [c \in Clients |-> Idle]
  /\ lk' = [todo |-> "", traj |-> ""]
  /\ life' = "none"
  /\ gh' = [want |-> <<>>, taken |-> <<>>, nu |-> 1, lastReal |-> 0, speed |-> 0, inst |-> 0, back |-> FALSE, gone |-> {}, unread |-> FALSE]
  /\ ax' = [AxInit EXCEPT !.cost = Ev.cost, !.quick = Ev.quick, !.hint = Ev.hint]

TMark ==
  /\ l <= Len(Trace) /\ Ev.k = "mark" /\ Adv /\ KeepP
  /\ CASE Ev.op = "cost" -> ax' = [ax EXCEPT !.cost = Ev.v]
       [] Ev.op = "curve" -> ax' = [ax EXCEPT !.cv = [lo |-> l, hi |-> 0, g |-> traj]]
       [] Ev.op = "curveend" -> ax' = [ax EXCEPT !.cv = [lo |-> @.lo, hi |-> l, g |-> IF traj = @.g /\ ax.e0 < @.lo THEN @.g ELSE 0]]
       [] Ev.op = "settled" ->
            /\ KeepA
            /\ Chk("settle", NothingWaiting /\ comp.st = "no" /\ todo.set = <<>> /\ todo.add = <<>>)
            /\ Chk("settle", PlanIsWhatWasAskedFor)
       [] Ev.op = "con" -> ax' = [ax EXCEPT !.vc = @ \cup {[n |-> Ev.n, v |-> Ev.v]}]
       [] Ev.op = "unsettled" -> Chk("settle", FALSE) /\ KeepA
       [] OTHER -> KeepA

\* the computation has started to run, has ended (a hint: traces without these lines are as good)
TThr ==
  /\ l <= Len(Trace) /\ Ev.k = "thr" /\ Ev.op \in {"cbody", "cend"} /\ Adv
  /\ comp' = IF Ev.op = "cend" /\ comp.st = "run" THEN [comp EXCEPT !.st = "done"] ELSE comp
  /\ ax' = [ax EXCEPT !.body = (Ev.op = "cbody")]
  /\ UNCHANGED <<todo, plan, par, traj, G, computing, regen, veh, wk, cl, lk, life, gh>>

\* C17: a computation that goes on is the one started last
TOne ==
  /\ l <= Len(Trace) /\ Ev.k = "one" /\ Adv /\ KeepP
  /\ IF Ev.op = "cstart" THEN ax' = [ax EXCEPT !.one = C]
     ELSE Chk("one", ax.one = C) /\ KeepA

\* the worker has slept: it is between two rounds (a hint)
TWake == /\ IsThr("wake") /\ wk.pc = "idle" /\ Adv /\ KeepP
         /\ ~ax.wm
         /\ ax' = [ax EXCEPT !.wm = todo.mod # <<>> /\ ~computing]

(***************************************************************************)
(* Requests: call, silent effect, return                                   *)
(***************************************************************************)
Start(rec) == cl' = [cl EXCEPT ![C] = rec]
OnlyCl == UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, lk, life, gh>>

TCall ==
  /\ l <= Len(Trace) /\ Ev.k = "call" /\ Adv /\ KeepA
  /\ cl[C].pc = "idle"
  /\ OnlyCl
  /\ Start(CASE Ev.op = "eval" -> [pc |-> "call", op |-> "eval", t |-> Ev.t, plot |-> Ev.plot, at |-> l, had |-> traj # 0]
             [] Ev.op \in {"mod", "mods"} -> [pc |-> "call", op |-> Ev.op, at |-> l, i |-> 1, had |-> TRUE]
             [] OTHER -> [pc |-> "call", op |-> Ev.op, at |-> l, had |-> traj # 0])

Arg(c) == Trace[cl[c].at]
ToRet(c) == cl' = [cl EXCEPT ![c].pc = "ret"]
At(c, ops) == cl[c].pc = "call" /\ cl[c].op \in ops

SilentRequest(c) ==
  \/ At(c, {"new"}) /\ life' = "up" /\ ToRet(c)
       /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, lk, gh>>
  \/ At(c, {"set"}) /\ DoSet(c, Arg(c).wps) /\ ToRet(c)
  \/ At(c, {"app"}) /\ DoApp(c, Arg(c).wps[1]) /\ ToRet(c)
  \/ At(c, {"mod"}) /\ DoMod(c, Arg(c).mods[1].n, Arg(c).mods[1].p, Arg(c).g) /\ ToRet(c)
  \/ /\ At(c, {"mods"}) /\ cl[c].i <= Len(Arg(c).mods)
     /\ DoMod(c, Arg(c).mods[cl[c].i].n, Arg(c).mods[cl[c].i].p, FALSE)
     /\ cl' = [cl EXCEPT ![c].i = @ + 1]
  \/ At(c, {"mods"}) /\ cl[c].i > Len(Arg(c).mods) /\ DoModsEnd(c) /\ ToRet(c)
  \/ At(c, {"speed"}) /\ DoSpeed(c, Arg(c).v) /\ ToRet(c)
  \/ At(c, {"veh"}) /\ DoVeh(c, Arg(c).p) /\ ToRet(c)

\* C13: once a trajectory exists nothing waits for a computation
Quick(c) == Chk("dur", (ax.quick /\ cl[c].had) => Ev.dur <= 20000)
RetTo(c) == cl[c].pc = "ret" /\ cl' = [cl EXCEPT ![c] = Idle]

TRetRequest ==
  /\ l <= Len(Trace) /\ Ev.k = "ret" /\ Adv /\ KeepA
  /\ Ev.op \in {"new", "set", "app", "mod", "mods", "speed", "veh"}
  /\ RetTo(C) /\ OnlyCl /\ (Ev.op # "new" => Quick(C))

TRetDel ==
  /\ IsRet("del") /\ Adv /\ KeepA
  /\ RetTo(C) /\ OnlyCl
  /\ Chk("del", Ev.live = 0 /\ Ev.poison = 0)

(***************************************************************************)
(* Flags: read (or read and cleared) at the return                         *)
(***************************************************************************)
TRetFlag ==
  /\ l <= Len(Trace) /\ Ev.k = "ret" /\ Adv /\ KeepA
  /\ Ev.op \in {"gen", "comp", "regen"}
  /\ cl[C].pc = "call" /\ cl' = [cl EXCEPT ![C] = Idle]
  /\ CASE Ev.op = "gen" -> Chk("flags", Ev.v = todo.gen) /\ regen' = regen
       [] Ev.op = "comp" -> Chk("flags", Ev.v = computing) /\ regen' = regen
       [] Ev.op = "regen" -> Chk("regen", Ev.v = regen) /\ regen' = FALSE
  /\ Quick(C)
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, veh, wk, lk, life, gh>>

(***************************************************************************)
(* Waypoint lists                                                          *)
(***************************************************************************)
SameWp(e, w) == e.n = w.n /\ (w.p = NOPOS \/ e.p = w.p)
SameList(es, ws) == Len(es) = Len(ws) /\ \A i \in 1..Len(es) : SameWp(es[i], ws[i])

Monotone(es) == \A i \in 1..(Len(es) - 1) : es[i].t <= es[i + 1].t

\* the recorded times es of waypoints k+1..k+Len(es) of generation g: agree with what is known?
TimesFit(g, k, es) ==
  /\ \A i \in 1..Len(es) : es[i].t >= 0 /\ es[i].t <= 1000000000
  /\ Chk("time", Monotone(es))
  /\ Chk("time", \A i \in 1..Len(es) : G[g].ts[k + i] # UNK => Abs(G[g].ts[k + i] - es[i].t) <= 1)
  /\ Chk("time", (k = 0 /\ es # <<>>) => Abs(es[1].t - G[g].base) <= 2)
  /\ Chk("clock", \A c \in G[g].cons : \A i \in 1..Len(es) :
          IF k + i <= c[1] THEN es[i].t <= c[2] + Fuzz ELSE es[i].t + Fuzz > c[2])
Bound(g, k, es) ==
  [G EXCEPT ![g].ts = [i \in 1..Len(@) |-> IF i > k /\ i <= k + Len(es) THEN es[i - k].t ELSE @[i]],
            ![g].wps = [i \in 1..Len(@) |-> IF i > k /\ i <= k + Len(es) /\ @[i].p = NOPOS
                                            THEN [@[i] EXCEPT !.p = es[i - k].p] ELSE @[i]]]
BoundPlan(g, k, es) ==
  IF plan.g # g THEN plan
  ELSE [plan EXCEPT !.wps = [i \in 1..Len(@) |-> IF i > k /\ i <= k + Len(es) /\ @[i].p = NOPOS
                                                 THEN [@[i] EXCEPT !.p = es[i - k].p] ELSE @[i]]]

\* C08: the second stitching point lies on the old trajectory at the replanning horizon
OnOldCurve(g, p) ==
  LET st == G[g].st IN
  (st.cv.g # 0 /\ st.cv.hi > 0 /\ Trace[st.cv.hi - 1].t >= G[g].base + 10 * st.thi + 20000) =>
    \E k \in st.cv.lo..st.cv.hi :
       /\ Trace[k].k = "ret" /\ Trace[k].op = "eval"
       /\ Near(Trace[k].p, p, 1000 + VMax(Trace[k]) \div 80)   \* samples are 20 ms apart
       /\ Trace[k].t >= G[g].base + 10 * st.tlo - 40000
       /\ Trace[k].t <= G[g].base + 10 * st.thi + 40000
\* C08: the first point is where the vehicle was told to be
StartFits(g, es) ==
  LET st == G[g].st IN
  /\ Chk("stitch", (~G[g].sc /\ st.lr # 0 /\ Len(es) >= 1) => Near(Trace[st.lr].p, es[1].p, 20))
  /\ Chk("stitch", (~G[g].sc /\ Len(es) >= 2) => OnOldCurve(g, es[2].p))

\* C15: equal problems take equal time at equal speed
DurKey(g) == [i \in 1..Len(G[g].wps) |-> G[g].wps[i].p]
DurOf(g, es) == Last(es).t - es[1].t
DurFits(g, es) ==
  (G[g].sc /\ Cardinality(G[g].sp) = 1 /\ Len(es) > 1) =>
    \A r \in ax.du : r.key = DurKey(g) =>
       LET s == CHOOSE v \in G[g].sp : TRUE
           d == DurOf(g, es) IN
       /\ r.sp = s => Abs(r.d - d) <= r.d \div 50
       /\ r.sp >= 2 * s => d > r.d + r.d \div 20
       /\ s >= 2 * r.sp => r.d > d + d \div 20
       /\ r.sp >= 4 * s => d > r.d + r.d \div 4
       /\ s >= 4 * r.sp => r.d > d + d \div 4
DurNoted(g, es) ==
  IF "speeddur" \in Checks /\ G[g].sc /\ Cardinality(G[g].sp) = 1 /\ Len(es) > 1
  THEN [ax EXCEPT !.du = @ \cup {[key |-> DurKey(g), sp |-> CHOOSE v \in G[g].sp : TRUE, d |-> DurOf(g, es)]}]
  ELSE ax

TRetPlan ==
  /\ IsRet("plan") /\ Adv
  /\ RetTo(C)
  /\ Quick(C)
  /\ LET g == cl[C].pg
         ws == cl[C].wps
         es == Ev.wps
         fits == SameList(es, ws) IN
     /\ Chk("list", fits)
     /\ IF fits /\ g # 0
        THEN /\ TimesFit(g, 0, es)
             /\ StartFits(g, es)
             /\ Chk("speeddur", DurFits(g, es))
             /\ G' = Bound(g, 0, es)
             /\ plan' = BoundPlan(g, 0, es)
             /\ ax' = DurNoted(g, es)
        ELSE UNCHANGED <<G, plan, ax>>
  /\ UNCHANGED <<todo, par, traj, comp, computing, regen, veh, wk, lk, life, gh>>

TRetNext ==
  /\ IsRet("next") /\ Adv /\ KeepA
  /\ RetTo(C)
  /\ Quick(C)
  /\ LET g == cl[C].pg
         ws == cl[C].wps
         es == Ev.wps IN
     IF g = 0 THEN Chk("list", es = <<>>) /\ UNCHANGED <<G, plan>>
     ELSE \/ \E S \in PassedSets(g, cl[C].last) :
               LET k == Len(ws) - Len(es) IN
               /\ S = 1..k
               /\ SameList(es, Keep(ws, S))
               /\ TimesFit(g, k, es)
               /\ Chk("clock", \A i \in 1..Len(es) : es[i].t + Fuzz > cl[C].last)
               /\ G' = [Bound(g, k, es) EXCEPT ![g].cons = Note(g, k, cl[C].last).cons]
               /\ plan' = BoundPlan(g, k, es)
          \/ /\ "list" \notin Checks
             /\ UNCHANGED <<G, plan>>
  /\ UNCHANGED <<todo, par, traj, comp, computing, regen, veh, wk, lk, life, gh>>

\* the number of waypoints ahead, without the planner's own points in front
RECURSIVE StripSP(_)
StripSP(ws) == IF ws # <<>> /\ ws[1].n = SP THEN StripSP(Tail(ws)) ELSE ws
TRetRem ==
  /\ IsRet("rem") /\ Adv /\ KeepA
  /\ RetTo(C)
  /\ Quick(C)
  /\ Chk("list", \E S \in PassedSets(cl[C].pg, cl[C].last) : Ev.v = Len(StripSP(Keep(cl[C].wps, S))))
  /\ OnlyCl

(***************************************************************************)
(* Time base, borders, compensation, speed                                 *)
(***************************************************************************)
TRetBase ==
  /\ l <= Len(Trace) /\ Ev.k = "ret" /\ Ev.op \in {"min", "max"} /\ Adv /\ KeepA
  /\ RetTo(C)
  /\ Quick(C)
  /\ LET g == cl[C].g
         ts == G[g].ts IN
     IF Ev.op = "min" THEN Chk("time", Abs(Ev.v - G[g].base) <= 1) /\ G' = G
     ELSE IF Last(ts) = UNK
          THEN G' = [G EXCEPT ![g].ts[Len(ts)] = Ev.v]
          ELSE Chk("time", Abs(Ev.v - Last(ts)) <= 2) /\ G' = G
  /\ UNCHANGED <<todo, plan, par, traj, comp, computing, regen, veh, wk, lk, life, gh>>

TRetOff ==
  /\ IsRet("off") /\ Adv /\ KeepA
  /\ RetTo(C)
  /\ Quick(C)
  /\ IF G[cl[C].g].off = UNK THEN G' = [G EXCEPT ![cl[C].g].off = Ev.v]
     ELSE Chk("time", Abs(Ev.v - G[cl[C].g].off) <= 1) /\ G' = G
  /\ UNCHANGED <<todo, plan, par, traj, comp, computing, regen, veh, wk, lk, life, gh>>

TRetSpeed ==
  /\ IsRet("getspeed") /\ Adv /\ KeepA
  /\ RetTo(C) /\ Quick(C)
  /\ Chk("speed", Ev.v = cl[C].v)
  /\ OnlyCl

(***************************************************************************)
(* References                                                              *)
(***************************************************************************)
\* the local moves of the generation in use: effect of one at time tc (per axis), as bounds.
\* The bend is centred at mu; its extent is the time from the clock to mu, and a sixth more.
Extent(m) == LET e == IF m.last > 0 THEN m.mu - m.last ELSE 3375000 IN e + e \div 6 + 1000
Hit(m) == m.mu > m.last
FarFrom(m, tc) == m.i # 0 /\ (~Hit(m) \/ Abs(tc - m.mu) > Extent(m))
AllFar(tc) == \A k \in 1..Len(ax.md) : FarFrom(ax.md[k], tc)
Big(d) == \A i \in 1..3 : d[i] = 0 \/ Abs(d[i]) >= 2050

\* C05, C09, C07: at the time of a waypoint the reference is that waypoint
AtWaypoints(r, e, tc) ==
  LET ts == G[r.g].ts
      w == plan.wps IN
  \A i \in 1..Len(ts) :
    (ts[i] # UNK /\ w[i].p # NOPOS /\ Abs(tc - ts[i]) <= 3) =>
      /\ Chk("refwp", (\A k \in 1..Len(ax.md) : FarFrom(ax.md[k], tc)) /\ (\A k \in 1..Len(ax.md) : ax.md[k].i # i)
                        => Near(e.p, w[i].p, 60))
      /\ Chk("refwp", (ax.md = <<>> /\ ~e.only /\ i < Len(ts)) => \A q \in ax.vc : q.n = w[i].n => Near(e.v, q.v, 300))
      /\ Chk("move", (/\ ax.md # <<>>
                      /\ \A k \in 1..Len(ax.md) : ax.md[k].i = i \/ FarFrom(ax.md[k], tc)
                      /\ \A k \in 1..Len(ax.md) : ax.md[k].i = i => (Hit(ax.md[k]) /\ Big(ax.md[k].d)))
                        => Near(e.p, w[i].p, 60))

\* C11: outside the trajectory its end points are held
Outside(r, e, tc) ==
  LET ts == G[r.g].ts
      w == plan.wps
      n == Len(ts)
      atEnd == (Last(ts) # UNK /\ tc >= Last(ts) + 5)
      atRest == atEnd \/ (Last(ts) # UNK /\ ax.md = <<>> /\ tc >= Last(ts) - 3) IN
  /\ Chk("refout", (atEnd /\ AllFar(Last(ts)) /\ (\A k \in 1..Len(ax.md) : ax.md[k].i # n) /\ w[n].p # NOPOS) => Near(e.p, w[n].p, 60))
  /\ Chk("refout", (atEnd /\ w[n].p # NOPOS /\ \A k \in 1..Len(ax.md) : ax.md[k].i = n /\ Hit(ax.md[k]) /\ Big(ax.md[k].d))
                      => Near(e.p, w[n].p, 60))
  /\ Chk("refout", (atRest /\ ~e.only) => (Near(e.v, Zero3, 300) /\ Near(e.a, Zero3, 3000)))
  \* the same reference, whatever the time outside, until the next move
  /\ Chk("refout", ax.e0 # 0 =>
        \A k \in Max2(ax.e0, ax.e1 - 40)..ax.e1 :
          (Trace[k].k = "ret" /\ Trace[k].op = "eval" /\ Trace[k].plot) =>
            LET b == Trace[k]
                tk == b.t + G[r.g].off IN
            ((tc < G[r.g].base - 2 /\ tk < G[r.g].base - 2) \/ (atEnd /\ tk >= Last(ts) + 5)) =>
              (Near(e.p, b.p, 2) /\ ((~e.only /\ ~b.only) => Near(e.v, b.v, 5) /\ Near(e.a, b.a, 20))))
  /\ Chk("start", (G[r.g].sc /\ tc <= G[r.g].base + 2 /\ ax.md = <<>> /\ w[1].p # NOPOS) =>
          (Near(e.p, w[1].p, 60) /\ (~e.only => Near(e.v, Zero3, 300) /\ Near(e.a, Zero3, 3000))))
  /\ Chk("stitch", (~G[r.g].sc /\ tc <= G[r.g].base + 2 /\ ax.md = <<>> /\ G[r.g].st.lr # 0) =>
          (Near(e.p, Trace[G[r.g].st.lr].p, 100)
           /\ (~e.only => Near(e.v, Trace[G[r.g].st.lr].v, 1000) /\ Near(e.a, Trace[G[r.g].st.lr].a, 5000))))

\* C10: central differences of three samples at equal distance; C09: continuity
NearCut(tc, h) ==
  \E k \in 1..Len(ax.md) :
    LET m == ax.md[k] IN
    \/ m.i = 0
    \/ Hit(m) /\ ~FarFrom(m, tc) /\ m.mu - m.last < 600000
    \/ Hit(m) /\ Abs(Abs(tc - m.mu) - Extent(m)) <= 2 * h + 30000
Times(d, h) ==   \* d * h, h in microseconds, at most 25000
  IF Abs(d) <= 8000000 THEN ((d \div 100) * h) \div 10000 ELSE ((d \div 10000) * h) \div 100
\* x3 - x1 = d2 * h2, as exactly as the second difference of d allows
Diff(x1, x3, d1, d2, d3, h2, tol, num) ==
  \A i \in 1..3 : Abs((x3[i] - x1[i]) - Times(d2[i], h2)) <= Times(tol, h2) + num + Times(Abs(d1[i] - d2[i] + d3[i] - d2[i]), h2) \div 4
Derivatives(r, e, tc) ==
  (ax.s1 # 0 /\ ax.s2 # 0) =>
    LET a == Trace[ax.s1]
        b == Trace[ax.s2]
        h1 == b.t - a.t
        h2 == e.t - b.t IN
    (/\ h1 > 0 /\ h2 > 0 /\ Abs(h1 - h2) <= 20 /\ h1 + h2 <= 25000 /\ h1 + h2 >= 5000
     /\ ~e.only /\ ~a.only /\ ~b.only
     /\ G[r.g].base <= a.t + G[r.g].off /\ Last(G[r.g].ts) # UNK /\ tc <= Last(G[r.g].ts)
     /\ ~NearCut(b.t + G[r.g].off, h1)) =>
       /\ Diff(a.p, e.p, a.v, b.v, e.v, h1 + h2, 2500, 6)
       /\ Diff(a.v, e.v, a.a, b.a, e.a, h1 + h2, 25000, 6)
\* close neighbours are close: position, velocity, acceleration are continuous
Continuous(r, e) ==
  (ax.s2 # 0) =>
    LET b == Trace[ax.s2]
        h == Abs(e.t - b.t) IN
    (h <= 500 /\ ~e.only /\ ~b.only /\ ax.md = <<>>) =>
       (Near(e.p, b.p, 1000) /\ Near(e.v, b.v, 3000) /\ Near(e.a, b.a, 60000))
\* the position is the same whether or not the derivatives are asked for
OnlySame(e) == (ax.s2 # 0 /\ Trace[ax.s2].t = e.t) => Near(e.p, Trace[ax.s2].p, 1)

\* C07: compared with the sample at the same time before the last move
MoveShape(r, e, tc) ==
  (ax.b0 # 0 /\ ax.lm = 1 /\ ax.md # <<>>) =>
    \A k \in ax.b0..ax.b1 :
      (Trace[k].k = "ret" /\ Trace[k].op = "eval" /\ Trace[k].t = e.t) =>
        LET m == ax.md[Len(ax.md)]
            d == [i \in 1..3 |-> e.p[i] - Trace[k].p[i]] IN
        \A i \in 1..3 :
          IF m.i = 0 THEN TRUE ELSE IF FarFrom(m, tc) THEN Abs(d[i]) <= 3
          ELSE IF Abs(m.d[i]) < 2050 THEN Abs(d[i]) <= Abs(m.d[i]) + 3
          ELSE /\ (IF m.d[i] > 0 THEN d[i] >= -3 /\ d[i] <= m.d[i] + 3 ELSE d[i] <= 3 /\ d[i] >= m.d[i] - 3)
               /\ (m.last > 0 /\ tc <= m.last) => Abs(d[i]) <= Abs(m.d[i]) \div 64 + 5
\* a move that hits nothing that is ahead changes nothing
NoMoveSame(r, e) ==
  (ax.b0 # 0 /\ ax.lm = 0) =>
    \A k \in ax.b0..ax.b1 :
      (Trace[k].k = "ret" /\ Trace[k].op = "eval" /\ Trace[k].t = e.t) => Near(e.p, Trace[k].p, 1)

\* C08: the commanded position does not jump at an installation
NoJump(r, e) ==
  (ax.jump # 0 /\ ~e.plot /\ ~G[r.g].sc) =>
     LET b == Trace[ax.jump]
         dt == Abs(e.t - b.t)
         fast == Max2(Max2(VMax(e), VMax(b)), par.speed)
         vmax == IF fast > 30000000 THEN 30000000 ELSE fast + fast \div 2 IN
     \* the clock has moved about as long as the computation took
     (dt <= 300000 /\ ~e.only /\ ~b.only /\ e.t - G[r.g].base <= 2 * ax.thi + 200000) => Near(e.p, b.p, ((vmax \div 100) * ((dt + 250000) \div 100)) \div 100 + 2000)

Sane(x) == \A i \in 1..3 : Abs(x[i]) <= 100000000
TRetEval ==
  /\ IsRet("eval") /\ Adv
  /\ RetTo(C)
  /\ Quick(C)
  /\ LET r == cl[C]
         e == Ev
         \* the state has not moved on since the references were read
         same == plan.g = r.g /\ r.tg = r.g /\ r.pg = r.g /\ plan.mv = r.mv /\ r.mv0 = r.mv
         off == G[r.g].off
         tc == e.t + off
         \* outside the trajectory the references are those at its end
         end == Last(G[r.g].ts)
         tcc == IF end # UNK /\ tc > end THEN end ELSE IF tc < G[r.g].base THEN G[r.g].base ELSE tc
         sameEpoch == same /\ off # UNK IN
     /\ e.ok /\ (ax.tame => Sane(e.p) /\ Sane(e.v) /\ Sane(e.a))
     /\ sameEpoch => /\ AtWaypoints(r, e, tc)
                     /\ Outside(r, e, tc)
                     /\ Chk("deriv", Derivatives(r, e, tc))
                     /\ Chk("cont", Continuous(r, e))
                     /\ Chk("deriv", OnlySame(e))
                     /\ Chk("move", end # UNK => MoveShape(r, e, tcc))
                     /\ Chk("move", NoMoveSame(r, e))
     /\ same => Chk("jump", NoJump(r, e))
     /\ ax' = [ax EXCEPT !.lr = IF e.plot THEN @ ELSE IF same /\ ~e.only /\ cl[C].t = par.last THEN l ELSE 0,
                         !.lb = IF ~e.plot /\ same /\ ~e.only /\ wk.pc \in {"start", "drain", "drain2", "build"} /\ cl[C].t = wk.base THEN l ELSE @,
                         !.p0 = IF e.plot THEN @ ELSE l,
                         !.s1 = IF sameEpoch /\ e.plot THEN ax.s2 ELSE 0,
                         !.s2 = IF sameEpoch /\ e.plot THEN l ELSE 0,
                         !.e0 = IF sameEpoch /\ e.plot /\ @ = 0 THEN l ELSE @,
                         !.e1 = IF sameEpoch /\ e.plot THEN l ELSE @,
                         !.jump = IF e.plot THEN @ ELSE 0]
  /\ OnlyCl

(***************************************************************************)
(* Silent steps                                                            *)
(***************************************************************************)
DefinitelyInZone ==
  /\ traj # 0
  /\ G[par.g].off # UNK
  /\ LET ts == G[plan.g].ts
         A == {i \in 1..Len(plan.wps) : plan.wps[i].n # "" /\ (ts[i] = UNK \/ ts[i] > par.last)} IN
     A # {} /\ LET i == CHOOSE x \in A : \A y \in A : x <= y IN
               ts[i] # UNK /\ ts[i] - (par.last + G[par.g].off) <= 10 * ax.tlo - 100

\* the old times of the waypoints in wk.nxt
OldTime(w) ==
  LET I == {i \in 1..Len(plan.wps) : plan.wps[i] = w \/ (w.u # 0 /\ plan.wps[i].u = w.u)} IN
  IF I = {} THEN NEWT ELSE G[plan.g].ts[CHOOSE i \in I : TRUE]
\* planner's points and unnamed waypoints in nxt that may lie before the horizon of base b
MayDrop(b) ==
  LET cand == {i \in 1..Len(wk.nxt) : wk.nxt[i].n \in {"", SP}}
      off == IF G[par.g].off = UNK THEN 0 ELSE G[par.g].off
      must == {i \in cand : LET t == OldTime(wk.nxt[i]) IN
                 t \notin {NEWT, UNK} /\ G[par.g].off # UNK /\ t < b + off + 10 * ax.tlo - 100}
      may == {i \in cand : LET t == OldTime(wk.nxt[i]) IN
                 t # NEWT /\ (t = UNK \/ G[par.g].off = UNK \/ t < b + off + 10 * ax.thi + 100)} IN
  {must \cup {i \in may : i <= k} : k \in 0..Len(wk.nxt)}

\* the decision is taken at a clock between the one the generation is based on and the present one
Remaining(t) == Last(G[traj].ts) - t
MustStitch == traj # 0 /\ Last(G[traj].ts) # UNK /\ Remaining(Max2(par.last, wk.base)) > 4 * ax.thi + 1000
MustScratch == traj = 0 \/ (Last(G[traj].ts) # UNK /\ Remaining(IF par.last < wk.base THEN par.last ELSE wk.base) < 4 * ax.tlo - 1000)

VtNow == IF l > 1 /\ Trace[l - 1].k \in {"call", "ret", "thr"} THEN Trace[l - 1].vt ELSE ax.s0
VtNext == IF l <= Len(Trace) /\ Trace[l].k \in {"call", "ret", "thr"} THEN Trace[l].vt ELSE VtNow + 1000000

BuildStep ==
  /\ wk.pc = "build"
  /\ ax.hint => IsThr("cstart")
  /\ \E b \in {wk.base} :
     /\ \/ /\ Chk("stitch", ~MustStitch)
           /\ traj # 0 => ~MustStitch \/ "stitch" \notin Checks
           /\ WBuild(b, FALSE, {}, [lr |-> 0, cv |-> AxInit.cv, tlo |-> 0, thi |-> 0], NOPOS, NOPOS)
        \/ /\ traj # 0 /\ Chk("stitch", ~MustScratch)
           /\ \E D \in MayDrop(b) :
                WBuild(b, TRUE, D,
                       [lr |-> ax.lb,
                        cv |-> IF ax.cv.g = traj /\ ax.md = <<>> THEN ax.cv ELSE AxInit.cv,
                        tlo |-> ax.tlo, thi |-> ax.thi],
                       NOPOS, NOPOS)
  /\ ax' = [ax EXCEPT !.s0 = VtNow]

\* a local move of the waypoints called n: what it does to the references
MoveNote ==
  LET m == todo.mod[wk.i]
      H == {i \in 1..Len(plan.wps) : plan.wps[i].n = m.n /\ m.n # ""}
      one == CHOOSE i \in H : TRUE
      epoch == [ax EXCEPT !.s1 = 0, !.s2 = 0, !.lr = 0,
                          !.b0 = IF ax.e0 # 0 THEN ax.e0 ELSE 0,
                          !.b1 = ax.e1,
                          !.e0 = 0, !.e1 = 0, !.lm = 0, !.tame = FALSE] IN
  IF H = {} THEN epoch
  ELSE LET t == G[plan.g].ts[one]
           rec == [i |-> one, mu |-> t, last |-> par.last,
                   d |-> IF plan.wps[one].p = NOPOS THEN Zero3
                         ELSE [j \in 1..3 |-> m.p[j] - plan.wps[one].p[j]]] IN
       IF t = UNK \/ Abs(t - par.last) <= Fuzz \/ Cardinality(H) > 1 \/ plan.wps[one].p = NOPOS
       THEN [epoch EXCEPT !.md = Append(@, [rec EXCEPT !.i = 0, !.mu = 0, !.last = -1]), !.b0 = 0, !.lm = 1]
       ELSE [epoch EXCEPT !.md = Append(@, rec), !.lm = IF t <= par.last THEN 0 ELSE 1]

Installed == [ax EXCEPT !.s1 = 0, !.s2 = 0, !.lr = 0, !.md = <<>>, !.e0 = 0, !.e1 = 0, !.b0 = 0, !.b1 = 0,
                        !.jump = ax.p0, !.cv = AxInit.cv]

Always(c) == cl[c].op \in {"eval", "plan"}
KLockOps == {"eval", "plan", "min", "max"}
SilentClient(c) ==
  \/ SilentRequest(c) /\ ax' = IF ax.wm /\ cl[c].op = "set" THEN [ax EXCEPT !.wm = FALSE] ELSE ax
  \/ At(c, KLockOps) /\ KLock(c) /\ KeepA
  \/ KSkip(c, Always(c)) /\ KeepA
  \/ IFit(c, Always(c), UNK, IF ax.hint /\ ~ax.body THEN {"done"} ELSE {"done", "run"}) /\ ax' = [ax EXCEPT !.tlo = ax.cost - ax.cost \div 10, !.thi = Max2(ax.cost, VtNext - ax.s0)]
  \/ IPar(c) /\ KeepA
  \/ ITraj(c) /\ ax' = Installed
  \/ INote(c) /\ KeepA
  \/ IPlan(c) /\ KeepA
  \/ IDone(c) /\ KeepA
  \/ ESet(c) /\ KeepA
  \/ EVal(c) /\ KeepA
  \/ Read(c, {"plan", "min", "max"}) /\ KeepA
  \/ NClock(c) /\ KeepA
  \/ NPlan(c) /\ KeepA
  \/ QRead(c) /\ KeepA
  \/ DStop(c) /\ KeepA
  \/ DDead(c) /\ KeepA

SilentWorker ==
  \/ WSnap("zone" \in Checks /\ DefinitelyInZone) /\ ax' = [ax EXCEPT !.lb = IF ax.lr # 0 /\ Trace[ax.lr].t = par.last THEN ax.lr ELSE 0]
  \/ WStart /\ ax' = [ax EXCEPT !.wm = FALSE]
  \/ WDrain1 /\ KeepA
  \/ wk.pc = "drain2" /\ (\E S \in PassedSets(plan.g, par.last) : WDrain2(S)) /\ KeepA
  \/ WEmpty /\ KeepA
  \/ WModBegin /\ ax' = [ax EXCEPT !.wm = FALSE]
  \/ WModOne /\ ax' = MoveNote
  \/ WModEnd /\ KeepA
  \/ WStop /\ KeepA
  \/ ~ax.hint /\ life = "stop" /\ CDone([i \in 1..Len(G[comp.g].wps) |-> UNK]) /\ KeepA

TBuild == BuildStep /\ UNCHANGED cl /\ l' = IF ax.hint THEN l + 1 ELSE l

Silent == /\ l' = l
          /\ \/ \E c \in Clients : cl[c].pc # "idle" /\ SilentClient(c)
             \/ SilentWorker /\ UNCHANGED cl

TraceNext ==
  \/ TRun \/ TMark \/ TThr \/ TOne \/ TWake \/ TCall \/ TRetRequest \/ TRetDel \/ TRetFlag \/ TRetPlan \/ TRetNext \/ TRetRem
  \/ TRetBase \/ TRetOff \/ TRetSpeed \/ TRetEval
  \/ TBuild
  \/ Silent

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* remembers the longest explained prefix; stops as soon as the whole trace is explained
Progress ==
  /\ IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
  /\ Trace[IF l > Len(Trace) THEN 1 ELSE l].k = "run" => (TLCSet(3, TLCGet("stats").distinct) /\ TLCSet(4, l))
  /\ TLCGet("stats").distinct - TLCGet(3) > Budget + 20 * (TLCGet(1) - TLCGet(4)) => (PrintT(<<"BUDGET", TLCGet(1)>>) /\ TLCSet("exit", TRUE))
  /\ l > Len(Trace) => (PrintT(<<"ACCEPTED", Len(Trace)>>) /\ TLCSet("exit", TRUE))
ASSUME TLCSet(3, 0)
ASSUME TLCSet(4, 0)
ASSUME TLCSet(1, 0)
ASSUME TLCSet(2, [i \in 1..(Len(Trace) + 1) |-> 0])
Done == PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
===============================================================================
