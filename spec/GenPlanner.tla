----------------------------- MODULE GenPlanner -----------------------------
(* Behaviours of MCPlanner, written out for replay on the real planner: TLC in simulation mode draws
   what the clients ask for and at which step of which operation the worker and the computation move on. *)
EXTENDS MCPlanner, Json

VARIABLE hist
gvars == <<mvars, hist>>

One(S, z) == {RandomElement(S)}      \* z: keeps TLC from drawing only once
Log(x) == hist' = Append(hist, x)
GNames == {"a", "b", "c", "d"}
GWp(z) == [n |-> RandomElement(GNames), p |-> nops + 1]
GList(z) == [i \in 1..RandomElement(0..3) |-> Wp(RandomElement({<<"a", "b", "c">>, <<"d", "a", "b">>, <<"b", "c", "d">>})[i], 10 * nops + i)]
Over == nops = MaxOps /\ \A c \in Clients : IdleC(c)

GRequest(c) ==
  /\ IdleC(c) /\ Counted
  /\ \E k \in One({"set", "app", "app", "mod", "modg", "mods", "speed", "veh"}, hist) :
       \/ k = "set" /\ \E l \in {GList(hist)} : (l = <<>> => traj # 0) /\ DoSet(c, l) /\ Keeps /\ Log([op |-> "set", wps |-> l])
       \/ k = "app" /\ \E w \in {GWp(hist)} : DoApp(c, w) /\ Keeps /\ Log([op |-> "app", n |-> w.n])
       \/ k = "mod" /\ \E n \in One(GNames, hist) : DoMod(c, n, nops, FALSE) /\ Keeps /\ Log([op |-> "mod", n |-> n])
       \/ k = "modg" /\ \E n \in One(GNames, hist) : DoMod(c, n, nops, TRUE) /\ Keeps /\ Log([op |-> "modg", n |-> n])
       \/ k = "mods" /\ \E n \in One(GNames, hist) : DoMod(c, n, nops, FALSE) /\ cl' = [cl EXCEPT ![c] = [pc |-> "mods"]] /\ Log([op |-> "mods", n |-> n])
       \/ k = "speed" /\ DoSpeed(c, nops) /\ Keeps /\ Log([op |-> "speed"])
       \/ k = "veh" /\ DoVeh(c, nops) /\ Keeps /\ Log([op |-> "veh"])
GCall(c) ==
  /\ IdleC(c) /\ Counted
  /\ \E k \in One({"eval", "eval", "eval", "eval", "plot", "plan", "min", "regen", "next"}, hist) :
       LET t == par.last + RandomElement(0..2) IN
       /\ k \in {"eval", "plot", "plan", "min"} => traj # 0 \/ todo.set # <<>> \/ todo.add # <<>> \/ comp.st # "no"    \* otherwise it would wait for ever
       /\ cl' = [cl EXCEPT ![c] = IF k \in {"eval", "plot"} THEN [pc |-> "call", op |-> "eval", t |-> IF k = "plot" THEN 0 ELSE t, plot |-> k = "plot"]
                                  ELSE [pc |-> "call", op |-> k]]
       /\ Log([op |-> k, t |-> t - par.last])
  /\ UNCHANGED <<todo, plan, par, traj, G, comp, computing, regen, veh, wk, lk, life, gh>>

GInit == MCInit /\ hist = <<>>
GNext ==
  \/ ~Over /\ \/ \E c \in Clients : \/ New(c) /\ UNCHANGED hist
                                    \/ GRequest(c)
                                    \/ GCall(c)
                                    \/ ModsEnd(c) /\ Log([op |-> "s"])
                                    \/ CStep(c) /\ Log([op |-> "s"])
                                    \/ Ret(c) /\ Log([op |-> "r"])
              \/ WorkerX /\ Log([op |-> "w"])
              \/ Compute /\ Log([op |-> "c"])
  \/ Over /\ PrintT("HIST " \o ToJson(hist)) /\ nops' = nops + 1 /\ UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][GNext]_gvars
==============================================================================
