--------------------------------- MODULE TimerLib --------------------------------
(***************************************************************************)
(* Named timers and their statistics (L11).  Durations in microseconds.    *)
(* Every tag has a handle, every handle an accumulator kept incrementally, *)
(* as the library keeps it; `log` is the ghost: all durations of a handle. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Timers, Tags, Depth, Emit, Window, Deltas, Defects
VARIABLES now, tm, hs, tags, log, hist
vars == <<now, tm, hs, tags, log, hist>>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
SetOf(s) == {s[i] : i \in 1..Len(s)}
MinOf(s) == CHOOSE x \in SetOf(s) : \A y \in SetOf(s) : x <= y
MaxOf(s) == CHOOSE x \in SetOf(s) : \A y \in SetOf(s) : x >= y

NoAcc == [n |-> 0, sum |-> 0, min |-> 0, max |-> 0, win |-> <<>>, wsum |-> 0]
\* win: a ring, the i-th sample is at (i - 1) % Window + 1
AddTo(a, x) ==
  LET k == (a.n % Window) + 1
      full == a.n >= Window IN
  [n |-> a.n + 1, sum |-> a.sum + x,
   min |-> IF a.n = 0 THEN x ELSE Min(a.min, x),
   max |-> IF a.n = 0 THEN (IF "maxFromZero" \in Defects THEN Max(0, x) ELSE x) ELSE Max(a.max, x),
   win |-> IF full THEN [a.win EXCEPT ![k] = x] ELSE Append(a.win, x),
   wsum |-> a.wsum + x - (IF full THEN a.win[k] ELSE 0)]

Idle == [st |-> "none", h |-> 0, t0 |-> 0]
Init == /\ now = 0 /\ tm = [i \in Timers |-> Idle] /\ hs = <<>> /\ tags = [g \in {} |-> 0] /\ log = <<>>
        /\ hist = <<[op |-> "start", f |-> 0], [op |-> "clock", x |-> 0]>>

Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
Note(e) == hist' = IF Emit THEN Append(hist, e) ELSE hist
\* the handle of a tag, and the registry after asking for it
HandleOf(g) == IF g \in DOMAIN tags THEN tags[g] ELSE Len(hs) + 1
Asked(g) == IF g \in DOMAIN tags THEN UNCHANGED <<tags, hs, log>>
            ELSE tags' = [x \in DOMAIN tags \cup {g} |-> IF x = g THEN Len(hs) + 1 ELSE tags[x]]
                 /\ hs' = Append(hs, NoAcc) /\ log' = Append(log, <<>>)
Record(h, x) == hs' = [hs EXCEPT ![h] = AddTo(@, x)] /\ log' = [log EXCEPT ![h] = Append(@, x)]
Nothing == UNCHANGED <<hs, log>>

Step ==
  \/ \E d \in Pick(Deltas) : now' = now + d /\ now' < 2000000 /\ UNCHANGED <<tm, hs, tags, log>> /\ Note([op |-> "clock", x |-> now'])
  \/ \E i \in {j \in Timers : tm[j].st = "none"}, g \in Pick(Tags), s \in Pick(BOOLEAN), k \in Pick({"tnew", "tnewh"}) :
       /\ tm' = [tm EXCEPT ![i] = [st |-> IF s THEN "idle" ELSE "run", h |-> HandleOf(g), t0 |-> now]]
       /\ Asked(g) /\ UNCHANGED now
       /\ Note([op |-> k, q |-> i, tag |-> g, stopped |-> s])
  \/ \E i \in {j \in Timers : tm[j].st # "none"} :
       /\ UNCHANGED <<now, tags>>
       /\ \/ tm' = [tm EXCEPT ![i].st = "run", ![i].t0 = now] /\ Nothing /\ Note([op |-> "tstart", q |-> i])
          \/ /\ tm' = [tm EXCEPT ![i].st = "idle"] /\ Note([op |-> "tstop", q |-> i])
             /\ IF tm[i].st = "run" \/ "stopTwice" \in Defects THEN Record(tm[i].h, now - tm[i].t0) ELSE Nothing
          \/ /\ tm' = [tm EXCEPT ![i] = Idle] /\ Note([op |-> "tdel", q |-> i])
             /\ IF tm[i].st = "run" THEN Record(tm[i].h, now - tm[i].t0) ELSE Nothing
  \/ Emit /\ \E g \in Pick(Tags) : Asked(g) /\ UNCHANGED <<now, tm>> /\ Note([op |-> "tq", tag |-> g])
  \/ ~Emit /\ \E g \in Tags : Asked(g) /\ UNCHANGED <<now, tm>> /\ hist' = hist
  \/ (Emit => RandomElement(1..6) = 1) /\ tags' = [g \in {} |-> 0] /\ UNCHANGED <<now, tm, hs, log>> /\ Note([op |-> "treset"])
Finish == Emit /\ Len(hist) = Depth /\ PrintT("HIST " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<now, tm, hs, tags, log>>
Next == ((~Emit \/ Len(hist) < Depth) /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars

StatsAreOfTheLog ==
  \A h \in 1..Len(hs) :
    LET L == log[h] IN
    /\ hs[h].n = Len(L) /\ hs[h].sum = Sum(L)
    /\ L # <<>> => hs[h].min = MinOf(L) /\ hs[h].max = MaxOf(L)
    /\ hs[h].wsum = Sum(LastN(L, Window))
    /\ Len(hs[h].win) = Min(Len(L), Window) /\ SetOf(hs[h].win) = SetOf(LastN(L, Window))
\* a duration is recorded once, under one name, and none is longer than the time that has passed
NothingInvented == Cardinality(DOMAIN tags) <= Len(hs) /\ \A h \in 1..Len(hs) : \A i \in 1..Len(log[h]) : log[h][i] \in 0..now
OwnHandles == \A g, h \in DOMAIN tags : g # h => tags[g] # tags[h]
MayNotOverlap == Cardinality(Timers) = 1 => \A g \in DOMAIN tags : hs[tags[g]].sum <= now
DepthBound == TLCGet("level") < Depth
Bare == <<now, tm, hs, tags, log>>
==================================================================================
