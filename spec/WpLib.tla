---------------------------------- MODULE WpLib ----------------------------------
(***************************************************************************)
(* Dynamic waypoints (L12): a position that may be moved while the vehicle *)
(* is under way.  Every move leaves a bend, centred at the time the        *)
(* waypoint is passed and reaching back to the moment of the move.         *)
(* Positions are in 1/128 m, times in quarters of a second.                *)
(* `was` is the ghost: where the waypoint was when it was last planned.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Regs, Depth, Emit, Defects
VARIABLES w, was, hist
vars == <<w, was, hist>>

Abs(x) == IF x < 0 THEN -x ELSE x
NONE == <<>>
Max0(x) == IF x < 0 THEN 0 ELSE x
Add(a, b) == [i \in 1..3 |-> a[i] + b[i]]
Sub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Zero3 == <<0, 0, 0>>
\* st: 0 none, 1 without a position, 2 complete.  c: constraints on derivatives 1..3
No == [st |-> 0, org |-> Zero3, cur |-> Zero3, c |-> [k \in 1..3 |-> NONE], t |-> 0, idx |-> 0, name |-> "", bends |-> <<>>]
Bare == [No EXCEPT !.st = 1, !.idx = -1]
At(x, c, name, idx) == [Bare EXCEPT !.st = 2, !.org = x, !.cur = x, !.c = c, !.name = name, !.idx = idx]
Reset(q, x) == [q EXCEPT !.st = 2, !.org = x, !.cur = x, !.bends = IF "resetKeepsBends" \in Defects THEN @ ELSE <<>>]
Keep(q) == Reset(q, q.cur)
Constrain(q, k, x) == IF k = 0 THEN Reset(q, x) ELSE [q EXCEPT !.c[k] = x]
\* ext: how far the bend reaches to either side, 0 if the library chooses (the move was not dated)
Bend(q, x, a) == [d |-> IF "bendFromOriginal" \in Defects THEN Sub(x, q.org) ELSE Sub(x, q.cur), mu |-> q.t,
                  free |-> a <= 0, ext |-> IF a > 0 THEN q.t - a ELSE 0]
Move(q, x, a) == [q EXCEPT !.cur = x, !.bends = Append(@, Bend(q, x, a))]
Time(q, t) == [q EXCEPT !.t = t, !.bends = IF "timeLeavesBends" \in Defects THEN @ ELSE [i \in 1..Len(@) |-> [@[i] EXCEPT !.mu = t]]]

RECURSIVE SumB(_)
SumB(bs) == IF bs = <<>> THEN Zero3 ELSE Add(Head(bs).d, SumB(Tail(bs)))

\* what a bend adds to the reference: bounds, in thousandths, along one axis at time t
Visible(b, i) == Abs(b.d[i]) >= 3 /\ (b.free \/ b.ext > 0)
\* the reach of a bend that was not dated: at most 5.25 s
Far(b, t) == IF b.free THEN Abs(t - b.mu) > 21 ELSE 6 * Abs(t - b.mu) > 7 * b.ext
OnEdge(b, t) == ~b.free /\ 6 * Abs(t - b.mu) = 7 * b.ext
\* share of the bend at time t, as a range in thousandths: all of it at its centre, more than half within a third of its
\* reach, little at the moment of the move
Low(b, t) == IF Far(b, t) THEN 0 ELSE IF t = b.mu THEN 1000
             ELSE IF ~b.free /\ 3 * Abs(t - b.mu) <= b.ext THEN 600 ELSE 0
High(b, t) == IF Far(b, t) THEN 0 ELSE IF ~b.free /\ Abs(t - b.mu) >= b.ext THEN 12
              ELSE IF ~b.free /\ 3 * Abs(t - b.mu) >= b.ext /\ b.ext > 0 THEN 610 ELSE 1000
Part(b, i, t, most) == IF ~Visible(b, i) THEN 0
                       ELSE b.d[i] * (IF (b.d[i] > 0) = most THEN High(b, t) ELSE Low(b, t))
RECURSIVE Range(_, _, _, _)
Range(bs, i, t, most) == IF bs = <<>> THEN 0 ELSE Part(Head(bs), i, t, most) + Range(Tail(bs), i, t, most)
RECURSIVE Size(_, _)
Size(bs, i) == IF bs = <<>> THEN 0 ELSE Abs(Head(bs).d[i]) + Size(Tail(bs), i)
\* all bends dated: the derivatives can be bounded.  Narrow: least reach
Dated(bs) == \A k \in 1..Len(bs) : ~bs[k].free
Narrow(bs) == LET S == {bs[k].ext : k \in {j \in 1..Len(bs) : ~bs[j].free /\ bs[j].ext > 0}} IN
              IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y

Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
Note(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
Put(q, x, y, n) == w' = [w EXCEPT ![q] = x] /\ was' = [was EXCEPT ![q] = y] /\ Note(n)
Values == IF Emit THEN (-640)..640 ELSE {0, 5}
Small == IF Emit THEN {-3, -2, -1, 0, 1, 2, 3} ELSE {0}
Vec(z) == IF Emit THEN {[i \in 1..3 |-> RandomElement(Values)]} ELSE {<<x, 0, 0>> : x \in Values}
Times == IF Emit THEN 0..80 ELSE {1, 4}
Names == IF Emit THEN {"", "a", "b", "a"} ELSE {"a"}
Consts(z) == IF Emit THEN {[k \in 1..3 |-> IF RandomElement(1..3) = 1 THEN [i \in 1..3 |-> RandomElement(-40..40)] ELSE NONE]} ELSE {[k \in 1..3 |-> NONE]}

Init == w = [r \in Regs |-> No] /\ was = [r \in Regs |-> Zero3] /\ hist = <<[op |-> "start", f |-> 7]>>
Here(q) == w[q].st = 2
Step ==
  \/ \E q \in Pick(Regs), x \in Vec(w), c \in Consts(w), n \in Pick(Names), i \in Pick(IF Emit THEN (-1)..5 ELSE {0}) :
        Put(q, At(x, c, n, i), x, [op |-> "wnew", q |-> q, x |-> x, c |-> c, name |-> n, i |-> i])
  \/ \E q \in Pick(Regs) : w[q].st = 0 /\ Put(q, Bare, Zero3, [op |-> "wdef", q |-> q])
  \/ \E q \in {r \in Regs : w[r].st > 0} :
       \/ (Emit => RandomElement(1..3) = 1) /\ \E x \in Vec(w) : Put(q, Reset(w[q], x), x, [op |-> "wreset", q |-> q, x |-> x])
       \/ \E k \in Pick(0..3), x \in Vec(w) : Put(q, Constrain(w[q], k, x), IF k = 0 THEN x ELSE was[q], [op |-> "wcon", q |-> q, k |-> k, x |-> x])
       \/ \E t \in Pick(Times) : Put(q, Time(w[q], t), was[q], [op |-> "wtime", q |-> q, t |-> t])
       \/ Emit /\ \E i \in Pick(0..5) : Put(q, [w[q] EXCEPT !.idx = i], was[q], [op |-> "widx", q |-> q, i |-> i])
       \/ Emit /\ \E i \in Pick(-2..3) : Put(q, [w[q] EXCEPT !.idx = @ + i], was[q], [op |-> "wdis", q |-> q, i |-> i])
       \/ Emit /\ \E n \in Pick(Names) : Put(q, [w[q] EXCEPT !.name = n], was[q], [op |-> "wname", q |-> q, name |-> n])
       \/ \E r \in Regs \ {q}, a \in Pick(BOOLEAN) : w[q].st = 2 /\ Put(r, w[q], was[q], [op |-> "wcopy", q |-> r, r |-> q, assign |-> a])
  \/ \E q \in {r \in Regs : Here(r)} :
       \/ (Emit => RandomElement(1..3) = 1) /\ Put(q, Keep(w[q]), w[q].cur, [op |-> "wkeep", q |-> q])
       \/ \E rep \in 1..(IF Emit THEN 4 ELSE 1) : \E x \in Vec(w), a \in IF Emit THEN {RandomElement({0, RandomElement(Times), Max0(w[q].t - RandomElement(0..20)), Max0(w[q].t - RandomElement(0..20))})} ELSE {0, 1} :
            Put(q, Move(w[q], x, a), was[q], [op |-> "wmove", q |-> q, x |-> x, a |-> a])
       \/ Emit /\ \E d \in {[i \in 1..3 |-> RandomElement(Small)]}, a \in {Max0(w[q].t - RandomElement(0..20))} :      \* moves at the threshold of what is seen
            LET x == Add(w[q].cur, d) IN Put(q, Move(w[q], x, a), was[q], [op |-> "wmove", q |-> q, x |-> x, a |-> a])
       \/ Emit /\ UNCHANGED <<w, was>> /\ Note([op |-> "wget", r |-> q])
       \/ Emit /\ UNCHANGED <<w, was>> /\
            \E rep \in 1..8 : (rep > 1 => w[q].bends # <<>>) /\ \E t \in Pick(Times), x \in Pick(0..12) : \E s \in Pick({t, w[q].t, w[q].t + x, w[q].t - x}) :
              Note([op |-> "wcomp", r |-> q, u |-> s, m |-> 2 * w[q].t - s])
Finish == Emit /\ Len(hist) = Depth /\ PrintT("HIST " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<w, was>>
Next == ((~Emit \/ Len(hist) < Depth) /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars

\* the planned position with all bends is where the waypoint is now
BendsAddUp == \A r \in Regs : Here(r) => Add(w[r].org, SumB(w[r].bends)) = w[r].cur
Planned == \A r \in Regs : Here(r) => w[r].org = was[r]
Centred == \A r \in Regs : \A k \in 1..Len(w[r].bends) : w[r].bends[k].mu = w[r].t
\* the bounds on what is added meet at the waypoint's own time, and it is where it should be
ReachesTarget == \A r \in Regs : Here(r) =>
   LET q == w[r] IN (\A k \in 1..Len(q.bends) : \A i \in 1..3 : q.bends[k].d[i] = 0 \/ Visible(q.bends[k], i)) =>
      \A i \in 1..3 : /\ Range(q.bends, i, q.t, FALSE) = Range(q.bends, i, q.t, TRUE)
                      /\ 1000 * q.org[i] + Range(q.bends, i, q.t, TRUE) = 1000 * q.cur[i]
NothingFarAway == \A r \in Regs : \A i \in 1..3 : \A t \in {w[r].t + 40, w[r].t - 40} : Range(w[r].bends, i, t, TRUE) = 0 /\ Range(w[r].bends, i, t, FALSE) = 0
Ordered == \A r \in Regs : \A i \in 1..3 : \A t \in 0..6 : Range(w[r].bends, i, t, FALSE) <= Range(w[r].bends, i, t, TRUE)
DepthBound == TLCGet("level") < Depth
View == <<w, was>>
==================================================================================
