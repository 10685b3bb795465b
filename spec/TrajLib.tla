--------------------------------- MODULE TrajLib ---------------------------------
(***************************************************************************)
(* Histories of trajectory operations over a few registers: the spec of    *)
(* Trajectory, Segment and io as a state machine.  Each register also      *)
(* carries a ghost `mot`: the motion it stands for, computed without       *)
(* coefficients from the motions of its sources.  The invariants say that  *)
(* the coefficients (what the library stores) and the motion agree.        *)
(* A step is recorded in `hist`; complete histories are printed and run on *)
(* the real library (tools/libscen.py), whose answers LibTrace checks.     *)
(***************************************************************************)
EXTENDS TrajAlgebra, TLC, Json

CONSTANTS Regs, Depth, Emit, Wide, Defects
VARIABLES reg, mot, hist
vars == <<reg, mot, hist>>

\* F: denominator of the coefficients is 2^F, so that halvings of the pace stay exact
F == 6
One == 64

\* the motion of a segment: its duration and, per dimension, positions at its start, half and end,
\* and velocities per whole duration at start and end
SegMot(s) == [t |-> s.t, m |-> [d \in 1..Len(s.p) |->
                <<PEval(s.p[d], 0, 0), PEval(s.p[d], s.t \div 2, 0), PEval(s.p[d], s.t, 0),
                  s.t * PEval(s.p[d], 0, 1), s.t * PEval(s.p[d], s.t, 1)>>]]
Motion(T) == [i \in 1..Len(T.segs) |-> SegMot(T.segs[i])]

Polys(n) == IF n = 2 THEN {<<0, 64>>, <<128, -64>>} ELSE {<<64, 0, 64>>, <<0, 128, -64>>}
Segments(n, d) == {[t |-> t, p |-> [i \in 1..d |-> IF i % 2 = 1 THEN q ELSE PScal(q, -1)]] : t \in {4, 8}, q \in Polys(n)}
All(n, d) == {[n |-> n, d |-> d, segs |-> <<s>>] : s \in Segments(n, d)}
             \cup {[n |-> n, d |-> d, segs |-> <<s, r>>] : s, r \in Segments(n, d)}
\* a handful of them for the exhaustive runs
Few == {T \in All(2, 1) \cup All(3, 2) :
          /\ T.segs[1].t = 4 /\ (Len(T.segs) = 2 => T.segs[2].t = 8 /\ T.segs[2].p # T.segs[1].p)
          /\ (T.n = 3 => Len(T.segs) = 1)}
News == IF Wide THEN UNION {All(n, d) : n \in {2, 3}, d \in {1, 2, 3}} ELSE Few
\* exhaustive runs take every parameter, generated histories a random one
Weight(n) == IF Emit THEN 1..n ELSE {1}
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S

Init == /\ reg = [r \in Regs |-> TEmpty]
        /\ mot = [r \in Regs |-> <<>>]
        /\ hist = <<[op |-> "start", f |-> F]>>

Note(e) == hist' = IF Emit THEN Append(hist, e) ELSE hist
Put(q, T, m, e) == reg' = [reg EXCEPT ![q] = T] /\ mot' = [mot EXCEPT ![q] = m] /\ Note(e)
Bounded(T) == Integral(T) /\ Len(T.segs) <= 4 /\ T.d <= 4 /\ MaxTime(T) <= 64
              /\ \A i \in 1..Len(T.segs) : T.segs[i].t \in 2..32 /\ T.segs[i].t % 2 = 0
              /\ \A d \in 1..T.d : \A j \in 1..T.n : Abs(T.segs[i].p[d][j]) <= 4096

New(q, T) == Put(q, T, Motion(T), [op |-> "new", q |-> q, n |-> T.n, d |-> T.d, segs |-> T.segs])
Single(q, r, k) ==
  /\ k <= reg[r].d /\ reg[r].segs # <<>>
  /\ Put(q, TSingle(reg[r], k), [i \in 1..Len(mot[r]) |-> [mot[r][i] EXCEPT !.m = <<@[k]>>]],
         [op |-> "single", q |-> q, r |-> r, k |-> k - 1])
MApp(a, b) == [i \in 1..Len(a) |-> [t |-> Max(a[i].t, b[i].t), m |-> a[i].m \o b[i].m]]
\* the defect: appended segments keep their own clock
Unstretched(T, U) ==
  LET n == Max(T.n, U.n) IN
  [n |-> n, d |-> T.d + U.d, segs |-> [i \in 1..Len(T.segs) |->
     [t |-> Max(T.segs[i].t, U.segs[i].t),
      p |-> [d \in 1..T.d |-> PPad(T.segs[i].p[d], n)] \o [d \in 1..U.d |-> PPad(U.segs[i].p[d], n)]]]]
App(q, r, s) ==
  LET T == reg[r] U == reg[s] IN
  /\ Void(T) \/ Void(U) \/ Len(T.segs) = Len(U.segs)
  /\ LET V == IF "unstretched" \in Defects /\ ~Void(T) /\ ~Void(U) THEN Unstretched(T, U) ELSE TApp(T, U) IN
     /\ Bounded(V)
     /\ Put(q, V, IF Void(T) THEN mot[s] ELSE IF Void(U) THEN mot[r] ELSE MApp(mot[r], mot[s]), [op |-> "app", q |-> q, r |-> r, s |-> s])
Add(q, r, s) ==
  LET e == [op |-> "add", q |-> q, r |-> r, s |-> <<s>>] IN
  IF CanAdd(reg[r], <<reg[s]>>) THEN Bounded(TAdd(reg[r], <<reg[s]>>)) /\ Put(q, TAdd(reg[r], <<reg[s]>>), mot[r] \o mot[s], e)
  ELSE UNCHANGED <<reg, mot>> /\ Note(e)
AddSegs(q, r) ==
  /\ reg[q].n = reg[r].n /\ reg[q].d = reg[r].d
  /\ Bounded(TAdd(reg[q], <<reg[r]>>))
  /\ Put(q, TAdd(reg[q], <<reg[r]>>), mot[q] \o mot[r], [op |-> "addsegs", q |-> q, r |-> r])
MOff(m, x) == [i \in 1..Len(m) |-> [m[i] EXCEPT !.m = [d \in 1..Len(@) |->
                 IF d > 3 THEN @[d] ELSE <<@[d][1] + x[d], @[d][2] + x[d], @[d][3] + x[d], @[d][4], @[d][5]>>]]]
Off(q, x) ==
  LET e == [op |-> "off", q |-> q, x |-> x] IN
  IF CanOff(reg[q], x) THEN Bounded(TOff(reg[q], x)) /\ Put(q, TOff(reg[q], x), MOff(mot[q], x), e)
  ELSE UNCHANGED <<reg, mot>> /\ Note(e)
\* positions and velocity per duration are those of before
MScale(m, a, b) == [i \in 1..Len(m) |-> [m[i] EXCEPT !.t = Quot(@ * a, b)]]
ScaleFirstOnly(T, a, b) == [T EXCEPT !.segs = [i \in 1..Len(T.segs) |-> IF i = 1 THEN STime(T.segs[i], a, b) ELSE [T.segs[i] EXCEPT !.t = Quot(@ * a, b)]]]
Scale(q, a, b) ==
  LET T == IF "scaleFirst" \in Defects THEN ScaleFirstOnly(reg[q], a, b) ELSE TScale(reg[q], a, b) IN
  /\ Bounded(T)
  /\ Put(q, T, MScale(mot[q], a, b), [op |-> "scale", q |-> q, a |-> a, b |-> b])
Copy(q, r) == Put(q, reg[r], mot[r], [op |-> "copy", q |-> q, r |-> r])
Clear(q) == reg[q].segs # <<>> /\ Put(q, TEmpty, <<>>, [op |-> "clear", q |-> q])
Save(q, r, k, kind) == reg[r].segs # <<>> /\ Put(q, reg[r], mot[r], [op |-> "save", q |-> q, r |-> r, k |-> k, kind |-> kind])

Look(e) == UNCHANGED <<reg, mot>> /\ Note(e)
Queries ==
  \/ \E r, s \in Pick(Regs) : Look([op |-> "eq", r |-> r, s |-> s])
  \/ \E r \in Regs : reg[r].segs # <<>> /\
       \/ \E u \in Pick({0, 4, 8, 12, MaxTime(reg[r]), MaxTime(reg[r]) + 1}) : \E k \in Pick(0..2) : Look([op |-> "eval", r |-> r, u |-> u, k |-> k])
       \/ \E du \in Pick({1, 2, 3}), st \in Pick(BOOLEAN) : Look([op |-> "range", r |-> r, u0 |-> 0, u1 |-> MaxTime(reg[r]) + 2, du |-> du, k |-> du % 2, st |-> st])
       \/ Look([op |-> "vse", r |-> r, k |-> 1])
       \/ Look([op |-> "vall", r |-> r, k |-> 2])

Step ==
  \/ \E w \in Weight(6), q \in Pick(Regs) : \E T \in Pick(News) : New(q, T)
  \/ \E w \in Weight(3), q \in Pick(Regs) : \E r \in Pick(Regs) :
       \/ \E k \in 1..3 : Single(q, r, k)
       \/ \E s \in Pick(Regs) : App(q, r, s)
       \/ \E s \in Pick(Regs) : Add(q, r, s)
       \/ AddSegs(q, r)
       \/ q # r /\ Copy(q, r)
       \/ \E k \in Pick(IF Wide THEN {1, 3} ELSE {1}), kind \in Pick(IF Wide THEN {"node", "text", "file"} ELSE {"file"}) : Save(q, r, k, kind)
  \/ \E q \in Pick(Regs) :
       \/ \E x \in Pick({<<64, -64, 128>>, <<192>>}) : Off(q, x)
       \/ \E ab \in {<<2, 1>>, <<1, 2>>} : Scale(q, ab[1], ab[2])
  \/ \E q \in Pick(Regs) : Clear(q)
  \/ Emit /\ Queries
Finish == Emit /\ Len(hist) = Depth /\ PrintT("HIST " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<reg, mot>>
Next == ((~Emit \/ Len(hist) < Depth) /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- invariants ---- *)
MaxTimeIsSum == \A r \in Regs : MaxTime(reg[r]) = Sum([i \in 1..Len(mot[r]) |-> mot[r][i].t])
SameMotion == \A r \in Regs : Motion(reg[r]) = mot[r]
WellFormed == \A r \in Regs : Shape(reg[r]) /\ Integral(reg[r])
\* extracting the dimensions and appending them again gives the trajectory back
SplitJoin == \A r \in Regs : reg[r].d >= 2 =>
               LET RECURSIVE J(_)
                   J(k) == IF k = 1 THEN TSingle(reg[r], 1) ELSE TApp(J(k - 1), TSingle(reg[r], k)) IN J(reg[r].d) = reg[r]
\* evaluation looks at one segment only, and right of a border
RightOfBorder == \A r \in Regs : \A i \in 1..Len(reg[r].segs) :
                   TEval(reg[r], Before(reg[r], i), 0) = [d \in 1..reg[r].d |-> mot[r][i].m[d][1]]
EndIsLast == \A r \in Regs : reg[r].segs # <<>> =>
               TEval(reg[r], MaxTime(reg[r]), 0) = [d \in 1..reg[r].d |-> mot[r][Len(mot[r])].m[d][3]]
\* a sampled range is the pointwise evaluation
RangeIsPointwise == \A r \in Regs : reg[r].segs # <<>> =>
    \A u0 \in {0, 3, 4}, du \in {1, 3} :
       LET s == RangeTimes(reg[r], u0, MaxTime(reg[r]), du) IN
       /\ \A j \in 1..Len(s) : s[j] = u0 + (j - 1) * du /\ s[j] < MaxTime(reg[r])
       /\ u0 < MaxTime(reg[r]) => Len(s) > 0 /\ s[Len(s)] + du >= MaxTime(reg[r])
Small == Len(hist) <= Depth /\ \A r \in Regs : Len(reg[r].segs) <= 2 /\ reg[r].d <= 3
DepthBound == TLCGet("level") < Depth
Bare == <<reg, mot>>
==================================================================================
