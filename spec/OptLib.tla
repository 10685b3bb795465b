--------------------------------- MODULE OptLib ---------------------------------
(***************************************************************************)
(* The optimiser (L08) as a machine: one optimiser object is set up for    *)
(* one problem after another and solved.  A problem gives every vertex the *)
(* set of derivatives it fixes; everything else up to half the order is    *)
(* free, and shared by the two segments that meet there.                   *)
(*                                                                         *)
(* Cubic problems (order 4, least velocity) are solved exactly: two    *)
(* segments whose middle vertex leaves the velocity free.                  *)
(***************************************************************************)
EXTENDS TrajAlgebra, TLC
CONSTANTS MaxK, Halves, OptDefects
Vals == {-3, 0, 1, 4}
VARIABLES prob, sol, book
ovars == <<prob, sol, book>>

(* ---- bookkeeping ---- *)
\* fix: for every vertex the set of derivatives below h that are fixed
Fixed(fix, h) == Sum([i \in 1..Len(fix) |-> Cardinality({k \in fix[i] : k < h})])
Free(fix, h) == {<<i, k>> \in (1..Len(fix)) \X (0..(h - 1)) : k \notin fix[i]}

(* ---- cubic splines: positions, velocities, durations ---- *)
\* the cubic through p (velocity v) and q (velocity w) in time t, coefficients times t^3
Hermite(t, p, v, q, w) == <<p * Pow(t, 3), v * Pow(t, 3), t * (3 * (q - p) - t * (2 * v + w)), t * (v + w) - 2 * (q - p)>>
Cubic(t, p, v, q, w) == [i \in 1..4 |-> Quot(Hermite(t, p, v, q, w)[i], Pow(t, 3))]
\* integral of the squared velocity, times 30 t
Cost(t, p, v, q, w) == LET d == q - p IN 36 * d * d - 6 * t * d * (v + w) + t * t * (4 * v * v - 2 * v * w + 4 * w * w)
\* cost of both segments, times 30 t1 t2
Both(t1, t2, p, v, m, u, q, w) == t2 * Cost(t1, p, v, m, u) + t1 * Cost(t2, m, u, q, w)
\* the free velocity in the middle: numerator and denominator
Num(t1, t2, p, v, m, q, w) == 3 * (q - p) + t1 * v + t2 * w
Den(t1, t2) == 4 * (t1 + t2)
Middle(t1, t2, p, v, m, q, w) == Quot(Num(t1, t2, p, v, m, q, w), Den(t1, t2))

Fixes == UNION {[1..(k + 1) -> SUBSET (0..2)] : k \in 1..MaxK}
Init == prob = <<>> /\ sol = <<>> /\ book = [free |-> {}, fixed |-> 0]
SetUp(fix, h) ==
  /\ prob' = [fix |-> fix, h |-> h]
  /\ book' = [free |-> Free(fix, h) \cup IF "keepsFree" \in OptDefects THEN book.free ELSE {}, fixed |-> Fixed(fix, h)]
  /\ sol' = <<>>
Spline(t1, t2, p, v, m, q, w) ==
  /\ prob = [fix |-> <<{0, 1}, {0}, {0, 1}>>, h |-> 2] /\ sol = <<>>
  /\ Num(t1, t2, p, v, m, q, w) % Den(t1, t2) = 0
  /\ sol' = <<[t1 |-> t1, t2 |-> t2, p |-> p, v |-> v, m |-> m, q |-> q, w |-> w,
               u |-> IF "halfWay" \in OptDefects THEN (v + w) \div 2 ELSE Middle(t1, t2, p, v, m, q, w)]>>
  /\ UNCHANGED <<prob, book>>
Next ==
  \/ \E fix \in Fixes, h \in Halves : SetUp(fix, h)
  \/ \E t1, t2 \in {1, 2, 3}, p, v, m, q, w \in Vals : Spline(t1, t2, p, v, m, q, w)
Spec == Init /\ [][Next]_ovars

\* every derivative of every vertex is either fixed or free
Complete == prob # <<>> => book.fixed + Cardinality(book.free) = prob.h * Len(prob.fix)
FreeIsOfThisProblem == prob # <<>> => \A x \in book.free : x[1] <= Len(prob.fix) /\ x[2] < prob.h /\ x[2] \notin prob.fix[x[1]]
\* the solution passes through what is given, is smooth, and no other middle velocity costs less
Optimal == sol # <<>> =>
  LET s == sol[1] IN
  \A x \in (s.u - 5)..(s.u + 5) : Both(s.t1, s.t2, s.p, s.v, s.m, s.u, s.q, s.w) <= Both(s.t1, s.t2, s.p, s.v, s.m, x, s.q, s.w)
\* the formula of the cost is the integral of (a + b x + c x^2)^2 / t^6
CostIsIntegral == sol # <<>> =>
  LET s == sol[1]
      H == Hermite(s.t1, s.p, s.v, s.m, s.u)      \* times t^3
      t == s.t1  a == H[2]  b == 2 * H[3]  c == 3 * H[4] IN
  Cost(t, s.p, s.v, s.m, s.u) * Pow(t, 5) =
    30 * a * a * t + 30 * a * b * t * t + 10 * (b * b + 2 * a * c) * Pow(t, 3) + 15 * b * c * Pow(t, 4) + 6 * c * c * Pow(t, 5)
ThroughThePoints == sol # <<>> =>
  LET s == sol[1]
      H == Hermite(s.t1, s.p, s.v, s.m, s.u) T3 == Pow(s.t1, 3) IN
  PEval(H, 0, 0) = s.p * T3 /\ PEval(H, s.t1, 0) = s.m * T3 /\ PEval(H, 0, 1) = s.v * T3 /\ PEval(H, s.t1, 1) = s.u * T3
==================================================================================
