------------------------------- MODULE TrajAlgebra -------------------------------
(***************************************************************************)
(* The piecewise polynomial trajectories of mav_trajectory_generation as   *)
(* exact integer arithmetic.                                               *)
(*                                                                         *)
(* Units.  Time is counted in quarters of a second.  A polynomial is a     *)
(* sequence of coefficients, lowest power first, per unit of time and in   *)
(* multiples of 2^-f metres (f is a constant of each history), so that     *)
(* every value below is an integer and so is every value of the            *)
(* implementation, up to rounding of doubles that cannot occur at this     *)
(* size.  The k-th derivative at u is  Fall(i,k) * c_i * u^(i-k)  summed.  *)
(*                                                                         *)
(* A segment is [t, p] (duration, one polynomial per dimension), a         *)
(* trajectory [n, d, segs] (coefficients, dimensions, segments).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Fall(_, _)
Fall(i, k) == IF k = 0 THEN 1 ELSE (i - k + 1) * Fall(i, k - 1)
RECURSIVE SumTo(_, _)      \* sum of the first n elements
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* exact division; 2000000001 marks a value that is not an integer
BAD == 2000000001
Quot(a, b) == IF a % b = 0 THEN a \div b ELSE BAD

(* ---- polynomials ---- *)
PZero(n) == [i \in 1..n |-> 0]
RECURSIVE Horner(_, _, _, _, _)
Horner(c, u, k, i, acc) == IF i < k THEN acc ELSE Horner(c, u, k, i - 1, acc * u + Fall(i, k) * c[i + 1])
PEval(c, u, k) == IF k >= Len(c) THEN 0 ELSE Horner(c, u, k, Len(c) - 1, 0)
PDer(c, k) == [i \in 1..Len(c) |-> IF i + k <= Len(c) THEN Fall(i + k - 1, k) * c[i + k] ELSE 0]
PAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
PScal(a, x) == [i \in 1..Len(a) |-> a[i] * x]
PMul(a, b) == [m \in 1..(Len(a) + Len(b) - 1) |->
                 Sum([i \in 1..Len(a) |-> IF m - i + 1 \in 1..Len(b) THEN a[i] * b[m - i + 1] ELSE 0])]
PPad(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0]
POff(a, x) == IF a = <<>> THEN a ELSE [a EXCEPT ![1] = @ + x]
\* p(t * a / b)
PTime(c, a, b) == LET g == Gcd(a, b) IN
                  [i \in 1..Len(c) |-> Quot(c[i] * Pow(a \div g, i - 1), Pow(b \div g, i - 1))]
PBase(n, k, u) == [i \in 1..n |-> IF i - 1 < k THEN 0 ELSE Fall(i - 1, k) * Pow(u, i - 1 - k)]

(* ---- segments ---- *)
SEval(s, u, k) == [d \in 1..Len(s.p) |-> PEval(s.p[d], u, k)]
SOff(s, x) == [s EXCEPT !.p = [d \in 1..Len(s.p) |-> IF d <= 3 THEN POff(s.p[d], x[d]) ELSE s.p[d]]]
\* duration times a / b, same path
STime(s, a, b) == [t |-> Quot(s.t * a, b), p |-> [d \in 1..Len(s.p) |-> PTime(s.p[d], b, a)]]
\* both segments at once: the shorter one is stretched, the lower order padded
SApp(s, r, n) ==
  LET T == Max(s.t, r.t)
      St(x) == [d \in 1..Len(x.p) |-> PPad(IF x.t = T THEN x.p[d] ELSE PTime(x.p[d], x.t, T), n)] IN
  [t |-> T, p |-> St(s) \o St(r)]

(* ---- trajectories ---- *)
TEmpty == [n |-> 0, d |-> 0, segs |-> <<>>]
Times(T) == [i \in 1..Len(T.segs) |-> T.segs[i].t]
MaxTime(T) == Sum(Times(T))
Before(T, i) == SumTo(Times(T), i - 1)     \* the time at which segment i starts
\* a border belongs to the segment on its right, the end to the last segment
SegAt(T, u) ==
  LET later == {i \in 1..Len(T.segs) : Before(T, i + 1) > u} IN
  IF later = {} THEN Len(T.segs) ELSE CHOOSE i \in later : \A j \in later : i <= j
TEval(T, u, k) ==
  IF u > MaxTime(T) THEN [d \in 1..T.d |-> 0]
  ELSE LET i == SegAt(T, u) IN SEval(T.segs[i], u - Before(T, i), k)

\* u0, u0 + du, ... below u1 and on the trajectory
RangeTimes(T, u0, u1, du) ==
  IF u0 >= MaxTime(T) \/ u0 >= u1 THEN <<>>
  ELSE LET last == Min(u1 - 1, MaxTime(T))
           n == (last - u0) \div du + 1 IN [j \in 1..n |-> u0 + (j - 1) * du]

TSingle(T, k) == [T EXCEPT !.d = 1, !.segs = [i \in 1..Len(T.segs) |-> [t |-> T.segs[i].t, p |-> <<T.segs[i].p[k]>>]]]
Void(T) == T.n = 0 \/ T.d = 0
TApp(T, U) ==
  IF Void(T) THEN U ELSE IF Void(U) THEN T
  ELSE LET n == Max(T.n, U.n) IN
       [n |-> n, d |-> T.d + U.d, segs |-> [i \in 1..Len(T.segs) |-> SApp(T.segs[i], U.segs[i], n)]]
CanAdd(T, S) == \A i \in 1..Len(S) : S[i].n = T.n /\ S[i].d = T.d
RECURSIVE Join(_)
Join(S) == IF S = <<>> THEN <<>> ELSE Head(S).segs \o Join(Tail(S))
TAdd(T, S) == [T EXCEPT !.segs = @ \o Join(S)]
CanOff(T, x) == Len(x) >= Min(T.d, 3)
TOff(T, x) == [T EXCEPT !.segs = [i \in 1..Len(T.segs) |-> SOff(T.segs[i], x)]]
TScale(T, a, b) == [T EXCEPT !.segs = [i \in 1..Len(T.segs) |-> STime(T.segs[i], a, b)]]
\* the constraints a vertex at u carries: derivative and value, up to kmax
VAt(T, u, kmax) == [k \in 1..(kmax + 1) |-> <<k - 1, TEval(T, u, k - 1)>>]
VBorder(T, i) == Before(T, i)              \* time of vertex i, 1..K+1
Sub(v, dims) == [i \in 1..Len(dims) |-> v[dims[i]]]

(* ---- what a trajectory is, independent of its coefficients ---- *)
Integral(T) == \A i \in 1..Len(T.segs) : T.segs[i].t # BAD /\ \A d \in 1..Len(T.segs[i].p) :
                 \A j \in 1..Len(T.segs[i].p[d]) : Abs(T.segs[i].p[d][j]) < BAD
Shape(T) == \A i \in 1..Len(T.segs) : Len(T.segs[i].p) = T.d /\ \A d \in 1..T.d : Len(T.segs[i].p[d]) = T.n
==================================================================================
