---------------------------------- MODULE AttLib ----------------------------------
(***************************************************************************)
(* Attitudes and full states of a vehicle (L13).  An orientation is a      *)
(* quaternion with whole components, not normalised: its rotation matrix   *)
(* is Mat(o) / Norm(o), exactly.  A state carries position, velocity,      *)
(* acceleration, jerk, snap, angular velocity and angular acceleration as  *)
(* whole vectors over a common denominator.                                *)
(* `body` is the ghost: everything but the position as seen from the       *)
(* vehicle, which no rigid motion of the world changes.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Regs, Depth, Emit, Defects
VARIABLES at, body, hist
vars == <<at, body, hist>>

Abs(x) == IF x < 0 THEN -x ELSE x
Zero3 == <<0, 0, 0>>
Add(a, b) == [i \in 1..3 |-> a[i] + b[i]]
Mul(k, a) == [i \in 1..3 |-> k * a[i]]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]

\* quaternions <<w, x, y, z>>
Norm(o) == o[1] * o[1] + o[2] * o[2] + o[3] * o[3] + o[4] * o[4]
QMul(a, b) == <<a[1] * b[1] - a[2] * b[2] - a[3] * b[3] - a[4] * b[4],
                a[1] * b[2] + a[2] * b[1] + a[3] * b[4] - a[4] * b[3],
                a[1] * b[3] - a[2] * b[4] + a[3] * b[1] + a[4] * b[2],
                a[1] * b[4] + a[2] * b[3] - a[3] * b[2] + a[4] * b[1]>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Prim(o) == LET g == Gcd(Gcd(Abs(o[1]), Abs(o[2])), Gcd(Abs(o[3]), Abs(o[4]))) IN [i \in 1..4 |-> IF o[i] < 0 THEN -(Abs(o[i]) \div g) ELSE o[i] \div g]
Mat(o) == LET w == o[1]  x == o[2]  y == o[3]  z == o[4] IN
  <<<<w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)>>,
    <<2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)>>,
    <<2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z>>>>
Ap(M, v) == [i \in 1..3 |-> Dot(M[i], v)]
Tr(M) == [i \in 1..3 |-> [j \in 1..3 |-> M[j][i]]]
MM(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> Dot(A[i], Tr(B)[j])]]
Det(M) == Dot(M[1], Cross(M[2], M[3]))
Scalar(M, k) == \A i, j \in 1..3 : M[i][j] = IF i = j THEN k ELSE 0
\* M / den is a rotation
IsRotation(M, den) == Scalar(MM(M, Tr(M)), den * den) /\ Det(M) = den * den * den
IsSkew(M) == \A i, j \in 1..3 : M[i][j] = -M[j][i]
Skew(v) == <<<<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>>>>
HalfTurn(o) == o[1] = 0

\* v: position, velocity, acceleration, jerk, snap, angular velocity, angular acceleration, over den
No == [st |-> 0, o |-> <<1, 0, 0, 0>>, den |-> 1, v |-> [i \in 1..7 |-> Zero3]]
State(o, v) == [st |-> 1, o |-> Prim(o), den |-> 1, v |-> v]
\* a rigid motion of the world: turn by q, then shift by t
Moved(s, q, t) == LET M == Mat(q)  d == s.den * Norm(q) IN
  [s EXCEPT !.o = Prim(IF "wrongSide" \in Defects THEN QMul(s.o, q) ELSE QMul(q, s.o)), !.den = d,
            !.v = [i \in 1..7 |-> IF i = 1 \/ (i = 2 /\ "velocityShifts" \in Defects) THEN Add(Ap(M, s.v[i]), Mul(d, t))
                                  ELSE IF i = 7 /\ "rateStays" \in Defects THEN Mul(Norm(q), s.v[i]) ELSE Ap(M, s.v[i])]]
Yawed(s, a, b) == [s EXCEPT !.o = Prim(<<a, 0, 0, b>>)]
Rated(s, i, k) == [s EXCEPT !.v[i] = <<0, 0, k * s.den>>]
Seen(s) == [i \in 2..7 |-> Ap(Tr(Mat(s.o)), s.v[i])]       \* times Norm(o) * den
Same(s, g) == \A i \in 2..7 : \A j \in 1..3 : Seen(s)[i][j] * g.den = g.v[i][j] * (Norm(s.o) * s.den)
Ghost(s) == [den |-> Norm(s.o) * s.den, v |-> Seen(s)]

Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
Note(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
Put(q, s, g, n) == at' = [at EXCEPT ![q] = s] /\ body' = [body EXCEPT ![q] = g] /\ Note(n)
R(k) == RandomElement((-k)..k)
Draw(z) == LET o == [i \in 1..4 |-> IF RandomElement(1..3) = 1 THEN 0 ELSE R(3)] IN IF o = <<0, 0, 0, 0>> THEN <<1, 0, 0, 0>> ELSE o
Quats(z) == IF Emit THEN {RandomElement({Draw(z), Draw(z), <<1, R(1), 0, 0>>, <<1, 0, RandomElement({-1, 1}), 0>>, <<1, 1, 1, 1>>, <<0, R(2), R(2), 1>>})}
            ELSE {<<1, 0, 0, 0>>, <<1, 0, 0, 1>>, <<2, 1, 0, 0>>, <<1, 1, 1, 1>>, <<0, 1, 1, 0>>, <<1, 0, 1, 0>>}
V3(z) == [i \in 1..3 |-> R(9)]
Vecs(z) == IF Emit THEN {[i \in 1..7 |-> V3(z)]} ELSE {[i \in 1..7 |-> <<1, 2 * i, -i>>]}
Shifts(z) == IF Emit THEN {V3(z)} ELSE {<<1, 0, 2>>}
Mats(z) ==
  LET q == Draw(z)  M == Mat(q)  n == Norm(q)  i == RandomElement(1..3) IN
  RandomElement({[m |-> M, den |-> n], [m |-> M, den |-> n], [m |-> [M EXCEPT ![i] = Mul(-1, M[i])], den |-> n],      \* a reflection
                 [m |-> M, den |-> 2 * n], [m |-> [M EXCEPT ![i] = M[1]], den |-> n],
                 [m |-> [a \in 1..3 |-> V3(z)], den |-> 3], [m |-> [M EXCEPT ![i][1] = @ + 1], den |-> n]})

Rarely(k) == RandomElement(1..k) = 1
Init == at = [r \in Regs |-> No] /\ body = [r \in Regs |-> Ghost(No)] /\ hist = <<[op |-> "start", f |-> 7]>>
Step ==
  \/ \E q \in Pick(Regs), o \in Quats(hist), v \in Vecs(hist) : LET s == State(o, v) IN
        Put(q, s, Ghost(s), [op |-> "anew", q |-> q, o |-> o, v |-> v])
  \/ \E q \in {r \in Regs : at[r].st > 0} :
       \/ \E r \in Pick(Regs), o \in Quats(hist), t \in Shifts(hist) :
            LET s == Moved(at[q], o, t) IN
            s.den <= 2000 /\ Norm(s.o) <= 3000 /\ Put(r, s, body[q], [op |-> "amove", q |-> r, r |-> q, o |-> o, x |-> t])
       \/ \E a \in Pick(IF Emit THEN 0..5 ELSE {0, 1}), b \in Pick(IF Emit THEN (-5)..5 ELSE {1, 2}), w \in Pick(IF Emit THEN (-2)..2 ELSE {0}) :
            LET s == Yawed(at[q], a, b) IN (a # 0 \/ b # 0) /\ Put(q, s, Ghost(s), [op |-> "ayaw", q |-> q, a |-> a, b |-> b, w |-> w])
       \/ \E i \in Pick({6, 7}), k \in Pick(IF Emit THEN (-9)..9 ELSE {3}) :
            LET s == Rated(at[q], i, k) IN Put(q, s, Ghost(s), [op |-> "arate", q |-> q, i |-> i, x |-> k])
       \/ \E rep \in 1..3 : Emit /\ UNCHANGED <<at, body>> /\ Note([op |-> "aget", r |-> q])
  \/ Emit /\ UNCHANGED <<at, body>> /\
       \/ Rarely(2) /\ \E o \in {RandomElement({Draw(hist), Draw(hist), CHOOSE q \in Quats(hist) : TRUE, <<100, R(2), R(2), 1>>, <<R(1), 20 + R(20), R(40), R(30)>>})}, x \in Shifts(hist) : Note([op |-> "aconv", o |-> o, x |-> x])
       \/ Rarely(2) /\ \E m \in {Mats(hist)} : Note([op |-> "amat", m |-> m.m, den |-> m.den])
       \/ Rarely(4) /\ \E x \in Shifts(hist), i \in Pick(1..3), j \in Pick(1..3), k \in Pick({0, 0, 1, -2}) :
            Note([op |-> "askew", m |-> LET S == Skew(x) IN [S EXCEPT ![i][j] = @ + k], x |-> x])
       \/ Rarely(2) /\ \E x \in Shifts(hist), y \in Shifts(hist), z \in Shifts(hist), k \in Pick({1, 8, 64, 4096, 65536}) :
            Note([op |-> "aomega", x |-> x, y |-> y, z |-> z, k |-> k])
       \/ Rarely(4) /\ \E x \in Shifts(hist), y \in Shifts(hist), z \in Shifts(hist), k \in Pick(1..9), f \in Pick({<<0, 3, 4>>, <<2, -1, 2>>, <<0, 0, -7>>, <<6, 2, -3>>, <<0, 0, 0>>, <<1, 4, 8>>}) :
            Note([op |-> "arotor", x |-> x, y |-> y, z |-> z, m |-> k, f |-> f, a |-> [i \in 1..6 |-> [j \in 1..4 |-> R(4)]]])
       \/ Rarely(6) /\ \E h \in Pick(0..1000), k \in Pick((-3)..3) : Note([op |-> "agrav", h |-> h, k |-> k])
       \/ Rarely(6) /\ \E k \in Pick({0, 1, 3, 8, 1000, 123456, 2000000000}) : Note([op |-> "anano", x |-> k])
Finish == Emit /\ Len(hist) = Depth /\ PrintT("HIST " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<at, body>>
Next == ((~Emit \/ Len(hist) < Depth) /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars

Rotations == \A r \in Regs : IsRotation(Mat(at[r].o), Norm(at[r].o))
SameFromWithin == \A r \in Regs : Same(at[r], body[r])
\* turning by one and then by another is turning by their product, and rotations keep lengths and angles
Composes == (~Emit /\ TLCGet("level") = 1) => \A a, b \in Quats(hist) :
   /\ MM(Mat(a), Mat(b)) = Mat(QMul(a, b))
   /\ \A v \in Shifts(hist) : Dot(Ap(Mat(a), v), Ap(Mat(a), v)) = Norm(a) * Norm(a) * Dot(v, v)
   /\ \A v, u \in Shifts(hist) : Ap(Skew(v), u) = Cross(v, u)
DepthBound == TLCGet("level") < Depth
View == <<at, body>>
==================================================================================
