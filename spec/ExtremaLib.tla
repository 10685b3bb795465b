------------------------------- MODULE ExtremaLib -------------------------------
(***************************************************************************)
(* The search for extrema (L06): candidates are the borders of the         *)
(* interval and the places inside it where the derivative vanishes (for a  *)
(* magnitude: of its square, so also the zeros of the value); the answer   *)
(* is the smallest and the largest value at the candidates.                *)
(* Checked here: that answer bounds every value on the interval (on the    *)
(* grid of whole units) and is attained, for every polynomial whose        *)
(* derivative has whole roots, every interval and kind.                    *)
(***************************************************************************)
EXTENDS TrajAlgebra, TLC
CONSTANTS Span, Defects
Coefs == {-7, -1, 0, 3, 20}
VARIABLES c, u0, u1, kind, ans
vars == <<c, u0, u1, kind, ans>>

U == -Span..Span
Value(u) == IF kind = "value" THEN PEval(c, u, 0) ELSE PEval(c, u, 0) * PEval(c, u, 0)
Slope(u) == IF kind = "value" THEN PEval(c, u, 1) ELSE PEval(c, u, 0) * PEval(c, u, 1)
\* the derivative is k (u - a) (u - b), or k (u - a), or nothing
Polys == {<<d, k * a * b * 6, -3 * k * (a + b), 2 * k>> : d \in Coefs, k \in {-1, 1, 2}, a \in U, b \in U}
         \cup {<<d, -2 * k * a, k>> : d \in Coefs, k \in {-1, 2}, a \in U}
         \cup {<<d, k>> : d \in Coefs, k \in {-2, 0, 1}}
Borders == IF "noBorders" \in Defects THEN {} ELSE {u0, u1}
Inside(u) == u0 <= u /\ u <= u1
Candidates == {u \in U : (Inside(u) \/ "outside" \in Defects) /\
                         IF "noZeros" \in Defects THEN PEval(c, u, 1) = 0 ELSE Slope(u) = 0} \cup Borders
Nothing == [lo |-> 0, hi |-> 0, tlo |-> 0, thi |-> 0]
Best(S, Less(_, _)) == CHOOSE x \in S : \A y \in S : ~Less(Value(y), Value(x))
Lt(a, b) == a < b
Gt(a, b) == a > b

Init == c \in Polys /\ u0 \in U /\ u1 \in U /\ u0 <= u1 /\ kind \in {"value", "magnitude"} /\ ans = <<>>
Search == /\ ans = <<>>
          /\ ans' = IF Candidates = {} THEN <<Nothing>>
                    ELSE LET a == Best(Candidates, Lt) b == Best(Candidates, Gt) IN <<[lo |-> Value(a), hi |-> Value(b), tlo |-> a, thi |-> b]>>
          /\ UNCHANGED <<c, u0, u1, kind>>
Next == Search
Spec == Init /\ [][Next]_vars

\* a zero of a polynomial with whole coefficients need not be whole: a magnitude is judged where the sign does not change between units
Smooth(u) == kind = "value" \/ u = u1 \/ PEval(c, u, 0) = 0 \/ PEval(c, u + 1, 0) = 0 \/ (PEval(c, u, 0) > 0) = (PEval(c, u + 1, 0) > 0)
Judged == \A u \in u0..u1 : Smooth(u)
Bounds == ans # <<>> /\ Judged => \A u \in u0..u1 : ans[1].lo <= Value(u) /\ Value(u) <= ans[1].hi
Attained == ans # <<>> => ans[1].tlo \in u0..u1 /\ ans[1].thi \in u0..u1 /\ Value(ans[1].tlo) = ans[1].lo /\ Value(ans[1].thi) = ans[1].hi
AtLeastBorders == ans # <<>> => \A u \in {u0, u1} : ans[1].lo <= Value(u) /\ Value(u) <= ans[1].hi
==================================================================================
