---------------------------------- MODULE PolyLib --------------------------------
(***************************************************************************)
(* Histories of polynomial operations (L09).  The ghost `val` of a         *)
(* register are its values at the times -1, 0, 1, 2 (and of its first      *)
(* derivative), computed from the values of its sources.                   *)
(***************************************************************************)
EXTENDS TrajAlgebra, TLC, Json

CONSTANTS Regs, Depth, Emit, Defects
VARIABLES reg, val, hist
vars == <<reg, val, hist>>
Us == <<-1, 0, 1, 2>>
Values(p) == [i \in 1..4 |-> <<PEval(p, Us[i], 0), PEval(p, Us[i], 1)>>]
Bounded(p) == Len(p) <= 8 /\ \A i \in 1..Len(p) : Abs(p[i]) <= 20000

Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
Note(e) == hist' = IF Emit THEN Append(hist, e) ELSE hist
Put(q, p, x, e) == Bounded(p) /\ reg' = [reg EXCEPT ![q] = p] /\ val' = [val EXCEPT ![q] = x] /\ Note(e)
News(z) == IF Emit THEN LET n == RandomElement(1..5) IN {[i \in 1..n |-> RandomElement(-9..9)]}
        ELSE {<<1>>, <<0, 2>>, <<3, -1, 0>>}
Init == reg = [r \in Regs |-> <<>>] /\ val = [r \in Regs |-> <<>>] /\ hist = <<[op |-> "start", f |-> 0]>>
Have == {r \in Regs : reg[r] # <<>>}
VAdd(x, y) == [i \in 1..4 |-> <<x[i][1] + y[i][1], x[i][2] + y[i][2]>>]
VMul(x, y) == [i \in 1..4 |-> <<x[i][1] * y[i][1], x[i][1] * y[i][2] + x[i][2] * y[i][1]>>]
Step ==
  \/ \E q \in Pick(Regs) : \E p \in News(reg) : Put(q, p, Values(p), [op |-> "pnew", q |-> q, p |-> p])
  \/ \E q \in Pick(Regs), r, s \in Have :
       \/ Len(reg[r]) = Len(reg[s]) /\ Put(q, PAdd(reg[r], reg[s]), VAdd(val[r], val[s]), [op |-> "padd", q |-> q, r |-> r, s |-> s])
       \/ \E k \in Pick({"pmul", "pconv"}) :
            Put(q, IF "dropTop" \in Defects THEN SubSeq(PMul(reg[r], reg[s]), 1, Max(Len(reg[r]), Len(reg[s]))) ELSE PMul(reg[r], reg[s]),
                VMul(val[r], val[s]), [op |-> k, q |-> q, r |-> r, s |-> s])
  \/ \E q, r \in Have :
       /\ Len(reg[q]) = Len(reg[r]) /\ Put(q, PAdd(reg[q], reg[r]), VAdd(val[q], val[r]), [op |-> "paddto", q |-> q, r |-> r])
  \/ \E q \in Pick(Regs), r \in Have :
       \/ \E x \in Pick({-2, 0, 3}) : Put(q, PScal(reg[r], x), [i \in 1..4 |-> <<val[r][i][1] * x, val[r][i][2] * x>>], [op |-> "psc", q |-> q, r |-> r, x |-> x])
       \/ \E n \in Pick(1..8) :
            Put(q, IF n >= Len(reg[r]) THEN PPad(reg[r], n) ELSE reg[r], val[r], [op |-> "ppad", q |-> q, r |-> r, n |-> n])
  \/ \E q \in Have :
       \/ \E x \in Pick({-5, 7}) : Put(q, POff(reg[q], x), [i \in 1..4 |-> <<val[q][i][1] + x, val[q][i][2]>>], [op |-> "poff", q |-> q, x |-> x])
       \/ LET p == PTime(reg[q], 2, 1) IN
          Put(q, p, [i \in 1..4 |-> <<PEval(reg[q], 2 * Us[i], 0), 2 * PEval(reg[q], 2 * Us[i], 1)>>], [op |-> "pts", q |-> q, a |-> 2, b |-> 1])
       \/ \E p \in News(reg) : Len(p) = Len(reg[q]) /\ Put(q, p, Values(p), [op |-> "pset", q |-> q, p |-> p])
  \/ Emit /\ UNCHANGED <<reg, val>> /\ \E r \in Have :
       \/ \E u \in Pick({-2, -1, 0, 1, 2}), k \in Pick(0..3) : Note([op |-> "pev", r |-> r, u |-> u, k |-> k])
       \/ \E u \in Pick({-1, 0, 1, 2}), k \in Pick(1..Len(reg[r])) : Note([op |-> "pevv", r |-> r, u |-> u, k |-> k])
       \/ \E k \in Pick(0..Len(reg[r])) : Note([op |-> "pder", r |-> r, k |-> k])
       \/ \E s \in Have : Len(reg[r]) = Len(reg[s]) /\ Note([op |-> "peq", r |-> r, s |-> s])
Finish == Emit /\ Len(hist) = Depth /\ PrintT("HIST " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<reg, val>>
Next == ((~Emit \/ Len(hist) < Depth) /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars

ValuesFollow == \A r \in Have : Values(reg[r]) = val[r]
DerivativeOfDerivative == \A r \in Have : PDer(PDer(reg[r], 1), 1) = PDer(reg[r], 2) /\ \A i \in 1..4 : PEval(PDer(reg[r], 1), Us[i], 0) = PEval(reg[r], Us[i], 1)
Commutes == \A r, s \in Have : PMul(reg[r], reg[s]) = PMul(reg[s], reg[r])
Small == \A r \in Regs : Len(reg[r]) <= 4 /\ \A i \in 1..Len(reg[r]) : Abs(reg[r][i]) <= 100
DepthBound == TLCGet("level") < Depth
Bare == <<reg, val>>
==================================================================================
