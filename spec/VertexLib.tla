-------------------------------- MODULE VertexLib --------------------------------
(***************************************************************************)
(* Vertices: maps from derivative to value (L07).  Values are in quarters. *)
(* `log` is the ghost: per register and derivative the last thing done.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Regs, Depth, Emit, Dims, Defects
VARIABLES v, log, hist
vars == <<v, log, hist>>

Abs(x) == IF x < 0 THEN -x ELSE x
Orders == 0..3
NONE == <<>>
\* a vertex: dimension (0: does not exist) and the value of each derivative, <<>> if it is free
No == [d |-> 0, c |-> [k \in Orders |-> NONE]]
Fresh(d) == [d |-> d, c |-> [k \in Orders |-> NONE]]

Set(w, k, x) == [w EXCEPT !.c[k] = x]
Free(w, k) == [w EXCEPT !.c[k] = NONE]
StartOrEnd(w, x, m) == [w EXCEPT !.c = [k \in Orders |-> IF k = 0 THEN x
                          ELSE IF k <= m THEN [i \in 1..w.d |-> 0] ELSE @[k]]]
CanSub(w, dims) == \A i \in 1..Len(dims) : dims[i] < w.d
SubV(w, dims, m) == [d |-> Len(dims), c |-> [k \in Orders |->
                      IF k <= m /\ w.c[k] # NONE THEN [i \in 1..Len(dims) |-> w.c[k][dims[i] + 1]] ELSE NONE]]
Near(w, u, tol) == \A k \in Orders :
   /\ (w.c[k] = NONE) = (u.c[k] = NONE)
   /\ w.c[k] # NONE => \A i \in 1..w.d : Abs(w.c[k][i] - u.c[k][i]) <= tol
Pairs(w) == LET RECURSIVE G(_)
                G(k) == IF k > 3 THEN <<>> ELSE (IF w.c[k] = NONE THEN <<>> ELSE << <<k, w.c[k]>> >>) \o G(k + 1) IN G(0)

Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
Note(e) == hist' = IF Emit THEN Append(hist, e) ELSE hist
Put(q, w, l, e) == v' = [v EXCEPT ![q] = w] /\ log' = [log EXCEPT ![q] = l] /\ Note(e)
Values == IF Emit THEN -40..40 ELSE {0, 3}
Vec(d) == IF Emit THEN {[i \in 1..d |-> RandomElement(Values)]} ELSE [1..d -> Values]
DimLists == IF Emit THEN {<<0>>, <<1>>, <<2, 0>>, <<0, 1>>, <<0, 0>>, <<3>>, <<1, 2>>, <<>>} ELSE {<<0>>, <<1, 0>>}

Init == v = [r \in Regs |-> No] /\ log = [r \in Regs |-> [k \in Orders |-> NONE]] /\ hist = <<[op |-> "start", f |-> 0]>>

Have(r) == v[r].d > 0
Step ==
  \/ \E q \in Pick(Regs), d \in Pick(Dims) : Put(q, Fresh(d), [k \in Orders |-> NONE], [op |-> "vnew", q |-> q, d |-> d])
  \/ \E q \in {r \in Regs : Have(r)} :
       \/ \E k \in Pick(Orders) : \E x \in Vec(v[q].d) :
            Put(q, Set(v[q], k, x), [log[q] EXCEPT ![k] = x], [op |-> "vadd", q |-> q, k |-> k, x |-> x])
       \/ \E k \in Pick(Orders), x \in Pick(Values) :
            LET y == [i \in 1..v[q].d |-> x] IN
            Put(q, Set(v[q], k, y), [log[q] EXCEPT ![k] = y], [op |-> "vaddc", q |-> q, k |-> k, x |-> x])
       \/ \E k \in Pick(Orders) :
            Put(q, IF "removeBelow" \in Defects THEN [v[q] EXCEPT !.c = [j \in Orders |-> IF j <= k THEN NONE ELSE @[j]]] ELSE Free(v[q], k),
                [log[q] EXCEPT ![k] = NONE], [op |-> "vrem", q |-> q, k |-> k])
       \/ \E m \in Pick(Orders) : \E x \in Vec(v[q].d) :
            Put(q, StartOrEnd(v[q], x, m),
                [k \in Orders |-> IF k = 0 THEN x ELSE IF k <= m THEN [i \in 1..v[q].d |-> 0] ELSE log[q][k]],
                [op |-> "vstart", q |-> q, k |-> m, x |-> x])
       \/ \E m \in Pick(Orders), x \in Pick(Values) :
            LET y == [i \in 1..v[q].d |-> x] IN
            Put(q, StartOrEnd(v[q], y, m),
                [k \in Orders |-> IF k = 0 THEN y ELSE IF k <= m THEN [i \in 1..v[q].d |-> 0] ELSE log[q][k]],
                [op |-> "vstartc", q |-> q, k |-> m, x |-> x])
       \/ \E r \in Regs \ {q} : Put(r, v[q], log[q], [op |-> "vcopy", q |-> r, r |-> q])
       \/ \E r \in Regs, dims \in Pick(DimLists), m \in Pick(Orders) :
            LET e == [op |-> "vsub", q |-> r, r |-> q, dims |-> dims, k |-> m] IN
            IF ~CanSub(v[q], dims) THEN UNCHANGED <<v, log>> /\ Note(e)
            ELSE dims # <<>> /\ Put(r, SubV(v[q], dims, m),
                   [k \in Orders |-> IF k <= m /\ log[q][k] # NONE THEN [i \in 1..Len(dims) |-> log[q][k][dims[i] + 1]] ELSE NONE], e)
       \/ Emit /\ UNCHANGED <<v, log>> /\
            \/ \E k \in Pick(Orders) : Note([op |-> "vget", r |-> q, k |-> k])
            \/ \E s \in {r \in Regs : v[r].d = v[q].d}, x \in Pick(0..30) : Note([op |-> "vtol", r |-> q, s |-> s, x |-> x])
Finish == Emit /\ Len(hist) = Depth /\ PrintT("HIST " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<v, log>>
Next == ((~Emit \/ Len(hist) < Depth) /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars

LastWriteWins == \A r \in Regs : v[r].c = log[r]
Typed == \A r \in Regs : \A k \in Orders : v[r].c[k] = NONE \/ Len(v[r].c[k]) = v[r].d
NearIsEqualAtZero == \A r, s \in Regs : v[r].d = v[s].d => (Near(v[r], v[s], 0) = (v[r].c = v[s].c))
NearSymmetric == \A r, s \in Regs : v[r].d = v[s].d => (Near(v[r], v[s], 2) = Near(v[s], v[r], 2))
DepthBound == TLCGet("level") < Depth
Bare == <<v, log>>
==================================================================================
