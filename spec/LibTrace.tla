--------------------------------- MODULE LibTrace --------------------------------
(***************************************************************************)
(* Checks what the real library answered (TRACE, one JSON object per line, *)
(* written by harness/libdriver) against the specification.  The registers *)
(* hold what the specification computes, never what the library returned.  *)
(* A line that the specification does not explain is noted in `bad` and    *)
(* the rest of its section (from "start" to "start") is skipped.           *)
(***************************************************************************)
EXTENDS TrajAlgebra, TLC, Json, IOUtils, SequencesExt

VARIABLES l, reg, pr, vr, wr, ar, tm, hs, tags, now, skip, bad
vars == <<l, reg, pr, vr, wr, ar, tm, hs, tags, now, skip, bad>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]

Vx == INSTANCE VertexLib WITH Regs <- 0..9, Depth <- 0, Emit <- FALSE, Dims <- 1..4, Defects <- {}, v <- vr, log <- vr, hist <- bad
Wx == INSTANCE WpLib WITH Regs <- 0..9, Depth <- 0, Emit <- FALSE, Defects <- {}, w <- wr, was <- wr, hist <- bad
Ax == INSTANCE AttLib WITH Regs <- 0..9, Depth <- 0, Emit <- FALSE, Defects <- {}, at <- ar, body <- ar, hist <- bad
Tx == INSTANCE TimerLib WITH Timers <- 0..9, Tags <- {}, Depth <- 0, Emit <- FALSE, Window <- 50, Deltas <- {}, Defects <- {}, log <- hs, hist <- bad

Close(a, b, tol) == a # BAD /\ b # BAD /\ Abs(a - b) <= tol
Ex == INSTANCE EstLib WITH Dists <- {}, Speeds <- {}, Accs <- {}, EstDefects <- {}, a <- l, b <- l, rest <- l, v <- l, acc <- l, kind <- l, ans <- bad
Ox == INSTANCE OptLib WITH MaxK <- 1, Halves <- {}, OptDefects <- {}, prob <- bad, sol <- bad, book <- bad
ISqrt(x) == Ex!ISqrt(x)
SumSq(s) == Sum([i \in 1..Len(s) |-> s[i] * s[i]])

(* ---- trajectories ---- *)
Dump(T) == [n |-> T.n, d |-> T.d, mt |-> MaxTime(T), segs |-> T.segs, ts |-> Times(T)]
UV(T, u, k) == [d |-> T.d, n |-> k + 1, c |-> VAt(T, u, k)]
UVSub(T, u, k, dims) == [d |-> Len(dims), n |-> k + 1, c |-> [j \in 1..(k + 1) |-> <<j - 1, Sub(TEval(T, u, j - 1), dims)>>]]

\* cosine and sine of whole radians, times ten thousand
Cos == <<10000, 5403, -4161, -9900, -6536, 2837, 9602, 7539, -1455, -9111, -8391>>
Sin == <<0, 8415, 9093, 1411, -7568, -9589, -2794, 6570, 9894, 4121, -5440>>
CosOf(x) == Cos[Abs(x) + 1]
SinOf(x) == IF x < 0 THEN -Sin[-x + 1] ELSE Sin[x + 1]
\* yaw in hundred thousandths, up to whole turns
SameAngle(yaw, rad) ==
  yaw # BAD /\ Abs(yaw) <= 314160 /\
  LET d == yaw - rad * 100000
      m == IF d >= 0 THEN (d + 314159) \div 628319 ELSE -((-d + 314159) \div 628319) IN
  Abs(d - (m * 62831853) \div 100) <= 3
StateIs(s, x, u, D) ==
  /\ s.x = [k \in 1..5 |-> SubSeq(x[k], 1, 3)]
  /\ s.u = u
  /\ s.dof = IF D = 6 THEN 6 ELSE 4
  /\ D = 4 => SameAngle(s.yaw, x[1][4]) /\ s.yr = x[2][4] /\ s.ya = x[3][4]
  /\ D = 6 =>
       LET r == SubSeq(x[1], 4, 6)
           w == SubSeq(x[2], 4, 6)
           axes == {i \in 1..3 : r[i] # 0 \/ w[i] # 0} IN
       \* rotations about one of the axes
       (Cardinality(axes) <= 1 /\ \A i \in 1..3 : Abs(r[i]) <= 10) =>
          LET b == IF r[2] # 0 THEN <<CosOf(r[2]), 0, -SinOf(r[2])>>
                   ELSE IF r[3] # 0 THEN <<CosOf(r[3]), SinOf(r[3]), 0>> ELSE <<10000, 0, 0>> IN
          \A i \in 1..3 : Close(s.bx[i], b[i], 2) /\ Close(s.om[i], 100 * w[i], 1)
Five(T, u) == [k \in 1..5 |-> TEval(T, u, k - 1)]
FiveS(S, u) == [k \in 1..5 |-> SEval(S, u, k - 1)]

\* the grid of quarters of a unit: 100 times the value, rounded down (n <= 4)
Grid100(c, k, x) ==
  LET n == Len(c)
      G(i) == Fall(i, k) * c[i + 1] * Pow(4, n - 1 - i + k)      \* Horner in x / 4
      RECURSIVE H(_, _)
      H(i, acc) == IF i < k THEN acc ELSE H(i - 1, acc * x + G(i)) IN
  IF k >= n THEN 0 ELSE
  LET v == H(n - 1, 0)      \* value times 4^(n-1)
      w == Pow(4, n - 1) IN 100 * (v \div w) + (100 * (v % w)) \div w
\* bounds of the magnitude over dimensions dims (from 0) of a segment on [u0, u1]
MagOk(S, k, dims, u0, u1, lo, hi) ==
  LET nd == Len(dims) IN
  \A x \in (4 * u0)..(4 * u1) :
    LET m == SumSq([i \in 1..nd |-> Grid100(S.p[dims[i] + 1], k, x)]) IN
    /\ Max(lo - 2 - nd, 0) * Max(lo - 2 - nd, 0) <= m
    /\ m <= (hi + 2 + nd) * (hi + 2 + nd)
InDims(dims, D) == dims # <<>> /\ \A i \in 1..Len(dims) : dims[i] \in 0..(D - 1)
Attained(x) == Close(x.v, x.at, 2) /\ x.v < 44000
\* a reported extremum of a trajectory: it is on a segment, at a time of that segment
OnSegment(x, T) == x.seg \in 0..(Len(T.segs) - 1) /\ x.t \in 0..(100 * T.segs[x.seg + 1].t)
ExtremaOk(T, k, dims, v) ==
  /\ \A i \in 1..2 : OnSegment(v[i], T) /\ Attained(v[i])
  /\ \A i \in 1..Len(T.segs) : MagOk(T.segs[i], k, dims, 0, T.segs[i].t, v[1].v, v[2].v)

\* limits: the largest speed and acceleration of a trajectory, exactly (n <= 3), squared
AllDims(T) == [i \in 1..T.d |-> i - 1]
PeakSq(T, k) ==
  LET S == {SumSq(SEval(T.segs[i], u, k)) : i \in 1..Len(T.segs), u \in {0}} \cup
           {SumSq(SEval(T.segs[i], T.segs[i].t, k)) : i \in 1..Len(T.segs)} IN
  CHOOSE x \in S : \A y \in S : x >= y
LimOk(T) ==
  LET K == Len(T.segs)
      \* ratio that is needed, in thousandths
      \* magnitudes in hundredths, rounded up
      Mag(k) == LET x == PeakSq(T, k) IN IF x < 200000 THEN ISqrt(x * 10000) + 1 ELSE (ISqrt(x) + 1) * 100
      needv == (Mag(1) * 10) \div e.v + 1
      needa == ISqrt(((Mag(2) * 10) \div e.a + 1) * 1000) + 1
      need == Max(1000, Max(needv, needa)) IN
  /\ e.ok /\ Len(e.ratio) = K
  /\ \A i \in 1..K : Close(e.ratio[i], e.ratio[1], 5) /\ e.ratio[i] >= 1000000
  /\ e.x = [i \in 1..K |-> [u \in 1..(T.segs[i].t + 1) |-> SEval(T.segs[i], u - 1, 0)]]
  /\ e.vm <= e.v * 1000 + 2 * e.v + 5 /\ e.am <= e.a * 1000 + 3 * e.a + 5
  /\ Close(e.sum, 0, 2)
  \* never slower than needed
  /\ T.n <= 3 => e.ratio[1] \div 1000 <= need + need \div 100 + 3
  /\ (T.n <= 3 /\ PeakSq(T, 1) < e.v * e.v /\ PeakSq(T, 2) < e.a * e.a) => e.same

\* stored documents
Keys == {"N", "D", "time", "coefficients"}
SegDoc(s) == /\ Keys \subseteq ToSet(s.has) /\ s.bad = "" /\ s.N >= 1 /\ s.D >= 1 /\ s.u >= 0
             /\ Len(s.p) = s.D /\ \A i \in 1..Len(s.p) : Len(s.p[i]) = s.N
GoodDoc(d) == /\ d.top = "map" /\ d.segs # <<>>
              /\ \A i \in 1..Len(d.segs) : SegDoc(d.segs[i]) /\ d.segs[i].N = d.segs[1].N /\ d.segs[i].D = d.segs[1].D
OfDoc(d) == [n |-> d.segs[1].N, d |-> d.segs[1].D, segs |-> [i \in 1..Len(d.segs) |-> [t |-> d.segs[i].u, p |-> d.segs[i].p]]]

TrajOps == {"new", "eval", "range", "rangef", "sat", "sseg", "srange", "sstart", "swhole", "sfile", "single", "ssingle", "sapp", "app", "add", "addsegs",
            "off", "scale", "copy", "clear", "eq", "vat", "vse", "vall", "vall2", "lim", "mm", "maxva", "smm", "save", "exact", "load"}
\* the registers after a line
NextReg ==
  LET T(x) == reg[x]
      Put(x) == [reg EXCEPT ![e.q] = x] IN
  CASE e.op = "new" -> Put([n |-> e.n, d |-> e.d, segs |-> e.segs])
    [] e.op = "single" -> Put(TSingle(T(e.r), e.k + 1))
    [] e.op = "app" -> Put(TApp(T(e.r), T(e.s)))
    [] e.op = "add" /\ CanAdd(T(e.r), [i \in 1..Len(e.s) |-> T(e.s[i])]) -> Put(TAdd(T(e.r), [i \in 1..Len(e.s) |-> T(e.s[i])]))
    [] e.op = "addsegs" -> Put(TAdd(T(e.q), <<T(e.r)>>))
    [] e.op = "off" /\ CanOff(T(e.q), e.x) -> Put(TOff(T(e.q), e.x))
    [] e.op = "scale" -> Put(TScale(T(e.q), e.a, e.b))
    [] e.op \in {"copy", "save"} -> Put(T(e.r))
    [] e.op = "clear" -> Put(TEmpty)
    [] e.op = "load" /\ GoodDoc(e.doc) -> Put(OfDoc(e.doc))
    [] OTHER -> reg
TrajOk ==
  LET T == reg[e.r]
      U == reg[e.s]
      Q == NextReg[e.q] IN
  CASE e.op \in {"new", "single", "app", "addsegs", "scale", "copy", "clear", "save"} -> e.ok /\ e.v = Dump(Q)
    [] e.op = "eval" -> e.v = TEval(T, e.u, e.k)
    [] e.op = "range" ->
         LET s == RangeTimes(T, e.u0, e.u1, e.du) IN
         /\ e.v = [j \in 1..Len(s) |-> TEval(T, s[j], e.k)]
         /\ e.t = IF e.st THEN s ELSE <<>>
    [] e.op = "rangef" ->     \* steps that no binary fraction is: n samples, the errors in time and value, the last time
         LET lo == e.u0 * 250  hi == Min(e.u1, MaxTime(T)) * 250      \* milliseconds
             m0 == IF lo >= hi THEN 0 ELSE (hi - lo - 1) \div e.a + 1
             m1 == IF lo >= hi THEN 0 ELSE (hi - lo) \div e.a + 1 IN
         /\ e.terr <= 2 /\ e.verr <= 20 /\ e.serr <= 20 /\ e.stime <= 10
         /\ e.n \in {m0, m1}
         /\ e.ns = IF e.u1 <= MaxTime(T) /\ T.d >= 3 THEN e.n ELSE -1
    [] e.op = "sat" -> LET ok == e.u >= 0 /\ e.u <= MaxTime(T) /\ T.d >= 3 IN
                       e.ok = ok /\ Len(e.v) = (IF ok THEN 1 ELSE 0) /\ (ok => StateIs(e.v[1], Five(T, e.u), e.u, T.d))
    [] e.op = "sseg" -> LET S == T.segs[e.k + 1]
                            ok == e.u >= 0 /\ e.u <= S.t /\ T.d >= 3 IN
                        e.ok = ok /\ Len(e.v) = (IF ok THEN 1 ELSE 0) /\ (ok => StateIs(e.v[1], FiveS(S, e.u), e.u, T.d))
    [] e.op \in {"srange", "sstart", "swhole"} ->
         LET a == IF e.op = "swhole" THEN 0 ELSE e.u0
             b == IF e.op = "swhole" THEN MaxTime(T) ELSE IF e.op = "sstart" THEN e.u0 + e.u1 ELSE e.u1
             ok == a >= 0 /\ b <= MaxTime(T) /\ T.d >= 3
             s == RangeTimes(T, a, b, e.du) IN
         /\ e.ok = ok
         /\ ok => Len(e.v) = Len(s) /\ \A j \in 1..Len(s) : StateIs(e.v[j], Five(T, s[j]), s[j], T.d)
    [] e.op = "sfile" ->      \* one row per sample; the last column has the ends of the segments
         LET ok == ~e.bad /\ T.d >= 3
             K == Len(T.segs)
             m == MaxTime(T) * 25 IN
         /\ e.ok = ok
         /\ ok => /\ e.n \in (IF m = 0 THEN {0} ELSE {m, m + 1}) /\ e.rows = Max(e.n, K) /\ e.cols = 27 /\ e.err <= 10
                  /\ e.ends = [j \in 1..K |-> 250 * Sum(SubSeq(Times(T), 1, j))]
    [] e.op = "ssingle" -> LET ok == e.k \in 0..(T.d - 1) IN
         e.ok = ok /\ e.v = IF ok THEN <<TSingle(T, e.k + 1).segs[e.i + 1]>> ELSE <<>>
    [] e.op = "sapp" -> e.ok /\ e.v = <<SApp(T.segs[e.i + 1], U.segs[e.j + 1], Max(T.n, U.n))>>
    [] e.op = "add" -> /\ e.ok = CanAdd(T, [i \in 1..Len(e.s) |-> reg[e.s[i]]])
                       /\ e.v = Dump(Q) /\ (e.q # e.r => e.w = Dump(T))
    [] e.op = "off" -> e.ok = CanOff(reg[e.q], e.x) /\ e.v = Dump(Q)
    [] e.op = "eq" -> e.ok = (T.segs = U.segs) /\ e.v = (T.segs # U.segs)
    [] e.op = "vat" -> e.v = UV(T, e.u, e.k)
    [] e.op = "vse" -> e.v = <<UV(T, 0, e.k), UV(T, MaxTime(T), e.k)>>
    [] e.op = "vall" -> e.ok /\ e.v = [i \in 1..(Len(T.segs) + 1) |-> UV(T, VBorder(T, i), e.k)]
    [] e.op = "vall2" ->
         IF T.d < 4 THEN ~e.ok
         ELSE /\ e.ok
              /\ e.v = [i \in 1..(Len(T.segs) + 1) |-> UVSub(T, VBorder(T, i), e.k, <<1, 2, 3>>)]
              /\ e.w = [i \in 1..(Len(T.segs) + 1) |-> UVSub(T, VBorder(T, i), e.j, <<4>>)]
    [] e.op = "lim" -> LimOk(reg[e.q])
    [] e.op = "mm" -> LET ok == InDims(e.dims, T.d) /\ e.k \in 0..(T.n - 1) IN
                      e.ok = ok /\ (ok => ExtremaOk(T, e.k, e.dims, e.v))
    [] e.op = "smm" ->
         LET S == T.segs[e.i + 1]
             ok == InDims(e.dims, T.d) /\ e.k \in 0..(T.n - 1) /\ e.u0 <= e.u1 IN
         /\ e.ok = ok
         /\ ok => /\ \A i \in 1..2 : Attained(e.v[i]) /\ e.v[i].t \in (100 * e.u0)..(100 * e.u1)
                  /\ MagOk(S, e.k, e.dims, e.u0, e.u1, e.v[1].v, e.v[2].v)
    [] e.op = "maxva" ->
         /\ e.ok
         /\ \A i \in 1..Len(T.segs) : \A k \in 1..2 : MagOk(T.segs[i], k, AllDims(T), 0, T.segs[i].t, 0, e.v[k])
         /\ T.n = 3 => \A k \in 1..2 : Close(e.v[k], ISqrt(PeakSq(T, k) * 100) * 10, 12)
    [] e.op = "exact" -> e.ok /\ e.tm /\ e.err = 0 /\ (e.kind = "node" => e.same)
    [] e.op = "load" -> IF GoodDoc(e.doc) THEN e.ok /\ e.v = Dump(Q) ELSE ~e.ok
    [] OTHER -> FALSE

(* ---- polynomials ---- *)
PolyOps == {"pnew", "padd", "paddto", "pmul", "pconv", "psc", "pder", "ppad", "poff", "pts", "pset", "pev", "pevv", "peq", "pbase", "proots", "pmm", "pmmc"}
NextPoly ==
  LET P(x) == pr[x]
      Put(x) == [pr EXCEPT ![e.q] = x] IN
  CASE e.op \in {"pnew", "pset"} -> Put(e.p)
    [] e.op = "padd" -> Put(PAdd(P(e.r), P(e.s)))
    [] e.op = "paddto" -> Put(PAdd(P(e.q), P(e.r)))
    [] e.op \in {"pmul", "pconv"} -> Put(PMul(P(e.r), P(e.s)))
    [] e.op = "psc" -> Put(PScal(P(e.r), e.x))
    [] e.op = "ppad" -> Put(IF e.n >= Len(P(e.r)) THEN PPad(P(e.r), e.n) ELSE P(e.r))
    [] e.op = "poff" -> Put(POff(P(e.q), e.x))
    [] e.op = "pts" -> Put(PTime(P(e.q), e.a, e.b))
    [] OTHER -> pr
RECURSIVE Degree(_)
Degree(c) == IF c = <<>> THEN -1 ELSE IF Last(c) # 0 THEN Len(c) - 1 ELSE Degree(Front(c))
\* how often u is a root
RECURSIVE Mult(_, _, _)
Mult(c, u, k) == IF k > Degree(c) \/ PEval(c, u, k) # 0 THEN k ELSE Mult(c, u, k + 1)
RootsOk(c) ==
  LET D == Degree(c)
      n == Len(e.v) IN
  IF D <= 0 THEN n = 0 \/ ~e.ok
  ELSE /\ e.ok /\ n = D
       /\ \A i \in 1..n : e.v[i][1] # BAD /\ e.v[i][2] # BAD
       \* every whole root is reported, as often as it is one
       /\ \A u \in -12..12 : LET m == Mult(c, u, 0) IN
             Cardinality({i \in 1..n : Abs(e.v[i][1] - 100 * u) <= (IF m > 2 THEN 20 ELSE IF m = 2 THEN 3 ELSE 1) /\ Abs(e.v[i][2]) <= (IF m > 2 THEN 20 ELSE IF m = 2 THEN 3 ELSE 1)}) >= m
       \* Vieta: their sum is the second coefficient's, complex ones come in pairs
       /\ LET s == Sum([i \in 1..n |-> e.v[i][1]]) IN Abs(s * c[D + 1] + 100 * c[D]) <= Abs(c[D + 1]) * (n + 1)
       /\ Abs(Sum([i \in 1..n |-> e.v[i][2]])) <= n
       /\ \A i \in 1..n : Abs(e.v[i][2]) > 25 => \E j \in 1..n : Close(e.v[j][1], e.v[i][1], 2) /\ Close(e.v[j][2], -e.v[i][2], 2)
       \* where the sign changes there is a real root
       /\ \A u \in -12..11 : (PEval(c, u, 0) < 0 /\ PEval(c, u + 1, 0) > 0) \/ (PEval(c, u, 0) > 0 /\ PEval(c, u + 1, 0) < 0) =>
             \E i \in 1..n : e.v[i][2] = 0 /\ e.v[i][1] \in (100 * u)..(100 * u + 100)
       \* and a simple real root is a place where the sign changes: no more of them than that
       /\ \A u \in -12..11 : (\A k \in 0..D : (PEval(c, u, k) > 0) = (PEval(c, u + 1, k) > 0) /\ PEval(c, u, k) # 0 /\ PEval(c, u + 1, k) # 0) =>
             \A i \in 1..n : e.v[i][2] = 0 => e.v[i][1] \notin (100 * u + 1)..(100 * u + 99)
PBoundsOk(c, k, v) ==
  /\ \A i \in 1..2 : Close(v[i].v, v[i].at, 2) /\ v[i].t \in (100 * e.u0)..(100 * e.u1)
  /\ \A x \in (4 * e.u0)..(4 * e.u1) : LET g == Grid100(c, k, x) IN v[1].v - 2 <= g /\ g <= v[2].v + 2
PolyOk ==
  LET P == pr[e.r]
      Q == NextPoly[e.q] IN
  CASE e.op \in {"pnew", "pset", "padd", "paddto", "psc", "poff", "pts"} -> e.ok /\ e.v = Q
    [] e.op \in {"pmul", "pconv"} -> e.ok /\ e.v = Q /\ e.n = Len(Q)
    [] e.op = "ppad" -> e.v = Q /\ e.n2 = Len(Q) /\ e.ret = (e.n >= Len(P))
    [] e.op = "pder" -> e.v = PDer(P, e.k)
    [] e.op = "pev" -> e.v = PEval(P, e.u, e.k)
    [] e.op = "pevv" -> e.v = [k \in 1..e.k |-> PEval(P, e.u, k - 1)]
    [] e.op = "peq" -> e.ok = (P = pr[e.s]) /\ e.v = (P # pr[e.s])
    [] e.op = "pbase" -> e.v = PBase(e.n, e.k, e.u)
    [] e.op = "proots" -> RootsOk(PDer(P, e.k))
    [] e.op = "pmm" -> LET ok == e.u0 <= e.u1 /\ e.k \in 0..(Len(P) - 1) IN e.ok = ok /\ (ok => PBoundsOk(P, e.k, e.v))
    [] e.op = "pmmc" -> LET ok == e.u0 <= e.u1 /\ e.k \in 0..(Len(P) - 1) IN
         e.ok = ok /\ e.ok2 = (e.u0 <= e.u1) /\ (ok => PBoundsOk(P, e.k, e.v) /\ PBoundsOk(P, e.k, e.w))
    [] OTHER -> FALSE

(* ---- vertices ---- *)
VertexOps == {"vsq", "vrand", "vnew", "vadd", "vaddc", "vrem", "vstart", "vstartc", "vget", "vcopy", "vtol", "vsub"}
Same(d, x) == [i \in 1..d |-> x]
NextVertex ==
  LET W == vr[e.q]
      Put(x) == [vr EXCEPT ![e.q] = x] IN
  CASE e.op = "vnew" -> Put(Vx!Fresh(e.d))
    [] e.op = "vadd" -> Put(Vx!Set(W, e.k, e.x))
    [] e.op = "vaddc" -> Put(Vx!Set(W, e.k, Same(W.d, e.x)))
    [] e.op = "vrem" -> Put(Vx!Free(W, e.k))
    [] e.op = "vstart" -> Put(Vx!StartOrEnd(W, e.x, e.k))
    [] e.op = "vstartc" -> Put(Vx!StartOrEnd(W, Same(W.d, e.x), e.k))
    [] e.op = "vcopy" -> Put(vr[e.r])
    [] e.op = "vsub" /\ Vx!CanSub(vr[e.r], e.dims) -> Put(Vx!SubV(vr[e.r], e.dims, e.k))
    [] OTHER -> vr
VDump(w) == [d |-> w.d, n |-> Len(Vx!Pairs(w)), c |-> Vx!Pairs(w)]
\* around a square, beginning and ending at rest in its first corner
SquareOf(x, a, rounds, k) ==
  LET P(i, j) == <<x[1] + i * a, x[2] + j * a, x[3]>>
      pts == <<P(-1, -1), P(-1, 1), P(1, 1), P(1, -1)>>
      n == 4 * rounds + 1 IN
  [m \in 1..n |-> LET p == pts[((m - 1) % 4) + 1] IN
     VDump(IF m = 1 \/ m = n THEN Vx!StartOrEnd(Vx!Fresh(3), p, k) ELSE Vx!Set(Vx!Fresh(3), 0, p))]
\* somewhere in the box, 20 cm apart, at rest at both ends, the same for the same seed
RandomOk ==
  LET n == e.n + 1
      D == Len(e.lo) IN
  /\ e.same /\ Len(e.v) = n
  /\ \A m \in 1..n : LET x == e.v[m] IN
       /\ x.d = D /\ Len(x.p) = D /\ x.z /\ x.keys = [i \in 1..(IF m = 1 \/ m = n THEN e.k + 1 ELSE 1) |-> i - 1]
       /\ \A i \in 1..D : 250 * e.lo[i] - 1 <= x.p[i] /\ x.p[i] <= 250 * e.hi[i] + 1
  /\ \A m \in 2..n : SumSq([i \in 1..D |-> e.v[m].p[i] - e.v[m - 1].p[i]]) >= 197 * 197

VertexOk ==
  LET W == vr[e.r]
      Q == NextVertex[e.q] IN
  CASE e.op \in {"vnew", "vadd", "vaddc", "vstart", "vstartc", "vcopy"} -> e.v = VDump(Q)
    [] e.op = "vrem" -> e.ok = (vr[e.q].c[e.k] # <<>>) /\ e.v = VDump(Q)
    [] e.op = "vget" -> LET has == W.c[e.k] # <<>> IN e.ok = has /\ e.has = has /\ e.v = IF has THEN W.c[e.k] ELSE <<77, 78>>
    [] e.op = "vsq" -> e.v = SquareOf(e.x, e.a, e.n, e.k)
    [] e.op = "vrand" -> RandomOk
    [] e.op = "vtol" -> e.ok = Vx!Near(W, vr[e.s], e.x)
    [] e.op = "vsub" -> LET ok == Vx!CanSub(W, e.dims) IN e.ok = ok /\ (ok => e.v = VDump(Q))
    [] OTHER -> FALSE

(* ---- dynamic waypoints ---- *)
WpOps == {"wnew", "wdef", "wreset", "wcon", "wtime", "widx", "wdis", "wname", "wcopy", "wkeep", "wmove", "wget", "wcomp"}
NextWp ==
  LET Put(x) == [wr EXCEPT ![e.q] = x] IN
  CASE e.op = "wnew" -> Put(Wx!At(e.x, e.c, e.name, e.i))
    [] e.op = "wdef" -> Put(Wx!Bare)
    [] e.op = "wreset" -> Put(Wx!Reset(wr[e.q], e.x))
    [] e.op = "wcon" -> Put(Wx!Constrain(wr[e.q], e.k, e.x))
    [] e.op = "wtime" -> Put(Wx!Time(wr[e.q], e.t))
    [] e.op = "widx" -> Put([wr[e.q] EXCEPT !.idx = e.i])
    [] e.op = "wdis" -> Put([wr[e.q] EXCEPT !.idx = @ + e.i])
    [] e.op = "wname" -> Put([wr[e.q] EXCEPT !.name = e.name])
    [] e.op = "wcopy" -> Put(wr[e.r])
    [] e.op = "wkeep" -> Put(Wx!Keep(wr[e.q]))
    [] e.op = "wmove" -> Put(Wx!Move(wr[e.q], e.x, e.a))
    [] OTHER -> wr
WpOk ==
  LET q == wr[e.r]
      bs == q.bends
      n == Len(bs)
      edge == \E k \in 1..n : Wx!OnEdge(bs[k], e.u)
      far == \A k \in 1..n : Wx!Far(bs[k], e.u)
      nw == Wx!Narrow(bs)
      RECURSIVE ConsOf(_)
      ConsOf(k) == IF k > 3 THEN <<>> ELSE (IF q.c[k] = <<>> THEN <<>> ELSE <<<<k, q.c[k]>>>>) \o ConsOf(k + 1)
      all == <<<<0, q.cur>>>> \o ConsOf(1) IN
  CASE e.op = "wget" -> /\ e.org = q.org /\ e.cur = q.cur /\ e.t = q.t /\ e.idx = q.idx /\ e.name = q.name
                        /\ e.has = (bs # <<>>) /\ e.v = [d |-> 3, n |-> Len(all), c |-> all]
    [] e.op = "wcomp" -> \A i \in 1..3 :
         LET big == Wx!Size(bs, i) IN
         /\ edge \/ (e.x[i] # BAD /\ Wx!Range(bs, i, e.u, FALSE) - n <= e.x[i] /\ e.x[i] <= Wx!Range(bs, i, e.u, TRUE) + n)
         /\ edge \/ (Close(e.x[i], e.y[i], 1 + n) /\ Close(e.x1[i], -e.y1[i], 1 + n))
         /\ (e.u = q.t) => Close(e.x1[i], 0, 1)
         /\ far => e.x1[i] = 0 /\ e.x2[i] = 0
         \* the derivatives are those of what is added
         /\ (~edge /\ Wx!Dated(bs)) =>
              IF nw = 0 THEN e.x1[i] = 0 /\ e.x2[i] = 0
              ELSE /\ Close(e.x1[i], e.n1[i], 2 + (big * 12) \div (nw * 20))
                   /\ Close(e.x2[i], e.n2[i], 2 + (big * 144) \div (nw * nw * 20))
    [] OTHER -> TRUE

(* ---- attitudes and full states ---- *)
AttOps == {"anew", "amove", "ayaw", "arate", "aget", "aconv", "amat", "askew", "aomega", "arotor", "agrav", "anano"}
NextAtt ==
  LET Put(x) == [ar EXCEPT ![e.q] = x] IN
  CASE e.op = "anew" -> Put(Ax!State(e.o, e.v))
    [] e.op = "amove" -> Put(Ax!Moved(ar[e.r], e.o, e.x))
    [] e.op = "ayaw" -> Put(Ax!Yawed(ar[e.q], e.a, e.b))
    [] e.op = "arate" -> Put(Ax!Rated(ar[e.q], e.i, e.x))
    [] OTHER -> ar
\* x is 10000 * y / den, give or take tol
Tenth(x, y, den, tol) == x # BAD /\ Abs(x) <= 2000000000 \div den - 2 * tol /\ Abs(x * den - 10000 * y) <= tol * den
Vec4(x, y, den, tol) == \A i \in 1..3 : Tenth(x[i], y[i], den, tol)
Mat4(x, M, den, tol) == \A i \in 1..3 : Vec4(x[i], M[i], den, tol)
\* cs: cosine and sine of the angle whose cosine and sine are proportional to b and a (any angle if both are 0)
Angle(cs, a, b) == /\ cs[1] # BAD /\ cs[2] # BAD
                   /\ (a # 0 \/ b # 0) => (Abs(cs[2] * b - cs[1] * a) <= 2 * (Abs(a) + Abs(b)) /\ cs[2] * a + cs[1] * b > 0)
YawMat(a, b) == Ax!Mat(<<a, 0, 0, b>>)
AttOk ==
  CASE e.op = "aget" ->
         LET s == ar[e.r]  M == Ax!Mat(s.o)  n == Ax!Norm(s.o) IN
         /\ Mat4(e.mo, M, n, 2) /\ \A i \in 1..7 : Vec4(e.vs[i], s.v[i], s.den, 2)
         /\ Angle(e.yaw, M[2][1], M[1][1]) /\ Tenth(e.yr, s.v[6][3], s.den, 2) /\ Tenth(e.ya, s.v[7][3], s.den, 2)
         /\ (s.st = 1) => (e.ns = 5 /\ e.dof = 4)
    [] e.op = "aconv" ->
         LET o == e.o  M == Ax!Mat(o)  n == Ax!Norm(o)
             lock == Abs(M[3][1]) = n IN
         /\ e.same /\ Angle(e.yaw, M[2][1], M[1][1])
         \* roll, pitch, yaw; where pitch is a quarter turn the others may be anything
         /\ Angle(e.eu[1], M[3][2], M[3][3]) /\ Angle(e.eu[3], M[2][1], M[1][1])
         /\ Tenth(e.eu[2][2], -M[3][1], n, 2) /\ e.eu[2][1] # BAD /\ e.eu[2][1] >= -1
         /\ ~lock => \A i \in 1..2 : Close(e.my[i][1], e.yaw[i], 2) /\ Close(e.my[3][i], 0, 1)
         /\ Close(e.my[3][3], 10000, 1)
         \* the rotation vector
         /\ e.ok /\ Mat4(e.back, M, n, 3)
         /\ LET r == e.rv  v == <<o[2], o[3], o[4]>> IN
            /\ \A i \in 1..3 : r[i] # BAD /\ Abs(r[i]) <= 31417
            /\ \A i, j \in 1..3 : Abs(r[i] * v[j] - r[j] * v[i]) <= 12 * (Abs(v[i]) + Abs(v[j]))     \* along the axis
            /\ ~Ax!HalfTurn(o) => \A i \in 1..3 : r[i] * v[i] * (IF o[1] > 0 THEN 1 ELSE -1) >= -20
         \* a velocity seen from the vehicle and back
         /\ Vec4(e.vb, Ax!Ap(Ax!Tr(M), e.x), n, 2) /\ Vec4(e.vw, e.x, 1, 2)
         /\ Mat4(e.oy, YawMat(10, e.x[1]), 100 + e.x[1] * e.x[1], 2) /\ e.orr = <<0, 0, 10000 * e.x[2]>>
    [] e.op = "amat" -> LET rot == Ax!IsRotation(e.m, e.den) IN e.rot = rot /\ e.ok = rot /\ (rot => Mat4(e.back, e.m, e.den, 3))
    [] e.op = "askew" -> LET k == Ax!IsSkew(e.m) IN
         e.ok = k /\ e.v = (IF k THEN <<e.m[3][2], e.m[1][3], e.m[2][1]>> ELSE <<0, 0, 0>>) /\ e.sk = Ax!Skew(e.x)
    [] e.op = "aomega" -> e.e1 # BAD /\ e.e2 # BAD /\ e.e1 <= 10 /\ e.e2 <= 10
    [] e.op = "arotor" ->
         LET J(w) == [i \in 1..3 |-> e.x[i] * w[i]]
             tq == Ax!Add(J(e.z), Ax!Cross(e.y, J(e.y)))
             th == e.m * ISqrt(SumSq(e.f)) IN
         e.v = [i \in 1..6 |-> e.a[i][1] * tq[1] + e.a[i][2] * tq[2] + e.a[i][3] * tq[3] + e.a[i][4] * th]
    [] e.op = "agrav" ->
         LET k == Abs(e.k)
             s4 == <<0, 1, 3, 4>>[k + 1]  t4 == <<0, 3, 3, 0>>[k + 1] IN       \* four times the squared sines
         Close(e.v, 9780327 + (51859 * s4) \div 4 - (57 * t4) \div 4 - (30857 * e.h) \div 10000, 4)
    [] e.op = "anano" -> Close(e.v, e.x, 1) /\ Close(e.b, e.x, 1)
    [] OTHER -> TRUE

(* ---- timers ---- *)
TimerOps == {"clock", "tnew", "tnewh", "tstart", "tstop", "tdel", "treset", "tq"}
Asked(g) == IF g \in DOMAIN tags THEN UNCHANGED <<tags, hs>>
            ELSE tags' = [x \in DOMAIN tags \cup {g} |-> IF x = g THEN Len(hs) + 1 ELSE tags[x]] /\ hs' = Append(hs, Tx!NoAcc)
StatsOk(s, a) ==
  /\ s # <<>> /\ s[1] = a.n
  /\ IF a.n = 0 THEN Len(s) = 2 /\ s[2] = 0
     ELSE LET k == Len(a.win)
              m == a.wsum \div k
              lo == Tx!MinOf(a.win)  hi == Tx!MaxOf(a.win)
              var == SumSq([i \in 1..k |-> a.win[i] - m]) \div k IN
          /\ Len(s) = 7
          /\ Close(s[2], a.sum, 1) /\ Close(s[3], a.min, 1) /\ Close(s[4], a.max, 1)
          /\ Abs(s[5] * a.n - a.sum) <= a.n
          /\ hi - lo <= 6000 => Close(s[6], var, 2 + var \div 1000000)
          /\ a.wsum > 0 => Abs(s[7] * k - a.wsum) <= k
          /\ a.wsum = 0 => s[7] \in {-1, 0}
TimerStep ==
  CASE e.op = "clock" -> now' = e.x /\ UNCHANGED <<tm, hs, tags>>
    [] e.op \in {"tnew", "tnewh"} ->
         /\ tm' = [tm EXCEPT ![e.q] = [st |-> IF e.stopped THEN "idle" ELSE "run", h |-> IF e.tag \in DOMAIN tags THEN tags[e.tag] ELSE Len(hs) + 1, t0 |-> now]]
         /\ Asked(e.tag) /\ UNCHANGED now
    [] e.op = "tstart" -> tm' = [tm EXCEPT ![e.q].st = "run", ![e.q].t0 = now] /\ UNCHANGED <<hs, tags, now>>
    [] e.op \in {"tstop", "tdel"} ->
         /\ tm' = [tm EXCEPT ![e.q].st = IF e.op = "tdel" THEN "none" ELSE "idle"]
         /\ hs' = IF tm[e.q].st = "run" THEN [hs EXCEPT ![tm[e.q].h] = Tx!AddTo(@, now - tm[e.q].t0)] ELSE hs
         /\ UNCHANGED <<tags, now>>
    [] e.op = "treset" -> tags' = [g \in {} |-> 0] /\ UNCHANGED <<tm, hs, now>>
    [] e.op = "tq" -> Asked(e.tag) /\ UNCHANGED <<tm, now>>
TimerOk ==
  CASE e.op = "clock" -> TRUE
    [] e.op \in {"tnew", "tnewh"} -> e.v = ~e.stopped
    [] e.op = "tstart" -> e.v = TRUE
    [] e.op \in {"tstop", "tdel"} -> e.v = FALSE
    [] e.op = "treset" -> e.v = 0
    [] e.op = "tq" -> LET a == IF e.tag \in DOMAIN tags THEN hs[tags[e.tag]] ELSE Tx!NoAcc IN
         StatsOk(e.v, a) /\ StatsOk(e.w, a) /\ e.tag2 /\ e.pc = a.n /\ e.nt = Cardinality(DOMAIN tags \cup {e.tag})

\* a stopwatch: every third reading starts it again
MiniOk == LET start(i) == LET S == {j \in 1..(i - 1) : j % 3 = 0} IN IF S = {} THEN 0 ELSE e.x[CHOOSE j \in S : \A k \in S : j >= k] IN
          e.v = [i \in 1..Len(e.x) |-> IF i % 3 = 0 THEN -1 ELSE e.x[i] - start(i)]

(* ---- estimates of segment times: ten thousandths of a second, limits in hundredths ---- *)
Dist(p, q) == ISqrt(SumSq([i \in 1..Len(p) |-> p[i] - q[i]]))
Whole(p, q) == LET d == Dist(p, q) IN d * d = SumSq([i \in 1..Len(p) |-> p[i] - q[i]])
EstOk ==
  LET n == Len(e.pts) IN
  /\ Len(e.v) = n - 1
  /\ \A i \in 1..(n - 1) :
       LET d == Dist(e.pts[i], e.pts[i + 1])
           rest == e.con[i] = 1 \/ e.con[i + 1] = 1
           whole == Whole(e.pts[i], e.pts[i + 1]) IN
       /\ e.v[i] # BAD /\ e.v[i] >= Max(Ex!Floor, Ex!Cruise(d, e.v0)) - 2
       /\ (e.kind # "vr" /\ whole) => Close(e.v[i], Ex!Steady(d, e.v0, e.a, rest), 3)
       /\ (e.kind = "vr" /\ whole) => Close(e.v[i], Ex!Ramped(d, e.v0, e.a), IF Ex!Reaches(d, e.v0, e.a) THEN 3 ELSE 40)

(* ---- the optimiser ---- *)
At0(b, i, k) == b[i][1][k + 1]          \* k-th derivative at the start of segment i, in thousandths
At1(b, i, k) == b[i][2][k + 1]
RECURSIVE Con(_, _)                     \* the constraints of a vertex on derivatives below h
Con(v, h) == IF v = <<>> THEN <<>> ELSE (IF Head(v)[1] < h THEN <<Head(v)>> ELSE <<>>) \o Con(Tail(v), h)
Tol(x) == 6 + Abs(x) \div 20000
NearVec(x, y, mul) == Len(x) = Len(y) /\ \A d \in 1..Len(x) : Close(x[d], y[d] * mul, Tol(x[d]))
Joined(b, i, h) == \A k \in 0..(h - 1) : \A d \in 1..Len(At0(b, i, k)) : Close(At1(b, i - 1, k)[d], At0(b, i, k)[d], Tol(At0(b, i, k)[d]))
Kept(b, K, h) ==
  \A i \in 1..(K + 1) : \A j \in 1..Len(Con(e.verts[i], h)) :
     LET c == Con(e.verts[i], h)[j] IN
     /\ i <= K => NearVec(At0(b, i, c[1]), c[2], 1000)
     /\ i >= 2 => NearVec(At1(b, i - 1, c[1]), c[2], 1000)
\* integral of the product of two polynomials, times 2520 (Len <= 5)
PInt(p, t) == LET q == PMul(p, p) IN Sum([m \in 1..Len(q) |-> q[m] * Pow(t, m) * (2520 \div m)])
\* value of a derivative fixed at vertex i, in dimension d
Fix(i, k, d) == LET c == e.verts[i] IN c[CHOOSE j \in 1..Len(c) : c[j][1] = k][2][d]
Spline ==
  LET t1 == e.ts[1]  t2 == e.ts[2]
      u(d) == Ox!Middle(t1, t2, Fix(1, 0, d), Fix(1, 1, d), Fix(2, 0, d), Fix(3, 0, d), Fix(3, 1, d)) IN
  << [t |-> t1, p |-> [d \in 1..e.d |-> Ox!Cubic(t1, Fix(1, 0, d), Fix(1, 1, d), Fix(2, 0, d), u(d))]],
     [t |-> t2, p |-> [d \in 1..e.d |-> Ox!Cubic(t2, Fix(2, 0, d), u(d), Fix(3, 0, d), Fix(3, 1, d))]] >>
OptOk ==
  LET K == Len(e.ts)
      h == e.n \div 2
      fix == [i \in 1..(K + 1) |-> {Con(e.verts[i], h)[j][1] : j \in 1..Len(Con(e.verts[i], h))}]
      lin == e.kind \in {"lin", "perturb"} IN
  /\ e.ok
  /\ Len(e.b) = K /\ \A i \in 2..K : Joined(e.b, i, h)
  /\ lin => /\ Kept(e.b, K, h)
            /\ e.v.n = e.n /\ e.v.d = e.d /\ e.v.ts = e.ts /\ e.v.mt = Sum(e.ts)
            /\ e.nx = Ox!Fixed(fix, h) /\ e.nf = Cardinality(Ox!Free(fix, h)) /\ e.na = e.n * K
            /\ \A i \in 1..Len(e.pert) : e.pert[i] = 1
            /\ e.kind = "lin" \/ e.cost = BAD \/ e.icost = BAD \/ e.icost > 1000000000 \/ Close(e.cost, 2 * e.icost, 2 + e.cost \div 1000)
            /\ e.kind = "perturb" => e.ind = 1
            \* extrema: in range, attained, not exceeded by any sample; all candidates are points of the solution
            /\ \A k \in 1..3 : LET x == e.mx[k] IN
                 /\ x.in /\ x.cand /\ x.smp
                 /\ x.v = BAD \/ x.best = BAD \/ (Close(x.v, x.at, 2 + x.v \div 10000) /\ x.best <= x.v + 2 + x.v \div 10000)
            \* the matrices are inverse to each other, symmetric, a selection, and give the cost (1e-8, relative)
            /\ e.mat.ai <= 100 /\ e.mat.sym <= 100 /\ e.mat.mp <= 1 /\ e.mat.cost <= 1000 /\ e.mat.sel
  \* cubics with a free velocity in the middle: the solution of least velocity is known
  /\ (lin /\ "spline" \in DOMAIN e) => e.v.segs = Spline
  \* a problem that leaves nothing free has one solution
  /\ (lin /\ "sol" \in DOMAIN e) => e.v.segs = e.sol
  /\ ~lin => /\ e.k = K /\ e.n2 = e.n /\ e.d2 = e.d /\ e.pos
             /\ \A i \in 1..(K + 1) : \A j \in 1..Len(Con(e.verts[i], 1)) :
                  LET c == Con(e.verts[i], 1)[j] IN
                  (i <= K => NearVec(At0(e.b, i, 0), c[2], 1000)) /\ (i >= 2 => NearVec(At1(e.b, i - 1, 0), c[2], 1000))
             /\ Close(e.mt, Sum(e.st), K)

(* ---- the run ---- *)
Fresh == /\ reg' = [i \in 0..9 |-> TEmpty] /\ pr' = [i \in 0..9 |-> <<>>] /\ vr' = [i \in 0..9 |-> Vx!No] /\ wr' = [i \in 0..9 |-> Wx!No] /\ ar' = [i \in 0..9 |-> Ax!No]
         /\ tm' = [i \in 0..9 |-> Tx!Idle] /\ hs' = <<>> /\ tags' = [g \in {} |-> 0] /\ now' = 0
Init == /\ l = 1 /\ skip = FALSE /\ bad = <<>>
        /\ reg = [i \in 0..9 |-> TEmpty] /\ pr = [i \in 0..9 |-> <<>>] /\ vr = [i \in 0..9 |-> Vx!No] /\ wr = [i \in 0..9 |-> Wx!No] /\ ar = [i \in 0..9 |-> Ax!No]
        /\ tm = [i \in 0..9 |-> Tx!Idle] /\ hs = <<>> /\ tags = [g \in {} |-> 0] /\ now = 0

Answered == "exc" \notin DOMAIN e
KeepT == UNCHANGED <<tm, hs, tags, now>>
KeepAll == UNCHANGED <<reg, pr, vr, wr, ar>> /\ KeepT
Judge(ok) == IF ok THEN skip' = FALSE /\ bad' = bad ELSE skip' = TRUE /\ bad' = Append(bad, l)
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ IF e.op = "start" THEN Fresh /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN KeepAll /\ UNCHANGED <<skip, bad>>
     ELSE IF ~Answered \/ e.op = "crash" THEN KeepAll /\ Judge(FALSE)
     ELSE IF e.op \in TrajOps THEN reg' = NextReg /\ UNCHANGED <<pr, vr, wr, ar>> /\ KeepT /\ Judge(TrajOk)
     ELSE IF e.op \in PolyOps THEN pr' = NextPoly /\ UNCHANGED <<reg, vr, wr, ar>> /\ KeepT /\ Judge(PolyOk)
     ELSE IF e.op \in VertexOps THEN vr' = NextVertex /\ UNCHANGED <<reg, pr, wr, ar>> /\ KeepT /\ Judge(VertexOk)
     ELSE IF e.op \in WpOps THEN wr' = NextWp /\ UNCHANGED <<reg, pr, vr, ar>> /\ KeepT /\ Judge(IF e.op \in {"wget", "wcomp"} THEN WpOk ELSE TRUE)
     ELSE IF e.op \in AttOps THEN ar' = NextAtt /\ UNCHANGED <<reg, pr, vr, wr>> /\ KeepT /\ Judge(AttOk)
     ELSE IF e.op \in TimerOps THEN TimerStep /\ UNCHANGED <<reg, pr, vr, wr, ar>> /\ Judge(TimerOk)
     ELSE KeepAll /\ Judge(CASE e.op = "est" -> EstOk [] e.op = "opt" -> OptOk [] e.op = "mini" -> MiniOk [] e.op = "end" -> TRUE)
Spec == Init /\ [][Step]_vars
Report == l > Len(Trace) => PrintT(<<"RESULT", Len(Trace), bad>>)
==================================================================================
