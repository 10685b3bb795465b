--------------------------------- MODULE EstLib ---------------------------------
(***************************************************************************)
(* Estimates of the time a segment takes (L10), in ten thousandths of a    *)
(* second, for a whole distance, a speed and an acceleration in            *)
(* hundredths.  LibTrace uses the same operators on the answers of the     *)
(* library; checked here is what a caller relies on.                       *)
(***************************************************************************)
EXTENDS TrajAlgebra, TLC
CONSTANTS Dists, Speeds, Accs, EstDefects
VARIABLES a, b, rest, v, acc, kind, ans
vars == <<a, b, rest, v, acc, kind, ans>>

RECURSIVE Isqrt0(_, _)
Isqrt0(x, g) == IF g * g <= x /\ x < (g + 1) * (g + 1) THEN g ELSE
                LET h == (g + x \div g) \div 2 IN Isqrt0(x, IF h = g THEN g - 1 ELSE h)
ISqrt(x) == IF x = 0 THEN 0 ELSE IF x < 4 THEN 1 ELSE IF x < 9 THEN 2 ELSE Isqrt0(x, IF x > 2000000000 THEN 44721 ELSE Min(x, 46340) \div 2 + 1)

Floor == 1000                                  \* no segment is shorter than a tenth of a second
Cruise(d, w) == (d * 1000000) \div w
Ramp(w, c) == (w * 10000) \div c
Steady(d, w, c, r) == Max(IF "noFloor" \in EstDefects THEN 0 ELSE Floor, Cruise(d, w) + IF r THEN Ramp(w, c) ELSE 0)
Reaches(d, w, c) == d * c * 100 >= w * w       \* the speed is reached before braking
Short(d, c) == LET q == d * 1000000 IN 20 * ISqrt((q \div c) * 100 + ((q % c) * 100) \div c)
Ramped(d, w, c) == Max(Floor, IF Reaches(d, w, c) THEN Cruise(d, w) + Ramp(w, c) ELSE Short(d, c))
Time(k, d, w, c, r) == IF k = "ramp" THEN Ramped(d, w, c) ELSE Steady(d, w, c, r)

Init == a \in Dists /\ b \in Dists /\ rest \in BOOLEAN /\ v \in Speeds /\ acc \in Accs /\ kind \in {"steady", "ramp"} /\ ans = <<>>
Next == /\ ans = <<>>
        /\ ans' = <<Time(kind, a, v, acc, rest), Time(kind, b, v, acc, rest)>>
        /\ UNCHANGED <<a, b, rest, v, acc, kind>>
Spec == Init /\ [][Next]_vars
Positive == ans # <<>> => ans[1] >= Floor
NeverFasterThanAllowed == ans # <<>> => ans[1] + 1 >= Cruise(a, v)
Monotone == ans # <<>> /\ a <= b => ans[1] <= ans[2] + 20
RestIsNotShorter == ans # <<>> /\ kind = "steady" => Steady(a, v, acc, TRUE) >= Steady(a, v, acc, FALSE)
==================================================================================
