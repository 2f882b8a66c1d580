------------------------------ MODULE LayoutMC ------------------------------
(* The rules of Layout against their meaning: all ways to give N cells to the segments, with the spacing kept,  *)
(* are compared by what they cost at each priority; the best ones are exactly the ones that follow the rules.   *)
EXTENDS Layout
CONSTANTS MAXN, VALS, NMAX, BUG
VARIABLES cs, N, flex, s

Kinds == {<<k, v, 0>> : k \in {"len", "min", "max"}, v \in VALS} \cup {<<"fill", 1, 0>>} \cup {<<"ratio", 1, 2>>, <<"pct", 100, 0>>}
Lists == UNION {[1 .. n -> Kinds] : n \in 1 .. NMAX}

(* costs per priority 1 .. 7, in half cells *)
Abs(x) == IF x < 0 THEN -x ELSE x
Cost(x, l) ==
    LET one(i) == LET c == cs[i]  d == Demand(c, N)  dev == Abs(2 * x[i] - (2 * d[1]) \div d[2]) IN
            CASE l = 1 -> IF c[1] = "min" THEN 2 * Max2(0, c[2] - x[i]) ELSE IF c[1] = "max" THEN 2 * Max2(0, x[i] - c[2]) ELSE 0
              [] l = 6 -> IF Growing(c, flex) THEN 2 * (N - x[i]) ELSE 0
              [] OTHER -> IF Level(c, flex) = l THEN dev ELSE 0
    IN  IF l = 7 THEN 0 ELSE SumSeq([i \in DOMAIN cs |-> one(i)])
Costs(x) == [l \in 1 .. 6 |-> Cost(x, l)]
Better(a, b) == \E l \in 1 .. 6 : a[l] < b[l] /\ \A k \in 1 .. l - 1 : a[k] = b[k]
Room == N - Spacing(Len(cs), flex, s)
(* free space may stay when the mode puts it somewhere; only whole cells here *)
Vectors == {x \in [DOMAIN cs -> 0 .. Room] : IF flex = 0 THEN SumSeq(x) = Room ELSE SumSeq(x) <= Room}
Best == LET V == Vectors IN {x \in V : \A y \in V : ~Better(Costs(y), Costs(x))}
AsResult(x) == [i \in DOMAIN x |-> LET b == SumSeq([j \in 1 .. i - 1 |-> x[j] + s]) IN <<b, b + x[i]>>]
(* in a mode with free space it is at the end here *)
Obeys(x) == LET r == AsResult(x) IN
            /\ Unfair(r, cs, N, flex) = {}
            /\ flex = 0 \/ ~((\E i \in DOMAIN cs : ShortAt(x[i], cs[i], Demand(cs[i], N), flex) > 0) /\ SumSeq(x) # Room)
            /\ flex = 0 \/ \A i \in DOMAIN cs : LongAt(x[i], cs[i], Demand(cs[i], N), flex) = 0
            /\ flex = 0 \/ (\E i \in DOMAIN cs : Growing(cs[i], flex)) => SumSeq(x) = Room
ExactSizes == LET ex == Exact(cs, N, flex, s) IN {[i \in DOMAIN cs |-> ex.p[i][2] - ex.p[i][1]]}
Halves == \E i \in DOMAIN cs : ~Whole(Demand(cs[i], N))

Init == /\ N \in 0 .. MAXN /\ flex \in {0, 1} /\ s \in 0 .. 1 /\ cs \in Lists
        /\ Fits(Len(cs), N, flex, s)
Next == UNCHANGED <<cs, N, flex, s>>
Spec == Init /\ [][Next]_<<cs, N, flex, s>>

Rule == BUG # "order" /\ ~Halves => \A x \in Vectors : x \in Best => Obeys(x)
(* and conversely: what follows the rules is best *)
Tight == ~Halves => LET B == Best IN \A x \in Vectors : Obeys(x) => x \in B
(* what is called exact is one of the best, or lies between them when it is not whole *)
ExactBest == LET ex == Exact(cs, N, flex, s) IN
             ex.q > 0 /\ ~Halves =>
                LET z == CHOOSE z \in ExactSizes : TRUE IN
                IF \A i \in DOMAIN z : z[i] % ex.q = 0 THEN [i \in DOMAIN z |-> z[i] \div ex.q] \in Best
                ELSE \E x \in Best : \A i \in DOMAIN z : Abs(ex.q * x[i] - z[i]) < ex.q
(* the control: a rule that mixes up two priorities is noticed *)
Mixed(x) == \A i, j \in DOMAIN cs : i # j /\ cs[i][1] = "max" /\ x[i] < cs[i][2] => ~(cs[j][1] = "len" /\ x[j] > 0)
InvMixed == BUG = "order" /\ ~Halves => \A x \in Vectors : x \in Best => Mixed(x)
=============================================================================
