------------------------------- MODULE Layout -------------------------------
(* Splitting a length N among constraints (properties L01, L02, L03).                                         *)
(* A constraint is <<kind, a, b>>: "len" a, "pct" a, "ratio" a/b, "min" a, "max" a, "fill" weight a.           *)
(* Alignment modes: 0 legacy (stretching), 1 start, 2 end, 3 centre, 4 space between, 5 space around.          *)
(* s is the spacing (negative: the overlap). A result is a sequence of pairs <<start, end>> relative to the     *)
(* start of the area.                                                                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
SumSeq(f) == FoldLeft(LAMBDA x, y : x + y, 0, f)

Fixed == {"len", "pct", "ratio", "max"}      \* constraints that ask for one size
Levels == [len |-> 2, pct |-> 3, ratio |-> 4, max |-> 5, fill |-> 6]
(* the priority at which a constraint asks for its size; 1 is the highest (bounds) *)
Level(c, flex) == IF c[1] = "min" THEN (IF flex = 0 THEN 5 ELSE 6) ELSE Levels[c[1]]

(* the size a constraint asks for, as a fraction <<numerator, denominator>> of cells *)
Reduced(a, b) == LET g == Max2(1, Gcd(a, b)) IN <<a \div g, b \div g>>
Share(N, a, b) == IF a \div b > 2 THEN <<2 * N, 1>>        \* more than there is, however much
                  ELSE LET r == Reduced(a, b) IN Reduced(N * r[1], r[2])
Demand(c, N) ==
    CASE c[1] = "pct" -> Share(N, Max2(0, c[2]), 100)
      [] c[1] = "ratio" -> Share(N, Max2(0, c[2]), Max2(1, c[3]))
      [] c[1] = "fill" -> <<0, 1>>
      [] OTHER -> <<Max2(0, c[2]), 1>>

Outer(flex) == IF flex = 5 THEN 2 ELSE 0                       \* spaces before the first and after the last
Spacing(n, flex, s) == s * Max2(0, n - 1 + Outer(flex))
Fits(n, N, flex, s) == Spacing(n, flex, s) <= N

(* ---- L01: the structure of a result, whatever the constraints *)
Inside(r, N) == \A i \in DOMAIN r : 0 <= r[i][1] /\ r[i][1] <= r[i][2] /\ r[i][2] <= N
Gap(r, i) == r[i + 1][1] - r[i][2]
Gaps(r, P(_)) == \A i \in 1 .. Len(r) - 1 : P(Gap(r, i))
Separated(r, N, flex, s) ==
    IF s < 0 THEN Gaps(r, LAMBDA g : g >= s)
    ELSE Gaps(r, LAMBDA g : g >= 0) /\ (Fits(Len(r), N, flex, s) => Gaps(r, LAMBDA g : g >= s))
Covers(r, N, s) ==
    Len(r) > 0 => /\ r[1][1] = 0 /\ r[Len(r)][2] = N
                  /\ (s >= 0 /\ Fits(Len(r), N, 0, s) => Gaps(r, LAMBDA g : g = s))

(* ---- L02: priorities. A segment is short (long) when it has less (more) than what it asks for. Fractions of a *)
(* cell are lost where a segment asks for them, so there a cell more or less is allowed.                        *)
Whole(d) == d[2] = 1
Below(x, d) == IF Whole(d) THEN x < d[1] ELSE 50 * (x + 1) * d[2] + d[2] < 50 * d[1]
Above(x, d) == IF Whole(d) THEN x > d[1] ELSE 50 * (x - 1) * d[2] > 50 * d[1] + d[2]

Bound(c) == IF c[1] = "min" THEN Max2(0, c[2]) ELSE 0           \* what a constraint holds at the highest priority
(* at which priority segment x of constraint c is short, or long; 0: it is not *)
ShortAt(x, c, d, flex) ==
    IF c[1] = "fill" \/ ~Below(x, d) THEN 0 ELSE IF c[1] = "min" THEN 1 ELSE Level(c, flex)
LongAt(x, c, d, flex) ==
    IF c[1] = "fill" \/ (c[1] = "min" /\ flex # 0) \/ ~Above(x, d) THEN 0 ELSE IF c[1] = "max" THEN 1 ELSE Level(c, flex)

(* while another is short at priority l, a segment must not have more than this *)
AtMost(x, c, d, flex, l) ==
    IF c[1] = "min" THEN x <= Bound(c)
    ELSE IF Level(c, flex) > l THEN x = 0 ELSE ~Above(x, d)
(* while another is long at priority l, a segment must not have less than this *)
AtLeast(x, c, d, flex, l) ==
    CASE c[1] = "max" -> ~Below(x, d)
      [] c[1] = "fill" \/ (c[1] = "min" /\ flex # 0) -> FALSE      \* would have taken it all
      [] OTHER -> Level(c, flex) <= l /\ ~Below(x, d)

Sizes(r) == [i \in DOMAIN r |-> r[i][2] - r[i][1]]
(* the set of pairs <<i, j>> such that i misses its share although j could give or take *)
Unfair(r, cs, N, flex) ==
    LET x == Sizes(r)
        d == [i \in DOMAIN cs |-> Demand(cs[i], N)]
        sh == [i \in DOMAIN cs |-> ShortAt(x[i], cs[i], d[i], flex)]
        lo == [i \in DOMAIN cs |-> LongAt(x[i], cs[i], d[i], flex)]
    IN  {<<i, j>> \in (DOMAIN cs) \X (DOMAIN cs) :
            i # j /\ \/ sh[i] > 0 /\ ~AtMost(x[j], cs[j], d[j], flex, sh[i])
                     \/ lo[i] > 0 /\ ~AtLeast(x[j], cs[j], d[j], flex, lo[i])}
(* nobody is short while there is free space, nobody is long while there could be *)
Wasteful(r, cs, N, flex, s) ==
    LET x == Sizes(r)
        short == \E i \in DOMAIN cs : ShortAt(x[i], cs[i], Demand(cs[i], N), flex) > 0
        long == \E i \in DOMAIN cs : LongAt(x[i], cs[i], Demand(cs[i], N), flex) > 0
        n == Len(cs)
    IN  \/ short /\ Fits(n, N, flex, s) /\ SumSeq(x) # N - Spacing(n, flex, s)
        \/ long /\ flex \in {1, 2, 3, 5}
        \/ long /\ flex = 4 /\ n > 1

(* ---- L02, L03: when all demands can be met, everything is determined. Positions in units of 1/q cells. *)
NoExact == [q |-> 0, p |-> <<>>]
Growing(c, flex) == c[1] = "fill" \/ (c[1] = "min" /\ flex # 0)
Weight(c) == IF c[1] = "fill" THEN Max2(0, c[2]) ELSE 1
Scale(cs, N) == FoldLeft(LAMBDA q, c : IF q > 5000 THEN q ELSE Lcm(q, Demand(c, N)[2]), 1, cs)
Least(cs, N, q) == [i \in DOMAIN cs |-> LET d == Demand(cs[i], N) IN d[1] * (q \div d[2])]

(* who of the growing ones grow beyond their minimum, in proportion to their weights: A is what is left of them, *)
(* R (in 1/q cells) what they share *)
SumOver(A, f) == FoldLeft(LAMBDA s, i : IF i \in A THEN s + f[i] ELSE s, 0, [i \in DOMAIN f |-> i])
RECURSIVE Sharing(_, _, _, _)
Sharing(A, R, w, m) ==
    LET W == SumOver(A, w)  bad == {i \in A : m[i] * W > R * w[i]} IN
    IF bad = {} THEN [a |-> A, r |-> R, w |-> W] ELSE Sharing(A \ bad, R - SumOver(bad, m), w, m)

(* one after the other, with the given sizes, first offset and gap *)
Place(x, first, gap) ==
    [i \in DOMAIN x |-> LET b == first + SumSeq([j \in 1 .. i - 1 |-> x[j] + gap]) IN <<b, b + x[i]>>]

TooMuch(cs, N) == \E i \in DOMAIN cs : LET d == Demand(cs[i], N) IN d[1] > N * d[2]
Weights(cs) == FoldLeft(LAMBDA s, c : IF s > 20000 THEN s ELSE s + Min2(20001, Weight(c)), 1, cs)
(* within the integers that TLC can handle *)
Small(cs, N) == LET q == Scale(cs, N)  n == Len(cs) IN
                q <= 5000 /\ N * q <= 2000000 /\ Weights(cs) <= 20000 /\ Max2(1, N * q) <= 20000000 \div Max2(n + 1, Weights(cs))
Exact(cs, N, flex, s) ==
    LET n == Len(cs)
        q == Scale(cs, N)
        least == Least(cs, N, q)
        G == {i \in 1 .. n : Growing(cs[i], flex)}
        room == (N - Spacing(n, flex, s)) * q - SumSeq(least)
        w == [i \in 1 .. n |-> IF i \in G THEN Weight(cs[i]) ELSE 0]
    IN  IF n = 0 \/ s < 0 \/ TooMuch(cs, N) \/ ~Small(cs, N) THEN NoExact
        ELSE IF room < 0 THEN NoExact
        ELSE IF G # {} THEN
            LET m == [i \in 1 .. n |-> IF i \in G THEN least[i] ELSE 0]
                sh == Sharing(G, room + SumOver(G, m), w, m)
                one == sh.w = 0 /\ Cardinality(sh.a) = 1
                W == IF sh.w = 0 THEN 1 ELSE sh.w
                x == [i \in 1 .. n |-> IF i \in sh.a THEN (IF one THEN sh.r ELSE sh.r * w[i]) ELSE least[i] * W]
            IN  IF sh.w = 0 /\ ~one /\ sh.r > 0 THEN NoExact     \* no weights: no proportion
                ELSE [q |-> q * W, p |-> Place(x, (IF flex = 5 THEN s ELSE 0) * q * W, s * q * W)]
        ELSE CASE flex = 0 -> IF room = 0 THEN [q |-> q, p |-> Place(least, 0, s * q)] ELSE NoExact
               [] flex = 1 -> [q |-> q, p |-> Place(least, 0, s * q)]
               [] flex = 2 -> [q |-> q, p |-> Place(least, room, s * q)]
               [] flex = 3 -> [q |-> 2 * q, p |-> Place([i \in 1 .. n |-> 2 * least[i]], room, 2 * s * q)]
               [] flex = 4 -> IF n = 1 THEN NoExact
                              ELSE [q |-> (n - 1) * q, p |-> Place([i \in 1 .. n |-> (n - 1) * least[i]], 0, (n - 1) * s * q + room)]
               [] flex = 5 -> [q |-> (n + 1) * q,
                               p |-> Place([i \in 1 .. n |-> (n + 1) * least[i]], (n + 1) * s * q + room, (n + 1) * s * q + room)]

(* cell boundary x rounds the exact position p/q; thirds and the like are themselves rounded to hundredths first *)
Near(x, p, q) == LET d == x * q - p  e == IF d < 0 THEN -d ELSE d IN 50 * e <= 25 * q + (q + 1) \div 2
SizeOk(r, p, q) == LET d == (r[2] - r[1]) * q - (p[2] - p[1])  e == IF d < 0 THEN -d ELSE d IN IF (p[2] - p[1]) % q = 0 THEN e = 0 ELSE 50 * e <= 51 * q
Off(r, ex) == {i \in DOMAIN r : ~(Near(r[i][1], ex.p[i][1], ex.q) /\ Near(r[i][2], ex.p[i][2], ex.q))}
=============================================================================
