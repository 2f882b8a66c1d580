------------------------------- MODULE Render -------------------------------
(* How a frame reaches the terminal: the difference of two buffers and the sequences written for it.          *)
(* A frame is a sequence of cells [s, w, st] of the area; st as in Screen (colours already converted).        *)
EXTENDS Screen
CONSTANT BUG   \* "none", or a defect put in as a control

BlankCell1 == [s |-> " ", w |-> 1, st |-> Pen0]
BlankFrame(n) == [i \in 1 .. n |-> BlankCell1]
Max2(a, b) == IF a > b THEN a ELSE b

(* ---- the cells to send: walk over both buffers; skip what is covered by a wide character, resend what was *)
(* invalidated by the wide character that stood (or stands) left of it *)
Diff(prev, next) ==
    LET step(acc, i) ==
        LET send == (next[i] # prev[i] \/ (acc.inv > 0 /\ BUG # "noinval")) /\ (acc.skip = 0 \/ BUG = "noskip")
            aff == Max2(prev[i].w, next[i].w)
        IN [u |-> IF send THEN Append(acc.u, i) ELSE acc.u,
            skip |-> next[i].w - 1,
            inv |-> Max2(0, Max2(acc.inv, aff) - 1)]
    IN FoldLeft(step, [u |-> <<>>, skip |-> 0, inv |-> 0], [i \in 1 .. Len(next) |-> i]).u

(* ---- attributes: from one set to another *)
Code == [i \in 0 .. 8 |-> i + 1]
Sg(p) == [t |-> "sgr", p |-> p]
Seqs(S) == [i \in 1 .. Len(SetToSortSeq(S, <)) |-> Sg(<<Code[SetToSortSeq(S, <)[i]]>>)]
ModDiff(from, to) ==
    LET gone == from \ to  new == to \ from IN
    (IF 6 \in gone THEN <<Sg(<<27>>)>> ELSE <<>>)
    \o (IF gone \cap {0, 1} # {} THEN <<Sg(<<22>>)>> \o (IF BUG = "nointensity" THEN <<>> ELSE Seqs(to \cap {0, 1})) ELSE <<>>)
    \o (IF 2 \in gone THEN <<Sg(<<23>>)>> ELSE <<>>)
    \o (IF 3 \in gone THEN <<Sg(<<24>>)>> ELSE <<>>)
    \o (IF 8 \in gone THEN <<Sg(<<29>>)>> ELSE <<>>)
    \o (IF gone \cap {4, 5} # {} THEN <<Sg(<<25>>)>> \o Seqs(to \cap {4, 5}) ELSE <<>>)
    \o (IF 7 \in gone THEN <<Sg(<<28>>)>> ELSE <<>>)
    \o Seqs(new)
Col(c, def) == IF c = <<>> THEN <<def>> ELSE c
Colors(st) == Sg(Col(st.f, 39) \o Col(st.b, 49))

(* ---- the tokens for the cells us (indices) of the frame *)
Emit(area, fr, us) ==
    LET step(acc, i) ==
        LET x == area[1] + ((i - 1) % area[3])  y == area[2] + ((i - 1) \div area[3])
            cell == fr[i]
            move == IF acc.last # <<>> /\ acc.last[2] = y /\ (acc.last[1] + 1 = x \/ (BUG = "elide" /\ acc.last[1] < x))
                    THEN <<>> ELSE <<[t |-> "cup", x |-> x, y |-> y]>>
            mods == IF cell.st.m # acc.m THEN ModDiff(acc.m, cell.st.m) ELSE <<>>
            cols == IF cell.st.f # acc.f \/ cell.st.b # acc.b THEN <<Colors(cell.st)>> ELSE <<>>
        IN [ts |-> acc.ts \o move \o mods \o cols \o <<[t |-> "print", s |-> cell.s, w |-> cell.w]>>,
            last |-> <<x, y>>, m |-> cell.st.m, f |-> cell.st.f, b |-> cell.st.b]
    IN FoldLeft(step, [ts |-> <<>>, last |-> <<>>, m |-> {}, f |-> <<>>, b |-> <<>>], us).ts
    \o (IF BUG = "noreset" THEN <<>> ELSE <<Sg(<<39, 49>>), Sg(<<0>>)>>)

Hide == [t |-> "mode", n |-> 25, on |-> FALSE]
DrawTokens(area, prev, fr) == Emit(area, fr, Diff(prev, fr)) \o <<Hide>>
ClearTokens(full, area) ==
    IF full \/ BUG = "clearall" THEN <<[t |-> "ed", n |-> 2]>>
    ELSE LET n == area[3] * area[4] IN Emit(area, BlankFrame(n), [i \in 1 .. n |-> i])
=============================================================================
