------------------------------ MODULE ScreenMC ------------------------------
(* S01 and S02 for the rendering pipeline, over every history of frames of a small area: the reachable states *)
(* are finite (the previous frame and what the terminal shows), so histories of every length are covered.      *)
EXTENDS Render
CONSTANTS W, H, FULL, SYMS, MODS
VARIABLES sc, prev, fr, act

AREA == IF FULL THEN <<0, 0, W, H>> ELSE <<1, 0, W - 2, H>>
N == AREA[3] * AREA[4]
Styles == {[f |-> f, b |-> b, m |-> m] : f \in {<<>>, <<31>>}, b \in {<<>>}, m \in MODS}
Syms == {[s |-> s, w |-> IF s = "W" THEN 2 ELSE 1, st |-> st] : s \in SYMS, st \in Styles}
(* well-formed frames: a wide character is not in the last column and is followed by a blank *)
OkFrame(f) == \A i \in DOMAIN f : f[i].w = 2 => i % AREA[3] # 0 /\ f[i + 1].s = " "
Frames == {f \in [1 .. N -> Syms] : OkFrame(f)}
Frame0 == BlankFrame(N)
Shattered(s) == [s EXCEPT !.c = [j \in DOMAIN @ |-> Garbage]]
Around(s) == [s EXCEPT !.c = [j \in DOMAIN @ |-> IF InArea(s, AREA, j) THEN @[j] ELSE Garbage]]

Init == /\ sc = Around(NewScreen(W, H, Blank))
        /\ prev = Frame0 /\ fr = Frame0 /\ act = "init"
Draw == \E f \in Frames : \E ts \in {DrawTokens(AREA, prev, f)} : \E n \in {Tokens(sc, ts)} :
            /\ sc' = n /\ fr' = f
            /\ prev' = f
            /\ act' = IF f = prev /\ \E i \in DOMAIN ts : ts[i].t = "print" THEN "again" ELSE "draw"
(* the terminal was resized (to the same size here) or scribbled over, and is cleared *)
Clear == \E n \in {Tokens(Shattered(sc), ClearTokens(FULL, AREA))} :
            /\ sc' = n
            /\ fr' = Frame0
            /\ prev' = IF BUG = "keepold" THEN prev ELSE Frame0
            /\ act' = "clear"
Next == Draw \/ Clear
Spec == Init /\ [][Next]_<<sc, prev, fr, act>>

Inv == /\ WrongChar(sc, AREA, fr) = {} /\ WrongStyle(sc, AREA, fr) = {}
       /\ \A j \in DOMAIN sc.c : InArea(sc, AREA, j) \/ sc.c[j] = Garbage
       /\ sc.pen = Pen0 /\ ~sc.odd
       /\ act # "again"
       /\ act = "draw" => ~sc.cur
=============================================================================
