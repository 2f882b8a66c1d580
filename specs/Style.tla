------------------------------- MODULE Style -------------------------------
(* Styles and cells (property S04). A colour is a string, "" means that the style does not set it; modifiers *)
(* are subsets of 0 .. 8. A cell is [s, f, b, m]: symbol, foreground, background, modifiers.                  *)
EXTENDS Integers, Sequences, TLC

Mods == 0 .. 8
ModSet == [k \in 0 .. 511 |-> {i \in Mods : (k \div (2 ^ i)) % 2 = 1}]

NoStyle == [f |-> "", b |-> "", add |-> {}, sub |-> {}]
Reset == "reset"                                  \* the default colour of a cell
BlankCell == [s |-> " ", f |-> Reset, b |-> Reset, m |-> {}]

WithFg(st, c) == [st EXCEPT !.f = c]
WithBg(st, c) == [st EXCEPT !.b = c]
WithMod(st, M) == [st EXCEPT !.add = @ \cup M, !.sub = @ \ M]
WithoutMod(st, M) == [st EXCEPT !.add = @ \ M, !.sub = @ \cup M]
Patched(st, p) ==
    [f |-> IF p.f # "" THEN p.f ELSE st.f, b |-> IF p.b # "" THEN p.b ELSE st.b,
     add |-> (st.add \ p.sub) \cup p.add, sub |-> (st.sub \ p.add) \cup p.sub]

Styled(cell, st) ==
    [s |-> cell.s, f |-> IF st.f # "" THEN st.f ELSE cell.f, b |-> IF st.b # "" THEN st.b ELSE cell.b,
     m |-> (cell.m \cup st.add) \ st.sub]

(* The named helpers: name -> <<"f" | "b", colour>> or a modifier. *)
Hues == <<"Black", "Red", "Green", "Yellow", "Blue", "Magenta", "Cyan", "White",
          "BrightBlack", "BrightRed", "BrightGreen", "BrightYellow", "BrightBlue", "BrightMagenta", "BrightCyan", "BrightWhite">>
ColorOf == [n \in {Hues[i] : i \in 1 .. 16} |-> "a:" \o ToString(CHOOSE i \in 0 .. 15 : Hues[i + 1] = n)]
OnColorOf == [n \in {"On" \o Hues[i] : i \in 1 .. 16} |-> "a:" \o ToString(CHOOSE i \in 0 .. 15 : "On" \o Hues[i + 1] = n)]
ModOf == [Bold |-> 0, Dim |-> 1, Italic |-> 2, Underlined |-> 3, Reversed |-> 6, CrossedOut |-> 8]

(* One builder call o = [k, c, m, p]: c a colour or a name, m a modifier mask, p the calls that build a patch. *)
RECURSIVE Build(_, _)
Op(st, o) ==
    CASE o.k = "fg" -> WithFg(st, o.c)
      [] o.k = "bg" -> WithBg(st, o.c)
      [] o.k = "mod" -> WithMod(st, ModSet[o.m])
      [] o.k = "nomod" -> WithoutMod(st, ModSet[o.m])
      [] o.k = "name" -> IF o.c \in DOMAIN ColorOf THEN WithFg(st, ColorOf[o.c])
                         ELSE IF o.c \in DOMAIN OnColorOf THEN WithBg(st, OnColorOf[o.c])
                         ELSE WithMod(st, {ModOf[o.c]})
      [] o.k = "patch" -> Patched(st, Build(NoStyle, o.p))
Build(st, ops) == IF ops = <<>> THEN st ELSE Build(Op(st, Head(ops)), Tail(ops))
=============================================================================
