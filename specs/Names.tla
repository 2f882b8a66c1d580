------------------------------- MODULE Names -------------------------------
(* The names of keys and mouse events: programs compare keys by name, so a name has to identify its key.      *)
(* A named key is <<ctrl, shift, base>>; a key press is [key, alt] or a run of characters, typed or pasted.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

B == BOOLEAN
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "j", "k", "l", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
            "@", "\\", "]", "^", "_"}
Fn == {"f" \o ToString(n) : n \in 1 .. 20}
NamedKeys ==
    {<<c, s, b>> : c \in B, s \in B, b \in {"up", "down", "left", "right", "home", "end"}}
    \cup {<<c, FALSE, b>> : c \in B, b \in {"pgup", "pgdown"}}
    \cup {<<FALSE, s, "tab">> : s \in B}
    \cup {<<FALSE, FALSE, b>> : b \in {"delete", "insert", "space", "enter", "esc", "backspace"} \cup Fn}
    \cup {<<TRUE, FALSE, b>> : b \in Letters}

Chars == "abcdefghijklmnopqrstuvwxyz0123456789+@\\]^_[ "
Code == <<97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122,
          48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 43, 64, 92, 93, 94, 95, 91, 32>>
CodeOf == [c \in {SubSeq(Chars, i, i) : i \in 1 .. Len(Chars)} |-> Code[CHOOSE i \in 1 .. Len(Chars) : SubSeq(Chars, i, i) = c]]
Codes(s) == [i \in 1 .. Len(s) |-> CodeOf[SubSeq(s, i, i)]]

TypeName(k) == (IF k[1] THEN "ctrl+" ELSE "") \o (IF k[2] THEN "shift+" ELSE "") \o (IF k[3] = "space" THEN " " ELSE k[3])
Alt(a) == IF a THEN "alt+" ELSE ""
NamedName(k, alt) == Codes(Alt(alt) \o TypeName(k))
RunesName(n, alt, paste) == Codes(Alt(alt)) \o (IF paste THEN <<91>> \o n \o <<93>> ELSE n)

(* Mouse events: modifiers in a fixed order, then the button, then - unless it is the wheel - what happened to it. *)
Buttons == <<"left", "middle", "right", "wheel up", "wheel down", "wheel left", "wheel right", "backward", "forward", "button 10", "button 11">>
Actions == <<"press", "release", "motion">>
Wheel(b) == b \in 4 .. 7
EventName(m) ==
    (IF m.ctrl THEN "ctrl+" ELSE "") \o (IF m.alt THEN "alt+" ELSE "") \o (IF m.shift THEN "shift+" ELSE "")
    \o (IF m.button = 0 THEN (IF m.action = 0 THEN "unknown" ELSE Actions[m.action + 1])
        ELSE IF Wheel(m.button) THEN Buttons[m.button]
        ELSE Buttons[m.button] \o " " \o Actions[m.action + 1])
Mice == [ctrl : B, alt : B, shift : B, button : 0 .. 11, action : 0 .. 2]
=============================================================================
