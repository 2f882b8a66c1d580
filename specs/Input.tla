------------------------------- MODULE Input -------------------------------
(* What the bytes a terminal sends mean. Messages(s) is the meaning of a stream that is complete: it ends    *)
(* between two keys. A message is [k, s, alt, n]: its kind, a key name, Alt, and numbers (code points, bytes  *)
(* or the fields of a mouse report).                                                                         *)
EXTENDS Keys

Msg(k, s, alt, n) == [k |-> k, s |-> s, alt |-> IF alt THEN 1 ELSE 0, n |-> n]

At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
HasAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ \A j \in 1 .. Len(p) : s[i + j - 1] = p[j]

(* ---- UTF-8: [w |-> bytes, r |-> code point]; w = 0: invalid at i; w = -1: the rest of the stream is the    *)
(* beginning of a character *)
Cont(b, lo, hi) == b >= lo /\ b <= hi
Rune(s, i) ==
    LET b1 == s[i]  b2 == At(s, i + 1)  b3 == At(s, i + 2)  b4 == At(s, i + 3)
        lo == CASE b1 = 224 -> 160 [] b1 = 240 -> 144 [] OTHER -> 128
        hi == CASE b1 = 237 -> 159 [] b1 = 244 -> 143 [] OTHER -> 191
        bad == [w |-> 0, r |-> 0]  part == [w |-> -1, r |-> 0]
    IN  IF b1 < 128 THEN [w |-> 1, r |-> b1]
        ELSE IF b1 < 194 \/ b1 > 244 THEN bad
        ELSE IF b2 = -1 THEN part
        ELSE IF ~Cont(b2, lo, hi) THEN bad
        ELSE IF b1 < 224 THEN [w |-> 2, r |-> (b1 - 192) * 64 + (b2 - 128)]
        ELSE IF b3 = -1 THEN part
        ELSE IF ~Cont(b3, 128, 191) THEN bad
        ELSE IF b1 < 240 THEN [w |-> 3, r |-> (b1 - 224) * 4096 + (b2 - 128) * 64 + (b3 - 128)]
        ELSE IF b4 = -1 THEN part
        ELSE IF ~Cont(b4, 128, 191) THEN bad
        ELSE [w |-> 4, r |-> (b1 - 240) * 262144 + (b2 - 128) * 4096 + (b3 - 128) * 64 + (b4 - 128)]

IsControl(b) == b <= 31 \/ b = 127
Printable(s, i) == i <= Len(s) /\ ~IsControl(s[i]) /\ s[i] # 32 /\ Rune(s, i).w > 0

(* The maximal run of printable characters from i: its code points and where it ends. *)
RECURSIVE Run(_, _, _)
Run(s, i, acc) == IF Printable(s, i) THEN LET r == Rune(s, i) IN Run(s, i + r.w, Append(acc, r.r)) ELSE [n |-> acc, e |-> i]

(* ---- mouse reports *)
Bit(e, v) == (e \div v) % 2
Button(e) == IF Bit(e, 128) = 1 THEN 8 + (e % 4) ELSE IF Bit(e, 64) = 1 THEN 4 + (e % 4) ELSE IF e % 4 = 3 THEN 0 ELSE 1 + (e % 4)
IsWheel(b) == b \in 4 .. 7
(* press 0, release 1, motion 2 *)
Action(e, up) ==
    LET b == Button(e) IN
    IF Bit(e, 32) = 1 /\ ~IsWheel(b) THEN 2
    ELSE IF IsWheel(b) THEN 0
    ELSE IF b = 0 \/ up THEN 1 ELSE 0
(* x, y, button, action, shift, alt, ctrl *)
Mouse(e, x, y, up) == Msg("mouse", "", FALSE, <<x - 1, y - 1, Button(e), Action(e, up), Bit(e, 4), Bit(e, 8), Bit(e, 16)>>)

ButtonName == <<"left", "middle", "right", "wheel up", "wheel down", "wheel left", "wheel right", "backward", "forward", "button 10", "button 11">>
ActionName == <<"press", "release", "motion">>
MouseName(n) ==
    (IF n[7] = 1 THEN "ctrl+" ELSE "") \o (IF n[6] = 1 THEN "alt+" ELSE "") \o (IF n[5] = 1 THEN "shift+" ELSE "")
    \o (IF n[3] = 0 THEN (IF n[4] = 0 THEN "unknown" ELSE ActionName[n[4] + 1])
        ELSE IF IsWheel(n[3]) THEN ButtonName[n[3]] ELSE ButtonName[n[3]] \o " " \o ActionName[n[4] + 1])

IsDigit(b) == b >= 48 /\ b <= 57
RECURSIVE Number(_, _, _)
Number(s, i, v) == IF IsDigit(At(s, i)) THEN Number(s, i + 1, v * 10 + (s[i] - 48)) ELSE [v |-> v, e |-> i]
(* SGR report at i: CSI < b ; x ; y M|m *)
Sgr(s, i) ==
    LET no == [w |-> 0, m |-> Msg("none", "", FALSE, <<>>)] IN
    IF ~HasAt(s, i, <<27, 91, 60>>) \/ ~IsDigit(At(s, i + 3)) THEN no
    ELSE LET b == Number(s, i + 3, 0) IN
         IF At(s, b.e) # 59 \/ ~IsDigit(At(s, b.e + 1)) THEN no
         ELSE LET x == Number(s, b.e + 1, 0) IN
              IF At(s, x.e) # 59 \/ ~IsDigit(At(s, x.e + 1)) THEN no
              ELSE LET y == Number(s, x.e + 1, 0) IN
                   IF At(s, y.e) \notin {77, 109} THEN no
                   ELSE [w |-> y.e + 1 - i, m |-> Mouse(b.v, x.v, y.v, s[y.e] = 109)]

(* ---- escape sequences *)
(* end (exclusive) of the CSI sequence at i, 0 if there is none, -1 if the stream ends inside it *)
RECURSIVE SkipIn(_, _, _, _)
SkipIn(s, i, lo, hi) == IF i <= Len(s) /\ s[i] >= lo /\ s[i] <= hi THEN SkipIn(s, i + 1, lo, hi) ELSE i
CsiEnd(s, i) ==
    IF ~HasAt(s, i, <<27, 91>>) THEN 0
    ELSE LET f == SkipIn(s, SkipIn(s, i + 2, 48, 63), 32, 47) IN
         IF f > Len(s) THEN -1 ELSE IF s[f] >= 64 /\ s[f] <= 126 THEN f + 1 ELSE 0

(* length of the longest known sequence at i *)
LongestKnown(s, i) ==
    IF s[i] # ESC THEN (IF <<s[i]>> \in Sequences THEN 1 ELSE 0)
    ELSE LET L == {n \in 2 .. MaxSeq : i + n - 1 <= Len(s) /\ SubSeq(s, i, i + n - 1) \in Sequences} IN
         IF L = {} THEN 0 ELSE CHOOSE n \in L : \A m \in L : m <= n

PasteStart == <<27, 91, 50, 48, 48, 126>>
PasteEnd == <<27, 91, 50, 48, 49, 126>>
(* position of the next paste end from i, Len + 1 if there is none *)
RECURSIVE FindEnd(_, _)
FindEnd(s, i) == IF i > Len(s) \/ HasAt(s, i, PasteEnd) THEN i ELSE FindEnd(s, i + 1)
(* The characters of p; bytes that are not part of one are left out. *)
RECURSIVE Chars(_, _, _)
Chars(p, i, acc) == IF i > Len(p) THEN acc ELSE LET r == Rune(p, i) IN
                    IF r.w <= 0 THEN Chars(p, i + 1, acc) ELSE Chars(p, i + r.w, Append(acc, r.r))
PasteMsg(s, i, e) == Msg("paste", "", FALSE, Chars(SubSeq(s, i, e - 1), 1, <<>>))

(* a space carries its character, too *)
KeyChars(name) == IF name = "space" THEN <<32>> ELSE <<>>

(* The message that starts at i and its width. Width 0: an open bracketed paste. *)
One(s, i) ==
    LET sgr == Sgr(s, i)  known == LongestKnown(s, i)  csi == CsiEnd(s, i) IN
    IF s[i] = ESC /\ HasAt(s, i, <<27, 91, 77>>) /\ i + 5 <= Len(s)
        THEN [w |-> 6, m |-> Mouse((s[i + 3] + 224) % 256, s[i + 4] - 32, s[i + 5] - 32, FALSE)]
    ELSE IF s[i] = ESC /\ sgr.w > 0 THEN sgr
    ELSE IF HasAt(s, i, PasteStart)
        THEN LET e == FindEnd(s, i + 6) IN
             IF e > Len(s) THEN [w |-> 0, m |-> PasteMsg(s, i + 6, Len(s) + 1)] ELSE [w |-> e + 6 - i, m |-> PasteMsg(s, i + 6, e)]
    ELSE IF known > 0
        THEN LET k == Known[SubSeq(s, i, i + known - 1)] IN [w |-> known, m |-> Msg("key", k.s, k.alt, KeyChars(k.s))]
    ELSE IF HasAt(s, i, <<27, 91, 73>>) THEN [w |-> 3, m |-> Msg("focus", "", FALSE, <<>>)]
    ELSE IF HasAt(s, i, <<27, 91, 79>>) THEN [w |-> 3, m |-> Msg("blur", "", FALSE, <<>>)]
    ELSE IF csi > 0 THEN [w |-> csi - i, m |-> Msg("csi", "", FALSE, SubSeq(s, i, csi - 1))]
    ELSE IF s[i] = 0 THEN [w |-> 1, m |-> Msg("key", "ctrl+@", FALSE, <<>>)]
    ELSE IF s[i] = ESC
        THEN IF i = Len(s) THEN [w |-> 1, m |-> Msg("key", "esc", FALSE, <<>>)]
             ELSE IF s[i + 1] = 0 THEN [w |-> 2, m |-> Msg("key", "ctrl+@", TRUE, <<>>)]
             ELSE IF Printable(s, i + 1) THEN LET r == Rune(s, i + 1) IN [w |-> 1 + r.w, m |-> Msg("runes", "", TRUE, <<r.r>>)]
             ELSE [w |-> 1, m |-> Msg("byte", "", FALSE, <<ESC>>)]
    ELSE IF Printable(s, i) THEN LET r == Run(s, i, <<>>) IN [w |-> r.e - i, m |-> Msg("runes", "", FALSE, r.n)]
    ELSE [w |-> 1, m |-> Msg("byte", "", FALSE, <<s[i]>>)]

(* The messages of s from i; what is left is an open paste (or nothing). *)
From(s, start, acc) ==
    LET f[i \in 1 .. Len(s) + 1] ==      \* (a function, which TLC evaluates faster than a recursive operator)
            IF i > Len(s) THEN [out |-> <<>>, rest |-> <<>>]
            ELSE LET o == One(s, i) IN
                 IF o.w = 0 THEN [out |-> <<>>, rest |-> SubSeq(s, i, Len(s))]
                 ELSE LET t == f[i + o.w] IN [out |-> <<o.m>> \o t.out, rest |-> t.rest]
        d == f[start]
    IN  [out |-> acc \o d.out, rest |-> d.rest]
(* (the set makes TLC evaluate s once) *)
Decode(s) == CHOOSE d \in {From(x, 1, <<>>) : x \in {s}} : TRUE
(* ... when nothing can follow any more: an open paste ends with the stream. *)
Messages(s) == LET d == Decode(s) IN IF d.rest = <<>> THEN d.out ELSE Append(d.out, One(d.rest, 1).m)
=============================================================================
