------------------------------- MODULE Keys -------------------------------
(* The key sequences terminals send: xterm modifiers, vt100/X11 and Linux console function keys, urxvt and  *)
(* PowerShell variants. Known maps a byte sequence to the name of its key and to whether it carries Alt.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ESC == 27
Csi(s) == <<27, 91>> \o s
SS3(c) == <<27, 79, c>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Tilde == 126
Semi == 59

(* xterm's modifier parameter: 1 + shift(1) + alt(2) + ctrl(4) *)
ModAlt(m) == ((m - 1) \div 2) % 2 = 1
ModName(m) == (IF (m - 1) \div 4 = 1 THEN "ctrl+" ELSE "") \o (IF (m - 1) % 2 = 1 THEN "shift+" ELSE "")

Arrow == (65 :> "up") @@ (66 :> "down") @@ (67 :> "right") @@ (68 :> "left")
HomeEnd == (72 :> "home") @@ (70 :> "end")
Fn(n) == "f" \o ToString(n)

K(b, name) == <<b, name, FALSE>>
KA(b, name) == <<b, name, TRUE>>

Cursor ==
    LET C == Arrow @@ HomeEnd IN
    {K(Csi(<<c>>), C[c]) : c \in DOMAIN C}
    \cup {<<Csi(<<49, Semi>> \o Dec(m) \o <<c>>), ModName(m) \o C[c], ModAlt(m)>> : m \in 2 .. 8, c \in DOMAIN C}
    \cup {K(SS3(c), Arrow[c]) : c \in DOMAIN Arrow}                                \* PowerShell
    \cup {K(Csi(<<79, c>>), "shift+" \o Arrow[c]) : c \in DOMAIN Arrow}            \* DECCKM
    \cup {K(Csi(<<c + 32>>), "shift+" \o Arrow[c]) : c \in DOMAIN Arrow}           \* urxvt
    \cup {KA(Csi(<<79, c + 32>>), "ctrl+" \o Arrow[c]) : c \in DOMAIN Arrow}       \* urxvt

Edit ==
    {K(Csi(<<90>>), "shift+tab"),
     K(Csi(<<50, Tilde>>), "insert"), KA(Csi(<<51, Semi, 50, Tilde>>), "insert"),
     K(Csi(<<51, Tilde>>), "delete"), KA(Csi(<<51, Semi, 51, Tilde>>), "delete")}
    \cup UNION {{K(Csi(<<p[1], Tilde>>), p[2]), KA(Csi(<<p[1], Semi, 51, Tilde>>), p[2]),
                 K(Csi(<<p[1], Semi, 53, Tilde>>), "ctrl+" \o p[2]), KA(Csi(<<p[1], Semi, 55, Tilde>>), "ctrl+" \o p[2]),
                 K(Csi(<<p[1], 94>>), "ctrl+" \o p[2])} : p \in {<<53, "pgup">>, <<54, "pgdown">>}}
    \cup {K(Csi(<<49, Tilde>>), "home"), K(Csi(<<52, Tilde>>), "end")}
    \cup UNION {{K(Csi(<<p[1], Tilde>>), p[2]), K(Csi(<<p[1], 94>>), "ctrl+" \o p[2]),                 \* urxvt
                 K(Csi(<<p[1], 36>>), "shift+" \o p[2]), K(Csi(<<p[1], 64>>), "ctrl+shift+" \o p[2])} : p \in {<<55, "home">>, <<56, "end">>}}

(* Function key n is sent as CSI FnNum[n] ~ *)
FnNum == <<11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 23, 24, 25, 26, 28, 29, 31, 32, 33, 34>>
Function ==
    {K(Csi(<<91, 64 + n>>), Fn(n)) : n \in 1 .. 5}                                 \* Linux console
    \cup {K(SS3(79 + n), Fn(n)) : n \in 1 .. 4}                                    \* vt100, xterm
    \cup {KA(Csi(<<49, Semi, 51, 79 + n>>), Fn(n)) : n \in 1 .. 4}
    \cup {K(Csi(<<49, Semi, 50, 79 + n>>), Fn(12 + n)) : n \in 1 .. 4}
    \cup {K(Csi(Dec(FnNum[n]) \o <<Tilde>>), Fn(n)) : n \in 1 .. 20}
    \cup {KA(Csi(Dec(FnNum[n]) \o <<Semi, 51, Tilde>>), Fn(n)) : n \in 5 .. 16}
    \cup {K(Csi(Dec(FnNum[p[1]]) \o <<Semi, 50, Tilde>>), Fn(p[2])) : p \in {<<5, 17>>, <<6, 18>>, <<7, 19>>, <<8, 20>>}}

Ctrl == <<"ctrl+a", "ctrl+b", "ctrl+c", "ctrl+d", "ctrl+e", "ctrl+f", "ctrl+g", "ctrl+h", "tab", "ctrl+j", "ctrl+k", "ctrl+l", "enter",
          "ctrl+n", "ctrl+o", "ctrl+p", "ctrl+q", "ctrl+r", "ctrl+s", "ctrl+t", "ctrl+u", "ctrl+v", "ctrl+w", "ctrl+x", "ctrl+y", "ctrl+z",
          "esc", "ctrl+\\", "ctrl+]", "ctrl+^", "ctrl+_">>
CtrlName(b) == IF b = 127 THEN "backspace" ELSE IF b = 32 THEN "space" ELSE Ctrl[b]
Control == {K(<<b>>, CtrlName(b)) : b \in ((1 .. 32) \cup {127}) \ {ESC}}

Plain == Cursor \cup Edit \cup Function \cup Control
(* An escape in front adds Alt to what does not carry it yet. *)
Entries == Plain \cup {KA(<<ESC>> \o e[1], e[2]) : e \in {x \in Plain : ~x[3]}} \cup {KA(<<ESC, ESC>>, "esc")}
Sequences == {e[1] : e \in Entries}
Known == [b \in Sequences |-> LET e == CHOOSE e \in Entries : e[1] = b IN [s |-> e[2], alt |-> e[3]]]
MaxSeq == 8

ASSUME Unambiguous == \A e, f \in Entries : e[1] = f[1] => e = f
ASSUME \A b \in Sequences : Len(b) <= MaxSeq
=============================================================================
