------------------------------ MODULE InputMC ------------------------------
EXTENDS InputReader
CONSTANTS N, Alphabet

RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, a) : s \in Strings(n - 1), a \in Alphabet}
Full == Strings(B)
Short == UNION {Strings(n) : n \in 1 .. B - 1}

Next == \/ phase = "reading" /\ \/ Len(all) + B <= N /\ \E s \in Full : ReadFull(s)
                                \/ \E s \in Short : Len(all) + Len(s) <= N /\ ReadShort(s)
                                \/ \E s \in Short \cup {<<>>} : Len(all) + Len(s) <= N /\ End(s)
        \/ phase = "settled" /\ left # <<>> /\ phase' = "reading" /\ UNCHANGED <<all, left, out>>
Spec == Init /\ [][Next]_vars

(* Joining bursts that end between two keys: only runs of characters grow together. *)
Closed == {<<97>>, <<32>>, <<9>>, <<0>>, <<195, 169>>, <<255>>, <<27, 97>>, <<27, 27, 91, 65>>, Csi(<<65>>), Csi(<<49, 59, 53, 65>>), Csi(<<55, 36>>),
           SS3(80), Csi(<<91, 65>>), Csi(<<73>>), Csi(<<77, 32, 33, 33>>), Csi(<<60, 48, 59, 49, 59, 49, 77>>), Csi(<<60, 65>>), Csi(<<63, 50, 53, 104>>),
           PasteStart \o PasteEnd, PasteStart \o <<97, 27, 91, 65>> \o PasteEnd, <<27, 127>>, <<27, 0>>, <<239, 191, 189>>}
Join(a, b) ==
    IF a # <<>> /\ b # <<>> /\ a[Len(a)].k = "runes" /\ b[1].k = "runes" /\ a[Len(a)].alt = 0 /\ b[1].alt = 0
    THEN SubSeq(a, 1, Len(a) - 1) \o <<Msg("runes", "", FALSE, a[Len(a)].n \o b[1].n)>> \o Tail(b)
    ELSE a \o b
ASSUME Cuts == \A a, b, c \in Closed : Messages(a \o b \o c) = Join(Join(Messages(a), Messages(b)), Messages(c))
ASSUME Keys == \A q \in Sequences : LET k == Known[q] IN Messages(q) = <<Msg("key", k.s, k.alt, KeyChars(k.s))>>
ASSUME Buttons == \A e \in 0 .. 255 : LET m == Mouse(e, 1, 1, FALSE).n IN m[3] \in 0 .. 11 /\ m[4] \in 0 .. 2 /\ (IsWheel(m[3]) => m[4] = 0)
=============================================================================
