------------------------------ MODULE Throbber ------------------------------
(* Throbbers (property W07). A throbber is [frame, tag]; a tick is [id, tag]: whose it is and to which of its moments it belongs. A tick *)
(* is asked for again with every advance, and answers the moment it was asked at.                                                       *)
EXTENDS Integers, Sequences
Start == [frame |-> 0, tag |-> 0]
TickOf(i, t) == [id |-> i, tag |-> t.tag]
Accepts(i, t, m) == m.id = i /\ m.tag = t.tag
Advance(t) == [frame |-> t.frame + 1, tag |-> t.tag + 1]
Advanced(t, n) == [frame |-> t.frame + n, tag |-> t.tag + n]      \* n times
Deliver(i, t, m) == IF Accepts(i, t, m) THEN Advance(t) ELSE t

(* what each kind shows: its frames as rows of characters, all of them one column wide *)
Kinds == <<"line", "hblock", "vblock", "braille", "paren", "canadian", "ellipsis", "meter", "pulse">>
One(q) == [i \in DOMAIN q |-> <<q[i]>>]
Frames(kind) ==
    CASE kind = "line" -> One(<<"|", "/", "-", "<5c>">>)
      [] kind = "hblock" -> One(<<"<258f>", "<258e>", "<258d>", "<258c>", "<258b>", "<258a>", "<2589>", "<2588>">>)
      [] kind = "vblock" -> One(<<"<2581>", "<2582>", "<2583>", "<2584>", "<2585>", "<2586>", "<2587>", "<2588>">>)
      [] kind = "braille" -> One(<<"<28f7>", "<28ef>", "<28df>", "<287f>", "<28bf>", "<28fb>", "<28fd>", "<28fe>">>)
      [] kind = "paren" -> One(<<"<239b>", "<239c>", "<239d>", "<239e>", "<239f>", "<23a0>">>)
      [] kind = "canadian" -> One(<<"<1510>", "<1bc7>", "<1511>", "<1bc7>">>)
      [] kind = "ellipsis" -> <<<<>>, <<".">>, <<".", ".">>, <<".", ".", ".">>>>
      [] kind = "meter" -> LET e == "<25b1>"  f == "<25b0>" IN
                           <<<<e, e, e>>, <<f, e, e>>, <<f, f, e>>, <<f, f, f>>, <<f, f, e>>, <<f, e, e>>, <<e, e, e>>>>
      [] kind = "pulse" -> One(<<"<2588>", "<2593>", "<2592>", "<2591>">>)
Frame(kind, n) == Frames(kind)[(n % Len(Frames(kind))) + 1]
=============================================================================
