------------------------------ MODULE AppMC ------------------------------
EXTENDS App

L(r) == [k |-> "leaf", r |-> r, ch |-> <<>>]
B(c) == [k |-> "batch", r |-> "", ch |-> c]
S(c) == [k |-> "seq", r |-> "", ch |-> c]

Sc(nodes, init, key, then) ==
    [nodes |-> nodes, init |-> init, key |-> key, then |-> then, updpanic |-> 0, rendpanic |-> 0, initpanic |-> FALSE]
NoThen(nodes) == [n \in DOMAIN nodes |-> 0]

(* key 1 answers with tree 1, key 2 quits (the last node) *)
Prog(nodes) == Sc(Append(nodes, L("quit")), 0, <<1, Len(nodes) + 1>>, NoThen(Append(nodes, L("quit"))))
(* the tree is the initial command; key 2 quits *)
InitProg(nodes) == [Prog(nodes) EXCEPT !.init = 1, !.key = <<0, Len(nodes) + 1>>]

Trees == {
    <<L("msg")>>, <<L("nil")>>, <<L("never")>>, <<L("panic")>>, <<L("quit")>>,
    <<B(<<2, 3>>), L("msg"), L("msg")>>, <<B(<<2, 3>>), L("msg"), L("panic")>>, <<B(<<2, 3>>), L("quit"), L("never")>>,
    <<S(<<2, 3>>), L("msg"), L("msg")>>, <<S(<<2, 3>>), L("nil"), L("panic")>>, <<S(<<2, 3>>), L("msg"), L("quit")>>,
    <<S(<<2, 3>>), L("quit"), L("msg")>>, <<S(<<2, 3>>), L("never"), L("msg")>>, <<S(<<2, 3>>), L("panic"), L("msg")>>,
    <<B(<<>>)>>, <<S(<<>>)>>}
DeepTrees == {
    <<S(<<2, 5>>), B(<<3, 4>>), L("msg"), L("msg"), L("msg")>>,
    <<S(<<2, 5>>), B(<<3, 4>>), L("nil"), L("panic"), L("msg")>>,
    <<S(<<2, 5>>), S(<<3, 4>>), L("msg"), L("msg"), L("msg")>>,
    <<S(<<2, 5>>), S(<<3, 4>>), L("msg"), L("panic"), L("msg")>>,
    <<B(<<2, 5>>), S(<<3, 4>>), L("msg"), L("msg"), L("msg")>>,
    <<B(<<2, 5>>), B(<<3, 4>>), L("msg"), L("nil"), L("panic")>>,
    <<S(<<2, 3>>), L("msg"), B(<<4, 5>>), L("quit"), L("msg")>>}

Panics == {[Prog(<<L("msg")>>) EXCEPT !.initpanic = TRUE], [Prog(<<L("msg")>>) EXCEPT !.updpanic = 1],
           [Prog(<<L("msg")>>) EXCEPT !.rendpanic = 1], [Prog(<<L("msg")>>) EXCEPT !.rendpanic = 2]}
Then == {Sc(<<L("msg"), S(<<3, 4>>), L("msg"), L("msg"), L("quit")>>, 1, <<0, 5>>, <<2, 0, 0, 0, 0>>)}

Quick == {Prog(t) : t \in Trees} \cup {InitProg(t) : t \in {<<L("msg")>>, <<B(<<2, 3>>), L("msg"), L("panic")>>}} \cup Panics \cup Then
Deep == {Prog(t) : t \in DeepTrees} \cup {InitProg(t) : t \in Trees \cup DeepTrees}
Few == {InitProg(<<S(<<2, 3>>), L("msg"), L("panic")>>), Prog(<<B(<<2, 3>>), L("msg"), L("msg")>>)}
=============================================================================
