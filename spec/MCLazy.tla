------------------------------- MODULE MCLazy -------------------------------
(* Scenarios for LazyConc. *)
EXTENDS LazyConc
S(dep, fail, fk, prog) == [dep |-> dep, fail |-> fail, fk |-> fk, prog |-> prog,
                           hand |-> [j \in 1..Len(dep) |-> FALSE]]
SH(dep, fail, fk, hand, prog) == [S(dep, fail, fk, prog) EXCEPT !.hand = hand]
E1 == <<"E">>
E2 == <<"E", "E">>
E3 == <<"E", "E", "E">>
\* every pair of short programs on one lazy value, with up to two failures
One == {S(<<<<>>>>, <<f>>, <<x>>, <<p, q>>) : f \in 0..2, x \in {"E", "B"},
         p \in {<<1>>, <<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>>},
         q \in {<<1>>, <<1, 1>>, <<1, -1>>, <<-1, 1>>}}
Three == {S(<<<<>>>>, <<f>>, E1, <<<<1>>, <<1>>, p>>) : f \in 0..2, p \in {<<1>>, <<-1, 1>>, <<-1, -1>>}}
\* two lazy values, 1 depending on 2
Chain2 == {S(<<<<2>>, <<>>>>, <<f, g>>, <<x, y>>, <<p, q>>) : f \in 0..1, g \in 0..1, x \in {"E", "B"},
            y \in {"E", "B"}, p \in {<<1>>, <<2>>, <<1, 2>>}, q \in {<<1>>, <<2, 1>>, <<-2, 1>>}}
\* a diamond: 1 -> 2, 3 -> 4
Diamond == {S(<<<<2, 3>>, <<4>>, <<4>>, <<>>>>, <<0, 0, 0, g>>, <<"E", "E", "E", "E">>, <<p, q>>) : g \in 0..1,
             p \in {<<1>>, <<2>>}, q \in {<<3>>, <<4>>, <<1>>}}
\* opposite orders of use, and three threads on a chain of three
Cross == {S(<<<<3>>, <<3>>, <<>>>>, <<0, 0, g>>, E3, <<<<1, 2>>, <<2, 1>>>>) : g \in 0..1}
Chain3 == {S(<<<<2>>, <<3>>, <<>>>>, <<0, 0, g>>, E3, <<<<1>>, <<2>>, <<3>>>>) : g \in 0..1}
\* functions that have another thread request what they need, and wait for it
Handed == {SH(<<<<2>>, <<>>>>, <<f, g>>, <<x, x>>, <<TRUE, FALSE>>, <<p, q>>) : f \in 0..1, g \in 0..1, x \in {"E", "B"},
            p \in {<<1>>}, q \in {<<1>>, <<2>>, <<2, 1>>}}
          \cup {SH(<<<<2, 3>>, <<3>>, <<>>>>, <<0, 0, g>>, E3, hh, <<<<1>>, <<q>>>>) : g \in 0..1, q \in 1..3,
                 hh \in {<<TRUE, FALSE, FALSE>>, <<TRUE, TRUE, FALSE>>, <<FALSE, TRUE, FALSE>>}}
\* two pairs with nothing in common
Pairs == {S(<<<<2>>, <<>>, <<4>>, <<>>>>, <<0, 0, 0, 0>>, <<"E", "E", "E", "E">>, <<<<1>>, <<3>>>>),
          S(<<<<2>>, <<>>, <<>>, <<3>>>>, <<0, 0, 0, 0>>, <<"E", "E", "E", "E">>, <<<<1>>, <<4>>>>)}
Quick == One \cup Three \cup Chain2 \cup Cross \cup Handed \cup Pairs
All == Quick \cup Diamond \cup Chain3
\* the ones whose visible histories are forced on the real code
Hist1 == {S(<<<<>>>>, <<f>>, <<x>>, <<p, q>>) : f \in 0..1, x \in {"E", "B"}, p \in {<<1>>, <<1, 1>>}, q \in {<<1>>, <<-1, 1>>, <<1, -1>>}}
Hist2 == {S(<<<<>>>>, <<f>>, E1, <<<<1>>, <<1>>, <<1>>>>) : f \in 0..2}
Hist3 == {S(<<<<2>>, <<>>>>, <<0, g>>, E2, <<p, q>>) : g \in 0..1, p \in {<<1>>}, q \in {<<1>>, <<2>>, <<2, 1>>}}
Hist4 == {SH(<<<<2>>, <<>>>>, <<0, g>>, E2, <<TRUE, FALSE>>, <<<<1>>, q>>) : g \in 0..1, q \in {<<1>>, <<2>>}}
Hist == Hist1 \cup Hist2 \cup Hist3 \cup Hist4
=============================================================================
