------------------------------ MODULE ConfigMC ------------------------------
(* All configurations of a few names, lookups one after the other.             *)
EXTENDS Config, TLC, Json
CONSTANTS L, Wide, Emit
VARIABLES root, asked
vars == <<root, asked>>
Names == <<"a", "b">>
S(s, i, m) == [t |-> "scalar", k |-> <<>>, c |-> <<>>, s |-> s, i |-> i, m |-> m]
Leaf == {S("7", <<7>>, <<7000>>), S("2.5", <<>>, <<2500>>), S("word", <<>>, <<>>)}
Null == [t |-> "null", k |-> <<>>, c |-> <<>>, s |-> "", i |-> <<>>, m |-> <<>>]
Map(k, c) == [t |-> "map", k |-> k, c |-> c, s |-> "", i |-> <<>>, m |-> <<>>]
Of(Nodes) == {Map(<<n>>, <<x>>) : n \in {"a", "b"}, x \in Nodes} \cup {Map(Names, <<x, y>>) : x \in Nodes, y \in Nodes}
D1 == Of({S("7", <<7>>, <<7000>>), S("word", <<>>, <<>>)})
D2 == IF ~Wide THEN Of({S("word", <<>>, <<>>), Map(<<"a">>, <<S("7", <<7>>, <<7000>>)>>)}) ELSE Of(Leaf \cup {Null} \cup {Map(<<"a">>, <<S("7", <<7>>, <<7000>>)>>), Map(Names, <<S("word", <<>>, <<>>), S("2.5", <<>>, <<2500>>)>>)})
Roots == Of(D2 \cup {S("7", <<7>>, <<7000>>)}) \cup Leaf \cup {Null}
Paths == {<<x, y>> : x \in {"a", "b"}, y \in {"a", "b"}} \cup {<<x, y, z>> : x \in {"a", "b"}, y \in {"a", "b"}, z \in {"a", "b"}}
Init == root \in Roots /\ asked = <<>>
Ask == Len(asked) < L /\ \E p \in Paths, ty \in {"str", "int", "real"} : asked' = Append(asked, <<p, ty, Lookup(root, p, ty)>>) /\ UNCHANGED root
Spec == Init /\ [][Ask]_vars
\* a path and a longer one do not both name values
Ends == \A i, j \in 1..Len(asked) : Len(asked[i][1]) < Len(asked[j][1]) /\ asked[i][1] = SubSeq(asked[j][1], 1, Len(asked[i][1])) => asked[i][3] = <<>> \/ asked[j][3] = <<>>
\* what is a number is text; what is an integer is a real of the same value
Types == \A i, j \in 1..Len(asked) : asked[i][1] = asked[j][1] =>
           /\ (asked[i][3] /= <<>> /\ asked[j][2] = "str" => asked[j][3] /= <<>>)
           /\ (asked[i][2] = "int" /\ asked[i][3] /= <<>> /\ asked[j][2] = "real" => asked[j][3] = <<1000 * asked[i][3][1]>>)
\* longer paths are lookups in the section the first name gives
Nested == \A i \in 1..Len(asked) : asked[i][3] = Lookup(Child(root, asked[i][1][1]), Tail(asked[i][1]), asked[i][2])
Same == \A i, j \in 1..Len(asked) : asked[i][1] = asked[j][1] /\ asked[i][2] = asked[j][2] => asked[i][3] = asked[j][3]
EmitBeh == (Emit /\ Len(asked) = L) => PrintT("BEH " \o ToJson(<<root, [i \in 1..L |-> <<asked[i][1], asked[i][2]>>]>>))
=============================================================================
