------------------------------ MODULE MCTerms ------------------------------
EXTENDS Terms
M(c, a, b, s, q) == [c |-> c, y |-> <<a, b>>, t |-> s, p |-> q]
F1 == <<<<M(1, 0, 1, 0, 0), M(2, 0, 0, 0, 1)>>, <<M(-1, 1, 0, 0, 0)>>>>
F2 == <<<<M(1, 0, 0, 1, 0)>>, <<M(1, 1, 0, 0, 1), M(-1, 0, 1, 0, 0)>>>>
F3 == <<<<M(1, 1, 1, 0, 0)>>, <<M(2, 0, 0, 0, 0), M(-1, 0, 0, 1, 1)>>>>
G1 == <<<<<<M(1, 0, 0, 0, 0)>>, <<M(1, 1, 0, 0, 0)>>>>, <<<<M(-1, 0, 1, 0, 1)>>, <<M(2, 0, 0, 0, 0)>>>>>>
G2 == <<<<<<M(1, 0, 1, 0, 0)>>, <<>>>>, <<<<M(1, 0, 0, 1, 0)>>, <<M(1, 0, 0, 0, 1), M(-1, 1, 0, 0, 0)>>>>>>
MCLeaves == {[kind |-> "ode", f |-> f] : f \in {F1, F2, F3}} \cup {[kind |-> "diag", f |-> f] : f \in {F1, F2, F3}}
            \cup {[kind |-> "mat", f |-> g] : g \in {G1, G2}}
Multi(s) == [kind |-> "multi", of |-> s]
MCShapes(l) == {l[1], Multi(<<l[1], l[2]>>), Multi(<<Multi(<<l[1], l[2]>>), l[1]>>), Multi(<<l[2], Multi(<<l[1]>>), l[2]>>)}
Ticks == -4..4
MCPaths == {[k \in Ticks |-> <<k * k, 1 - k>>], [k \in Ticks |-> <<(k * k - k), (3 - k * k)>>], [k \in Ticks |-> <<0, IF k > 0 THEN 2 ELSE -1>>]}
MCStates == {<<1, -1>>, <<0, 2>>}
MCParams == {1, -2}
MCStarts == {-1, 0}
MCDirs == {1, -1}
=============================================================================
