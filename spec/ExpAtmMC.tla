---------------------------- MODULE ExpAtmMC ----------------------------
EXTENDS ExpAtm, TLC, FiniteSets
CONSTANTS Top, Step
VARIABLES h
Init == h = Step
Next == h < Top /\ h' = h + Step
Spec == Init /\ [][Next]_h
\* the layer found is the only one whose range contains the altitude
OneLayer == {Find(1, h)} = {i \in 1..Len(Layers) : 1000 * Layers[i].base <= h /\ (i = Len(Layers) \/ h < 1000 * Layers[IF i = Len(Layers) THEN i ELSE i + 1].base)}
\* density decreases with altitude, also from layer to layer, and hardly jumps (3 %) where layers meet
Falls == [][Density(h') > Density(h)]_h
Meets == \A i \in 2..Len(Layers) : Abs(Depth(i - 1, 1000 * Layers[i].base) - Layers[i].ln) < 3000
AtBase == \A i \in 1..Len(Layers) : (i > 1 => Density(1000 * Layers[i].base) = Layers[i].ln)
=============================================================================
