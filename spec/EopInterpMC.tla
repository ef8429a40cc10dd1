---------------------------- MODULE EopInterpMC ----------------------------
(* Small instance: made-up models Z, O, L.  A regularised table gives back the   *)
(* raw values plus the sub-daily terms only; regularising is undone by nothing   *)
(* else; only dut and lod are ever touched by zonal tides.  Generates histories. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Emit
VARIABLES tab, hist, done
Params == {"xp", "dut", "dx"}
Z(p, h) == IF p = "dut" THEN 2 * h + 1 ELSE 0
O(p, h) == IF p = "dx" THEN 0 ELSE 5 * h + 3
L(p, h) == IF p = "xp" THEN 7 ELSE 0
E == INSTANCE EopInterp
Cubics == {[p \in Params |-> <<1, 2, 0, 0>>], [p \in Params |-> IF p = "dut" THEN <<0, 1, 1, 1>> ELSE <<5, 0, 0, 0>>]}
Init == tab = E!Empty /\ hist = <<>> /\ done = FALSE
Hh(op, a) == hist' = Append(hist, [op |-> op, a |-> a])
Step == ~done /\ Len(hist) < N /\ UNCHANGED done /\
  \/ \E n \in {4, 6, 7}, c \in Cubics : E!Fill(51000, n, c) /\ Hh("Fill", <<n>>)
  \/ tab.n > 0 /\ E!Regularize /\ Hh("Regularize", <<>>)
  \/ tab.n > 0 /\ UNCHANGED tab /\ \E u \in {0, 1, 4, 5, 6, 11, 12}, ord \in {1, 3, 5} : Hh("Interp", <<u, ord>>)
  \/ tab.n > 0 /\ UNCHANGED tab /\ \E u \in {2, 5}, ord \in {1, 3} : Hh("Lag", <<u, ord>>)
Finish == ~done /\ Len(hist) = N /\ done' = TRUE /\ UNCHANGED <<tab, hist>>
Spec == Init /\ [][Step \/ Finish]_<<tab, hist, done>>
Us == 0..2 * tab.n
RegularisedOnce == tab.k = 1 => \A u \in Us, p \in Params : E!Full(tab, p, u) = E!Cubic8(tab.c[p], u) + 8 * (O(p, E!H(tab, u)) + L(p, E!H(tab, u)))
Untouched == \A u \in Us : E!Full(tab, "dx", u) = E!Plain(tab, "dx", u) /\ E!Plain(tab, "xp", u) = E!Cubic8(tab.c["xp"], u)
EnoughEntries == \A u \in Us, ord \in {1, 3, 5} : E!Fits(tab, u, ord) => tab.n > ord
EmitBeh == (Emit /\ done) => PrintT("BEH " \o ToJson(hist))
=============================================================================
