---------------------------- MODULE IcgemHeader ----------------------------
(* Header of a gravity-model file as a line-by-line state machine (property   *)
(* C05).  A line is [k, v, q]: keyword class, value, quality of the value     *)
(* ("ok", "bad": malformed / out of range, "empty": keyword without value).   *)
EXTENDS Integers, Sequences
HKinds == {"gm", "re", "deg", "str", "norm", "text", "end"}
Texts == {"product_type", "modelname", "errors", "tide_system"}          \* keywords with a text value
H0 == [st |-> "run", gm |-> 0, re |-> 0, deg |-> 0, norm |-> 1,
       txt |-> [w \in Texts |-> IF w = "tide_system" THEN "unknown" ELSE ""]]
Fail(h) == [h EXCEPT !.st = "err"]
HStep(h, L) ==
  IF h.st # "run" THEN h
  ELSE CASE L.k = "text" -> h
         [] L.k = "end"  -> IF h.gm # 0 /\ h.re # 0 /\ h.deg > 0 THEN [h EXCEPT !.st = "ok"] ELSE Fail(h)
         [] L.k = "gm"   -> IF L.q = "ok" /\ L.v # 0 THEN [h EXCEPT !.gm = L.v] ELSE Fail(h)
         [] L.k = "re"   -> IF L.q = "ok" /\ L.v # 0 THEN [h EXCEPT !.re = L.v] ELSE Fail(h)
         [] L.k = "deg"  -> IF L.q = "ok" /\ L.v > 0 THEN [h EXCEPT !.deg = L.v] ELSE Fail(h)
         [] L.k = "str"  -> IF L.q = "ok" THEN [h EXCEPT !.txt[L.w] = L.t] ELSE Fail(h)
         [] L.k = "norm" -> IF L.q = "ok" THEN [h EXCEPT !.norm = L.v] ELSE Fail(h)
HEof(h) == IF h.st = "run" THEN Fail(h) ELSE h       \* text ran out before end_of_head
RECURSIVE HFold(_, _, _)
HFold(h, ls, i) == IF i > Len(ls) THEN HEof(h) ELSE HFold(HStep(h, ls[i]), ls, i + 1)
HeaderOf(ls) == HFold(H0, ls, 1)

VARIABLES h, pos
hvars == <<h, pos>>
HInit == h = H0 /\ pos = 0
HLine(L) == h.st = "run" /\ h' = HStep(h, L) /\ pos' = pos + 1
HEnd == h.st = "run" /\ h' = HEof(h) /\ UNCHANGED pos

\* design properties
HTypeOK == h.st \in {"run", "ok", "err"} /\ h.norm \in {0, 1}
OkIsComplete == h.st = "ok" => (h.gm # 0 /\ h.re # 0 /\ h.deg > 0)
NoResurrection == [][h.st \in {"ok", "err"} => h' = h]_hvars
=============================================================================
