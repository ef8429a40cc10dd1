------------------------------ MODULE GfcConv ------------------------------
(* Gravity-model files with numbers as FORTRAN writes them (exponent letter D):*)
(* the converted file has the same lines; up to the end of the header as they  *)
(* are, after it with the exponents of such numbers written with e.            *)
(* A line is a sequence of words; a number is [s, i, f, x, e]: sign, integer   *)
(* and fractional digits, exponent letter, exponent; a word [w].               *)
EXTENDS Integers, Sequences
Text(t) == IF "w" \in DOMAIN t THEN t.w ELSE t.s \o t.i \o "." \o t.f \o t.x \o t.e
Low(t, inData) == IF "w" \in DOMAIN t \/ ~inData \/ t.x \notin {"D", "d"} THEN Text(t) ELSE t.s \o t.i \o "." \o t.f \o "e" \o t.e
End(lines) == LET I == {i \in 1..Len(lines) : lines[i] /= <<>> /\ "w" \in DOMAIN lines[i][1] /\ lines[i][1].w = "end_of_head"} IN
              IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Converted(lines) == [i \in 1..Len(lines) |-> [k \in 1..Len(lines[i]) |-> Low(lines[i][k], i > End(lines))]]
=============================================================================
