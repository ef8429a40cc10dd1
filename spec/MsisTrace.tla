----------------------------- MODULE MsisTrace -----------------------------
EXTENDS Msis, TraceIO, FiniteSets
\* memo: what has been answered for which inputs in this scenario
VARIABLES memo
vars == <<memo, l>>
TraceInit == memo = <<>> /\ l = 1
In == [kind |-> Ev.kind, mass |-> Ev.mass, meters |-> Ev.meters, year |-> Ev.year, doy |-> Ev.doy, sec |-> Ev.sec, alt |-> Ev.alt, lat |-> Ev.lat, lon |-> Ev.lon,
       lst |-> Ev.lst, fa |-> Ev.fa, f |-> Ev.f, ap |-> Ev.ap, aparr |-> Ev.aparr, set |-> Ev.set]
Out == [bits |-> Ev.bits, d |-> Ev.d, t |-> Ev.t]
\* shares of the species in the total mass density, in millionths
RECURSIVE Sum(_, _, _)
Sum(s, n, i) == IF i > n THEN 0 ELSE (IF i = 6 THEN 0 ELSE Weight[i] * s[i]) + Sum(s, n, i + 1)
Abs(v) == IF v >= 0 THEN v ELSE -v
Total(x) == IF x.mass # 48 THEN Ev.d[6][1] = 0 ELSE Ev.d[6][1] > 0 /\ Abs(Sum(Ev.sh, IF x.kind = 1 THEN 9 ELSE 8, 1) - 1000000) <= 100
\* below the mesopause there is no atomic oxygen, hydrogen, nitrogen nor anomalous oxygen; without a mass, or for species not asked for, there is nothing at all
None(x) == /\ ((~Thermo(x)) => (\A i \in {2, 7, 8, 9} : Ev.d[i][1] = 0))
           /\ (x.mass = 0 => (\A i \in 1..9 : Ev.d[i][1] = 0))
           /\ (\A i \in 1..9 : Ev.d[i][1] >= 0)
           /\ Ev.t[1][1] > 0 /\ Ev.t[2][1] > 0
\* the other answers of this scenario for the same place and time
Rel(x, y, o, q) ==
  \* the same in metres
  /\ (([x EXCEPT !.meters = 0] = [y EXCEPT !.meters = 0] /\ x.meters = 1 /\ y.meters = 0) => (ToMeters(q.d, o.d) /\ SubSeq(o.bits, 145, 176) = SubSeq(q.bits, 145, 176)))
  /\ (([x EXCEPT !.meters = 0] = [y EXCEPT !.meters = 0] /\ x.meters = 0 /\ y.meters = 1) => ToMeters(o.d, q.d))
  \* the total with anomalous oxygen changes nothing else
  /\ ([x EXCEPT !.kind = 0] = [y EXCEPT !.kind = 0] => (SubSeq(o.bits, 1, 80) = SubSeq(q.bits, 1, 80) /\ SubSeq(o.bits, 97, 176) = SubSeq(q.bits, 97, 176)))
  \* one species is what it is among all
  /\ (([x EXCEPT !.mass = 0] = [y EXCEPT !.mass = 0] /\ x.kind = y.kind /\ Thermo(x) /\ SpeciesOf(x.mass) # 0 /\ y.mass = 48) =>
        (LET s == SpeciesOf(x.mass) IN SubSeq(o.bits, 16 * s - 15, 16 * s) = SubSeq(q.bits, 16 * s - 15, 16 * s)))
  \* temperatures do not depend on the species asked for
  /\ (([x EXCEPT !.mass = 0] = [y EXCEPT !.mass = 0] /\ Thermo(x)) => SubSeq(o.bits, 145, 176) = SubSeq(q.bits, 145, 176))
Call ==
  LET x == In
      o == Out
  IN /\ Ev.rc = 0
     /\ (\A i \in 1..Len(memo) : (Key(memo[i].x) = Key(x)) => memo[i].o.bits = o.bits)
     /\ (\A i \in 1..Len(memo) : Rel(x, memo[i].x, o, memo[i].o))
     /\ Total(x) /\ None(x)
     /\ memo' = Append(memo, [x |-> x, o |-> o])
\* published sample results
Known == /\ \A i \in 1..9 : Scaled(Ev.d[i], Ev.want[i], 0, 30000)
         /\ \A i \in 1..2 : Near(Ev.t[i], Ev.want[9 + i], 1000)
TraceNext ==
  \/ IsEvent("New") /\ memo' = <<>>
  \/ IsEvent("Call") /\ Call
  \/ IsEvent("Known") /\ Known /\ UNCHANGED memo
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
