------------------------------ MODULE ExpAtm ------------------------------
\* The layered exponential atmosphere (Vallado, Fundamentals of Astrodynamics, table 8-4).
\* base: lower limit of the layer [km]; ln: - 10^5 ln (density at the base [kg/m^3]); H: scale height [m]. Altitudes in metres.
EXTENDS Integers, Sequences
Layers == <<
  [base |-> 0, ln |-> -20294, H |-> 7249],
  [base |-> 25, ln |-> 324445, H |-> 6349],
  [base |-> 30, ln |-> 403193, H |-> 6682],
  [base |-> 40, ln |-> 552849, H |-> 7554],
  [base |-> 50, ln |-> 685232, H |-> 8382],
  [base |-> 60, ln |-> 804532, H |-> 7714],
  [base |-> 70, ln |-> 934159, H |-> 6549],
  [base |-> 80, ln |-> 1086844, H |-> 5799],
  [base |-> 90, ln |-> 1259291, H |-> 5382],
  [base |-> 100, ln |-> 1445096, H |-> 5877],
  [base |-> 110, ln |-> 1615258, H |-> 7263],
  [base |-> 120, ln |-> 1752950, H |-> 9473],
  [base |-> 130, ln |-> 1858508, H |-> 12636],
  [base |-> 140, ln |-> 1937649, H |-> 16149],
  [base |-> 150, ln |-> 1999572, H |-> 22523],
  [base |-> 180, ln |-> 2132767, H |-> 29740],
  [base |-> 200, ln |-> 2200017, H |-> 37105],
  [base |-> 250, ln |-> 2334771, H |-> 45546],
  [base |-> 300, ln |-> 2444550, H |-> 53628],
  [base |-> 350, ln |-> 2537784, H |-> 53298],
  [base |-> 400, ln |-> 2631595, H |-> 58515],
  [base |-> 450, ln |-> 2717044, H |-> 60828],
  [base |-> 500, ln |-> 2799242, H |-> 63822],
  [base |-> 600, ln |-> 2955929, H |-> 71835],
  [base |-> 700, ln |-> 3095138, H |-> 88667],
  [base |-> 800, ln |-> 3207919, H |-> 124640],
  [base |-> 900, ln |-> 3288150, H |-> 181050],
  [base |-> 1000, ln |-> 3343385, H |-> 268000]>>
\* the layers as a search, from the ground up
RECURSIVE Find(_, _)
Find(i, h) == IF i = Len(Layers) THEN i ELSE IF h < 1000 * Layers[i + 1].base THEN i ELSE Find(i + 1, h)
\* 10^k a / b, digit by digit (a < b * 1000, numbers stay small)
RECURSIVE Ratio(_, _, _)
Ratio(a, b, k) == IF k = 0 THEN a \div b ELSE (a \div b) * (10 ^ k) + Ratio(10 * (a % b), b, k - 1) 
\* - 10^5 ln density, within a few units
Depth(i, h) == Layers[i].ln + Ratio(h - 1000 * Layers[i].base, Layers[i].H, 5)
Density(h) == Depth(Find(1, h), h)
Abs(x) == IF x < 0 THEN -x ELSE x
=============================================================================
