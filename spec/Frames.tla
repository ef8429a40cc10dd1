------------------------------- MODULE Frames -------------------------------
\* Celestial and Earth-fixed frames. All rotations are by angles with rational sines and cosines, so that both representations are exact.
EXTENDS Integers, Sequences
\* <<cosine, sine>> in fifths
Ang == << <<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>>, <<-4, -3>>, <<-3, -4>>, <<0, -5>>, <<3, -4>>, <<4, -3>> >>
C(k) == Ang[k + 1][1]
S(k) == Ang[k + 1][2]
\* rotation of the axes by angle k about axis 1, 2, 3 (in fifths)
Rot(ax, k) ==
  IF ax = 1 THEN << <<5, 0, 0>>, <<0, C(k), S(k)>>, <<0, -S(k), C(k)>> >>
  ELSE IF ax = 2 THEN << <<C(k), 0, -S(k)>>, <<0, 5, 0>>, <<S(k), 0, C(k)>> >>
  ELSE << <<C(k), S(k), 0>>, <<-S(k), C(k), 0>>, <<0, 0, 5>> >>
\* derivative of the third with respect to the angle
Spin(k) == << <<-S(k), C(k), 0>>, <<-C(k), -S(k), 0>>, <<0, 0, 0>> >>
Mul(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]]
Tr(a) == [i \in 1..3 |-> [j \in 1..3 |-> a[j][i]]]
Ap(a, v) == [i \in 1..3 |-> a[i][1] * v[1] + a[i][2] * v[2] + a[i][3] * v[3]]
Plus(a, b, k) == [i \in 1..3 |-> a[i] + k * b[i]]
\* par: q, qk: celestial to intermediate (axis, angle); e: Earth rotation angle; p, pk: polar motion; w: rotation rate in units of velocity per unit of length
M(par) == Mul(Rot(par.p, par.pk), Mul(Rot(3, par.e), Rot(par.q, par.qk)))
dM(par) == Mul(Rot(par.p, par.pk), Mul(Spin(par.e), Rot(par.q, par.qk)))
Den == 125
\* <<position, velocity>> in the other frame, in 125ths
ToTer(par, y) == <<Ap(M(par), y[1]), Plus(Ap(M(par), y[2]), Ap(dM(par), y[1]), par.w)>>
ToCel(par, y) == <<Ap(Tr(M(par)), y[1]), Plus(Ap(Tr(M(par)), y[2]), Ap(Tr(dM(par)), y[1]), par.w)>>
Scale(y) == <<[i \in 1..3 |-> Den * y[1][i]], [i \in 1..3 |-> Den * y[2][i]]>>
VARIABLES par, base, y0, frame      \* y0: the state as first given, in frame base; frame: where it is expressed now
Here == IF frame = base THEN Scale(y0) ELSE IF base = "cel" THEN ToTer(par, y0) ELSE ToCel(par, y0)
There == IF frame # base THEN Scale(y0) ELSE IF base = "cel" THEN ToTer(par, y0) ELSE ToCel(par, y0)
Start(q, f, y) == par' = q /\ base' = f /\ frame' = f /\ y0' = y
Change == frame' = (IF frame = "cel" THEN "ter" ELSE "cel") /\ UNCHANGED <<par, base, y0>>
\* ---- which epoch and which parameter reaches which model (times in ms since a reference day, UTC = TAI - leap seconds) ----
TT(tai) == tai + 32184
UT1(tai, leap, dut) == tai - 1000 * leap + dut
=============================================================================
