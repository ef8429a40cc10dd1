--------------------------- MODULE GravityTrace ---------------------------
EXTENDS Gravity, TraceIO
vars == <<tab, ws, l>>
TraceInit == Init /\ l = 1
Same == UNCHANGED <<tab, ws>>
\* polynomials in the order of degree and order
RECURSIVE PolySeq(_, _, _, _, _, _)
PolySeq(p, n, m, deg, ord, part) ==
  IF n > deg \/ n > N THEN <<>> ELSE IF m > n \/ m > ord THEN PolySeq(p, n + 1, 0, deg, ord, part) ELSE <<Poly(p, n, m, part)>> \o PolySeq(p, n, m + 1, deg, ord, part)
Flat(g) == <<g[1][1], g[1][2], g[1][3], g[2][1], g[2][2], g[2][3], g[3][1], g[3][2], g[3][3]>>
Field(p, nu) == /\ Ev.a = Acc(p, nu, Ev.deg, Ev.ord) /\ (Ev.par = 1 => Ev.g = Flat(Par(p, nu, Ev.deg, Ev.ord)))
Sgn(s, k) == IF s = 1 \/ Even(k) THEN 1 ELSE -1
\* cosine of n quarters
Cq(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sq(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
TraceNext ==
  \/ IsEvent("New") /\ Begin
  \/ IsEvent("Set") /\ SetCoef(Ev.n, Ev.m, Ev.part, Ev.v)
  \/ IsEvent("Fill") /\ Ev.ord <= Ev.deg /\ Ev.rc = 0 /\ Fill(Ev.k, Ev.p, Ev.nu, Ev.deg, Ev.ord) /\ Ev.v = PolySeq(Ev.p, 0, 0, Ev.deg, Ev.ord, "c") /\ Ev.s = PolySeq(Ev.p, 0, 0, Ev.deg, Ev.ord, "s")
  \/ IsEvent("Fill") /\ Ev.ord > Ev.deg /\ Ev.rc # 0 /\ Same
  \/ IsEvent("Storage") /\ Ev.bad = 0 /\ Same
  \/ IsEvent("Use") /\ Use(Ev.k, Ev.deg, Ev.ord, Ev.par = 1) /\ Field(ws[Ev.k].p, ws[Ev.k].nu)
  \/ IsEvent("At") /\ Same /\ Field(Ev.p, Ev.nu)
  \* single terms of any degree, where they are simple: at the reference radius on the axis and on the equator
  \/ IsEvent("Axis") /\ Same /\ Ev.a = <<0, 0, -(Ev.n + 1) * Sgn(Ev.sg, Ev.n + 1)>> /\ (Ev.par = 1 => Ev.g = LET k == (Ev.n + 1) * (Ev.n + 2) * Sgn(Ev.sg, Ev.n) IN <<-k, -k, k>>)
  \/ IsEvent("Equator") /\ Same /\ LET k == Ev.n * Ev.q
                                      rad == -(Ev.n + 1) * (IF Ev.part = "c" THEN Cq(k) ELSE Sq(k))
                                      tan == Ev.n * (IF Ev.part = "c" THEN -Sq(k) ELSE Cq(k))
                                  IN Ev.a = <<rad * Cq(Ev.q) - tan * Sq(Ev.q), rad * Sq(Ev.q) + tan * Cq(Ev.q), 0>>
  \* large expansions: the gradient of a harmonic field, linear in the coefficients, cut by the window, turning with the field, whatever the workspace held
  \/ IsEvent("Rel") /\ Same /\ Ev.same <= 1000 /\ Ev.lin <= 10 /\ Ev.cut <= 10 /\ Ev.turn <= 10 /\ Ev.curl <= 2000 /\ Ev.div <= 2000 /\ Ev.fd <= 2000 /\ Ev.sym = 0
  \/ IsEvent("Mass") /\ Same /\ LET m == Mass(Ev.d, Ev.dl, Ev.s, Ev.sl) IN Ev.a = m /\ Ev.b = m /\ Ev.c = m /\ Ev.g = Flat(MassPar(Ev.d, Ev.dl))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
