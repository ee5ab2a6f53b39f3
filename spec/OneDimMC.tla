------------------------------ MODULE OneDimMC ------------------------------
(* Design model of the one-dimensional formulas: walks over points, potentials*)
(* and grids and checks the laws they must obey.                             *)
EXTENDS OneDim
CONSTANT NX, NG
VARIABLES x, pk, g
vars == <<x, pk, g>>
Pots == << <<"ho", <<1500000>>>>, <<"dw", <<One, 2 * One>>>>, <<"smooth", <<4 * One>>>>, <<"sym", <<Half, One, -7 * One>>>>,
           <<"asym", <<One, One, -2500000>>>>, <<"gauss", <<2 * One, Half, 750000>>>>, <<"atom", <<2 * One, 548785>>>> >>
Init == x = -NX /\ pk = 1 /\ g = 3
Next == \/ g = 3 /\ x < NX /\ x' = x + 1 /\ UNCHANGED <<pk, g>>
        \/ g = 3 /\ pk < Len(Pots) /\ pk' = pk + 1 /\ UNCHANGED <<x, g>>
        \/ g < NG /\ x = -NX /\ pk = 1 /\ g' = g + 1 /\ UNCHANGED <<x, pk>>
Spec == Init /\ [][Next]_vars
xx == x * 125000
kind == Pots[pk][1]
par == Pots[pk][2]
\* the derivative is the limit of difference quotients (16 ms wide); at the kink of the double well the mean of both sides
Dq(h) == FDiv(V(kind, par, xx + h) - V(kind, par, xx - h), 2 * h)
InvDeriv == Near(DV(kind, par, xx), Dq(8000), 6000 + Abs(DV(kind, par, xx)) \div 50)
\* symmetric potentials have odd derivatives
InvOdd == kind \in {"ho", "dw", "smooth", "sym", "atom"} => V(kind, par, -xx) = V(kind, par, xx) /\ Near(DV(kind, par, -xx), -DV(kind, par, xx), 4)
\* free particle on a grid of g+1 interior points, dx = 1: energies 1 - cos(k pi/(g+2))
Zero(i) == 0
InvSturm == \A q \in 1..(g + 1) : ((12 * q) % (g + 2) = 0) =>
   LET E == One - CosK((12 * q) \div (g + 2)) IN Below(Zero, One, E - 5000, g + 1) = q - 1 /\ Below(Zero, One, E + 5000, g + 1) = q
\* Hermite functions are orthonormal and obey the oscillator's position elements (trapezoidal sum, dx = 1/4)
IntH(a, b, w) == LET T(i) == FMul(FMul(IF w THEN (i - 33) * 250000 ELSE One, Hermite(a, One, (i - 33) * 250000)), Hermite(b, One, (i - 33) * 250000)) IN SumF(T, 1, 65) \div 4
InvHermite == (x = -NX /\ pk = 1 /\ g <= 6) => \A b \in 0..3 :
   /\ Near(IntH(g - 3, b, FALSE), IF b = g - 3 THEN One ELSE 0, 100)
   /\ Near(IntH(g - 3, b, TRUE), IF Abs(b - g + 3) = 1 THEN FSqrt((IF b > g - 3 THEN b ELSE g - 3) * Half) ELSE 0, 200)
\* the kinetic energy of a constant vanishes on an infinite grid
Row(q) == LET T(i) == 2 * Kin(i, 0) IN Kin(0, 0) * 1 + SumF(T, 1, q)
InvKin == Abs(Row(g * g)) <= One \div (g * g * g) + 40 * g /\ Kin(x, 0) = Kin(0, x)
\* the interaction is symmetric and decreases
InvShield == LET s(y) == Shield(xx, y, One, 250000) IN s(xx) = 4 * One /\ \A y \in 0..5 : s(xx + y * 300000) > s(xx + (y + 1) * 300000) /\ s(xx + y * 300000) = s(xx - y * 300000)
=============================================================================
