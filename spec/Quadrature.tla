------------------------------ MODULE Quadrature ------------------------------
(* The Chebyshev-Legendre quadrature of order n on the unit sphere: the       *)
(* product of n Gauss-Legendre nodes in the third coordinate and 2n equally    *)
(* spaced azimuths.  Direction 2n*i + k + 1 has node i and azimuth k.          *)
EXTENDS Fp, Integers, Sequences

Tol == FDec("1e-12")
One == FInt(1)

\* <<P_n(x), P_{n-1}(x)>>
RECURSIVE Legendre(_, _)
Legendre(n, x) ==
    IF n = 1 THEN <<x, One>>
    ELSE LET p == Legendre(n - 1, x)
         IN <<FDiv(FSub(FMul(FMul(FInt(2*n - 1), x), p[1]), FMul(FInt(n - 1), p[2])), FInt(n)), p[1]>>
\* P_n'(x) = n (x P_n - P_{n-1}) / (x^2 - 1)
Derivative(n, x) ==
    LET p == Legendre(n, x)
    IN FDiv(FMul(FInt(n), FSub(FMul(x, p[1]), p[2])), FSub(FMul(x, x), One))

\* one Newton step from x stays at x
IsNode(n, x) == FLt(FAbs(FDiv(Legendre(n, x)[1], Derivative(n, x))), Tol)
NodeWeight(n, x) ==
    LET d == Derivative(n, x) IN FDiv(FInt(2), FMul(FSub(One, FMul(x, x)), FMul(d, d)))

\* Direction d (number i, from 1) with weight w is the one of the set of order n.
RightDirection(n, i, d, w) ==
    LET k == (i - 1) % (2 * n)
        phi == FMul(FDiv(FPi, FInt(n)), FAdd(FInt(k), FRat(1, 2)))
        s == FSqrt(FSub(One, FMul(d[3], d[3])))
    IN /\ IsNode(n, d[3])
       /\ FClose(d[1], FMul(s, FCos(phi)), FInt(0), Tol)
       /\ FClose(d[2], FMul(s, FSin(phi)), FInt(0), Tol)
       /\ FClose(w, FDiv(FMul(NodeWeight(n, d[3]), FPi), FInt(n)), FDec("1e-11"), FInt(0))
       /\ FLt(FInt(0), w)
Unit(d) == FClose(FDot(d, d), One, FInt(0), Tol)

\* All directions with one azimuth have different nodes; one node serves all azimuths.
RightNumbering(n, ds) ==
    /\ Len(ds) = 2 * n * n
    /\ \A i \in 1..Len(ds) : ds[i].o[3] = ds[((i - 1) \div (2 * n)) * 2 * n + 1].o[3]
    /\ \A i, j \in 0..(n - 1) : i # j =>
         FLt(FDec("1e-6"), FAbs(FSub(ds[2*n*i + 1].o[3], ds[2*n*j + 1].o[3])))

Mirror(d, axis) == [j \in 1..3 |-> IF j = axis THEN FNeg(d[j]) ELSE d[j]]
SameDirection(d, e) == \A j \in 1..3 : FClose(d[j], e[j], FInt(0), Tol)
Symmetric(ds, i) ==
    \A axis \in 1..3 : \E j \in 1..Len(ds) :
        /\ FClose(ds[j].o[axis], FNeg(ds[i].o[axis]), FInt(0), Tol)
        /\ SameDirection(ds[j].o, Mirror(ds[i].o, axis))
        /\ FClose(ds[j].w, ds[i].w, FDec("1e-12"), FInt(0))

\* ---- integrals of monomials ---------------------------------------------------
RECURSIVE Power(_, _), OddFactorial(_)
Power(x, m) == IF m = 0 THEN One ELSE FMul(x, Power(x, m - 1))
OddFactorial(m) == IF m <= 1 THEN 1 ELSE m * OddFactorial(m - 2)    \* m (m-2) (m-4) ...
Exact(a, b, c) ==
    IF a % 2 = 1 \/ b % 2 = 1 \/ c % 2 = 1 THEN FInt(0)
    ELSE FMul(FMul(FInt(4), FPi),
              FRat(OddFactorial(a - 1) * OddFactorial(b - 1) * OddFactorial(c - 1), OddFactorial(a + b + c + 1)))
Integral(ds, a, b, c) ==
    FSum([i \in 1..Len(ds) |->
        FMul(ds[i].w, FMul(Power(ds[i].o[1], a), FMul(Power(ds[i].o[2], b), Power(ds[i].o[3], c))))])
Integrates(n, ds, degree) ==
    \A a, b, c \in 0..degree : (a + b + c <= degree /\ a + b + c <= 2 * n - 1) =>
        FClose(Integral(ds, a, b, c), Exact(a, b, c), FInt(0), FDec("1e-10"))
===============================================================================
