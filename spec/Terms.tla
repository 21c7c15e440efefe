------------------------------- MODULE Terms -------------------------------
(* Term language: the specification writes the closed forms it requires as   *)
(* terms; the conformance harness evaluates them in extended precision with  *)
(* the concrete values bound to the variables (harness/vlib.py, ev).         *)
(* TLC itself reasons about the case analysis, signs and identities on       *)
(* integers/rationals.                                                       *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Q(n, d)      == <<"q", n, d>>
N(n)         == <<"q", n, 1>>
V(name)      == <<"v", name>>
Pi           == <<"pi">>
Add(a, b)    == <<"add", a, b>>
Add3(a, b, c) == <<"add", a, b, c>>
Sub(a, b)    == <<"sub", a, b>>
Mul(a, b)    == <<"mul", a, b>>
Mul3(a, b, c) == <<"mul", a, b, c>>
Div(a, b)    == <<"div", a, b>>
Neg(a)       == <<"neg", a>>
Pow(a, n)    == <<"pow", a, n>>
Sqrt(a)      == <<"sqrt", a>>
Exp(a)       == <<"exp", a>>
Ln(a)        == <<"ln", a>>
Sin(a)       == <<"sin", a>>
Cos(a)       == <<"cos", a>>
Atan2(a, b)  == <<"atan2", a, b>>
Abs(a)       == <<"abs", a>>
LnPlus(x, s) == <<"lnplus", x, s>>     \* ln(x + sqrt(x^2 + s)), see vlib.ev
AtanQ(n, d)  == <<"atanq", n, d>>      \* atan(n / d), 0 when d = 0
Rd(x, y, z)  == <<"rd", x, y, z>>        \* Carlson's symmetric elliptic integral of the second kind
Sum(seq)     == <<"sum", seq>>
Sq(a)        == Mul(a, a)
Hyp(a, b, c) == Sqrt(Add3(Sq(a), Sq(b), Sq(c)))
Times(k, a)  == IF k = 1 THEN a ELSE IF k = -1 THEN Neg(a) ELSE Mul(N(k), a)
============================================================================
