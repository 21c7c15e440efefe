------------------------------ MODULE Spectrum ------------------------------
(* Grid transformations as gains of Fourier modes.                            *)
(*                                                                            *)
(* A grid of NY x NX points holds modes <<p, q>> (p cycles along northing, q  *)
(* along easting).  A transformation multiplies a mode by a complex gain that *)
(* depends on its wavenumbers only; a pipeline multiplies the gains.  Gains   *)
(* are terms in kx, ky (radians per unit of length) for the harness, and      *)
(* exact Gaussian integers for TLC on modes with integer |k|.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms

CONSTANTS Sizes,     \* sequence of <<NY, NX>>
          Modes,     \* set of <<p, q>>
          Orders, Heights, Waves,       \* Waves: cutoff wavelengths (in units of the grid spacing)
          Angles,    \* set of <<inclination, declination>> in degrees
          Depth      \* maximum length of a pipeline

VARIABLES size, mode, pipe
vars == <<size, mode, pipe>>

\* ------------------------------------------------------------------ operators
East(n) == [op |-> "east", n |-> n]
North(n) == [op |-> "north", n |-> n]
Up(n) == [op |-> "up", n |-> n]
Cont(h) == [op |-> "cont", n |-> h]
Low(w) == [op |-> "low", n |-> w]
High(w) == [op |-> "high", n |-> w]
Pole(f, m) == [op |-> "pole", n |-> 0, f |-> f, m |-> m]
Ops == {East(n) : n \in Orders} \cup {North(n) : n \in Orders} \cup {Up(n) : n \in Orders}
       \cup {Cont(h) : h \in Heights} \cup {Low(w) : w \in Waves} \cup {High(w) : w \in Waves}
       \cup {Pole(f, m) : f \in Angles, m \in Angles}

\* ------------------------------------------------------- gains as terms (re, im)
Kx == V("kx")
Ky == V("ky")
K2 == Add(Sq(Kx), Sq(Ky))
K == Sqrt(K2)
RECURSIVE Power(_, _)
Power(t, n) == IF n = 0 THEN N(1) ELSE IF n = 1 THEN t ELSE Mul(t, Power(t, n - 1))
\* i^n t
Turn(n, t) == CASE n % 4 = 0 -> <<t, N(0)>> [] n % 4 = 1 -> <<N(0), t>>
                [] n % 4 = 2 -> <<Neg(t), N(0)>> [] OTHER -> <<N(0), Neg(t)>>
\* a Gaussian with cutoff wavelength w: exp(-(|k| / kc)^2 / 2), kc = 2 pi / w
Gauss(w) == Exp(Neg(Div(Sq(Div(Mul(K, Mul(N(w), V("unit"))), Mul(N(2), Pi))), N(2))))
DegT(d) == Div(Mul(N(d), Pi), N(180))
\* |k| Theta = (down |k|) + i (e kx + n ky), unit vector of an inclination (positive down) and declination (positive east)
ThetaRe(a) == Mul(Sin(DegT(a[1])), K)
ThetaIm(a) == Add(Mul3(Cos(DegT(a[1])), Sin(DegT(a[2])), Kx), Mul3(Cos(DegT(a[1])), Cos(DegT(a[2])), Ky))
CMul(a, b) == <<Sub(Mul(a[1], b[1]), Mul(a[2], b[2])), Add(Mul(a[1], b[2]), Mul(a[2], b[1]))>>
PoleGain(f, m) ==
  LET d == CMul(<<ThetaRe(f), ThetaIm(f)>>, <<ThetaRe(m), ThetaIm(m)>>)
      s == Add(Sq(d[1]), Sq(d[2]))
  IN <<Div(Mul(K2, d[1]), s), Neg(Div(Mul(K2, d[2]), s))>>
GainT(o) ==
  CASE o.op = "east" -> Turn(o.n, Power(Kx, o.n))
    [] o.op = "north" -> Turn(o.n, Power(Ky, o.n))
    [] o.op = "up" -> <<Power(Neg(K), o.n), N(0)>>
    [] o.op = "cont" -> <<Exp(Neg(Mul(K, Mul(N(o.n), V("unit"))))), N(0)>>
    [] o.op = "low" -> <<Gauss(o.n), N(0)>>
    [] o.op = "high" -> <<Sub(N(1), Gauss(o.n)), N(0)>>
    [] o.op = "pole" -> PoleGain(o.f, o.m)

\* ------------------------------------------- exact gains on modes of integer |k|
GMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
RECURSIVE GPow(_, _)
GPow(a, n) == IF n = 0 THEN <<1, 0>> ELSE GMul(a, GPow(a, n - 1))
IntK == [m \in Modes |-> IF \E k \in 0..100 : k * k = m[1] * m[1] + m[2] * m[2]
                         THEN CHOOSE k \in 0..100 : k * k = m[1] * m[1] + m[2] * m[2] ELSE -1]
Exact(o, m) ==
  CASE o.op = "east" -> GPow(<<0, m[2]>>, o.n)
    [] o.op = "north" -> GPow(<<0, m[1]>>, o.n)
    [] o.op = "up" -> GPow(<<-IntK[m], 0>>, o.n)
    [] OTHER -> <<1, 0>>
Differential(o) == o.op \in {"east", "north", "up"}
RECURSIVE ExactPipe(_, _)
ExactPipe(s, m) == IF s = <<>> THEN <<1, 0>> ELSE GMul(Exact(Head(s), m), ExactPipe(Tail(s), m))

\* a mode at the Nyquist wavenumber of a direction has no slope on the grid in that direction
Nyq(m, sz) == [n |-> 2 * m[1] = sz[1], e |-> 2 * m[2] = sz[2]]
Vanishes(o, m, sz) == o.n % 2 = 1 /\ ((o.op = "east" /\ Nyq(m, sz).e) \/ (o.op = "north" /\ Nyq(m, sz).n))
\* reduction to the pole has no defined mean, and at Nyquist it is not defined by the mode alone
Allowed(o, m, sz) == o.op = "pole" => (m # <<0, 0>> /\ ~Nyq(m, sz).n /\ ~Nyq(m, sz).e)

Fits(m, sz) == 2 * m[1] <= sz[1] /\ 2 * m[2] <= sz[2] /\ 2 * m[2] > -sz[2] /\ m[1] >= 0

Init == /\ size \in {Sizes[k] : k \in 1..Len(Sizes)} /\ mode \in {m \in Modes : Fits(m, size)} /\ pipe = <<>>
Apply == /\ Len(pipe) < Depth
         /\ \E o \in Ops : /\ Allowed(o, mode, size)
                           /\ pipe' = Append(pipe, o)
         /\ UNCHANGED <<size, mode>>
Spec == Init /\ [][Apply]_vars

\* ------------------------------------------------------------------ invariants
\* Laplace: the three second derivatives of a harmonic field cancel
Laplace == IntK[mode] >= 0 =>
  LET a == Exact(East(2), mode) b == Exact(North(2), mode) c == Exact(Up(2), mode)
  IN a[1] + b[1] + c[1] = 0 /\ a[2] + b[2] + c[2] = 0
\* orders add up
OrdersAdd == IntK[mode] >= 0 => \A a, b \in Orders :
  /\ GMul(Exact(East(a), mode), Exact(East(b), mode)) = Exact(East(a + b), mode)
  /\ GMul(Exact(North(a), mode), Exact(North(b), mode)) = Exact(North(a + b), mode)
  /\ GMul(Exact(Up(a), mode), Exact(Up(b), mode)) = Exact(Up(a + b), mode)
\* the order of the transformations does not matter
Commute == (IntK[mode] >= 0 /\ Len(pipe) >= 2) =>
  \A k \in 1..(Len(pipe) - 1) :
     LET swapped == [pipe EXCEPT ![k] = pipe[k + 1], ![k + 1] = pipe[k]]
     IN ExactPipe(swapped, mode) = ExactPipe(pipe, mode)
\* the opposite mode has the conjugate gain: real grids stay real
Hermitian == (IntK[mode] >= 0 /\ <<-mode[1], -mode[2]>> \in Modes) =>
  \A k \in 1..Len(pipe) : LET g == Exact(pipe[k], mode) h == Exact(pipe[k], <<-mode[1], -mode[2]>>)
                          IN g[1] = h[1] /\ g[2] = -h[2]

\* reduction to the pole with unit vectors given by integers: |k| Theta = down |k| + i (e kx + n ky)
Dirs == {<<0, 0, 1>>, <<1, 2, 2>>, <<-2, 1, 2>>, <<0, 3, 4>>, <<4, 0, -3>>}
ThetaX(d, m) == <<d[3] * IntK[m], d[1] * m[2] + d[2] * m[1]>>
Opp(d) == <<-d[1], -d[2], -d[3]>>
PoleLaws == IntK[mode] >= 0 => \A f, m \in Dirs :
  /\ GMul(ThetaX(f, mode), ThetaX(m, mode)) = GMul(ThetaX(m, mode), ThetaX(f, mode))           \* field and magnetization swap
  /\ GMul(ThetaX(Opp(f), mode), ThetaX(Opp(m), mode)) = GMul(ThetaX(f, mode), ThetaX(m, mode))  \* both reversed
  /\ ThetaX(<<0, 0, 1>>, mode) = <<IntK[mode], 0>>                                              \* at the pole: unchanged
  /\ (<<-mode[1], -mode[2]>> \in Modes =>
        ThetaX(f, <<-mode[1], -mode[2]>>) = <<ThetaX(f, mode)[1], -ThetaX(f, mode)[2]>>)

RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 1 THEN GainT(s[1]) ELSE CMul(GainT(s[1]), Prod(Tail(s)))
EmitDef == (Len(pipe) = 1 /\ size = Sizes[1] /\ mode = <<1, 1>>) =>
  PrintT("@@" \o ToJson([kind |-> "gain", op |-> pipe[1], term |-> GainT(pipe[1])]))
EmitCase == pipe # <<>> =>
  PrintT("@@" \o ToJson([kind |-> "case", size |-> size, mode |-> mode, pipe |-> pipe,
                         zero |-> \E k \in 1..Len(pipe) : Vanishes(pipe[k], mode, size)]))
==============================================================================
