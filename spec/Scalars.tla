------------------------------- MODULE Scalars -------------------------------
(***************************************************************************)
(* The scalar domain of the specification.  A scalar is an exact rational  *)
(* (k = "r"), a rational too wide to be folded further (k = "b"), a        *)
(* symbolic application of a primitive function to scalars (k = "t"), or   *)
(* unspecified (k = "x": undefined such as 0/0, or too large to track).    *)
(* Rational arithmetic is folded exactly; everything else is kept as a     *)
(* term, so that the specification says WHICH function of WHICH leaf       *)
(* contents an expression denotes; a conformance harness interprets the    *)
(* primitives over doubles and compares.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL LIM == 10000
LOCAL MAXTERM == 48

LOCAL IAbs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

X == [k |-> "x", n |-> 0, d |-> 0, z |-> 0]

LOCAL Pow2s == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536}
LOCAL Wide(n) == [k |-> IF IAbs(n) <= LIM THEN "r" ELSE "b", n |-> n, d |-> 1, z |-> 1]
(* only dyadic rationals are exact in floating point: any other quotient is *)
(* kept as the term n/d, so that no exact claim is made about it            *)
MkR(n, d) ==
  IF d = 0 THEN X
  ELSE LET s  == IF d < 0 THEN -1 ELSE 1
           g  == Gcd(IAbs(n), IAbs(d))
           nn == (s * n) \div g
           dd == (s * d) \div g
       IN IF dd \notin Pow2s THEN [k |-> "t", f |-> "div", a |-> <<Wide(nn), Wide(dd)>>, z |-> 3]
          ELSE [k |-> IF IAbs(nn) <= LIM /\ dd <= LIM THEN "r" ELSE "b",
                n |-> nn, d |-> dd, z |-> 1]

I(n) == [k |-> "r", n |-> n, d |-> 1, z |-> 1]
Q(n, d) == MkR(n, d)
Zero == I(0)
One == I(1)

IsR(x) == x.k = "r"
IsX(x) == x.k = "x"
IsZero(x) == x.k = "r" /\ x.n = 0
IsOne(x) == x.k = "r" /\ x.n = 1 /\ x.d = 1

T1(f, x) ==
  IF IsX(x) \/ x.z >= MAXTERM THEN X
  ELSE [k |-> "t", f |-> f, a |-> <<x>>, z |-> x.z + 1]
T2(f, x, y) ==
  IF IsX(x) \/ IsX(y) \/ x.z + y.z >= MAXTERM THEN X
  ELSE [k |-> "t", f |-> f, a |-> <<x, y>>, z |-> x.z + y.z + 1]

Neg(x) == IF x.k = "r" THEN MkR(-x.n, x.d) ELSE T1("neg", x)
Add(x, y) == IF IsR(x) /\ IsR(y) THEN MkR(x.n * y.d + y.n * x.d, x.d * y.d)
             ELSE IF IsZero(x) THEN y ELSE IF IsZero(y) THEN x ELSE T2("add", x, y)
Sub(x, y) == IF IsR(x) /\ IsR(y) THEN MkR(x.n * y.d - y.n * x.d, x.d * y.d)
             ELSE IF IsZero(y) THEN x ELSE T2("sub", x, y)
Mul(x, y) == IF IsR(x) /\ IsR(y) THEN MkR(x.n * y.n, x.d * y.d)
             ELSE IF IsOne(x) THEN y ELSE IF IsOne(y) THEN x ELSE T2("mul", x, y)
Div(x, y) == IF IsR(x) /\ IsR(y) THEN MkR(x.n * y.d, x.d * y.n)
             ELSE IF IsOne(y) THEN x ELSE T2("div", x, y)

RECURSIVE IPow(_, _)
IPow(x, k) == IF k = 0 THEN One ELSE Mul(x, IPow(x, k - 1))
(* powers: integer exponents are folded, half exponents stay symbolic *)
Pow(x, e) ==
  IF IsR(e) /\ e.d = 1 /\ IsR(x) /\ e.n >= 0 /\ e.n <= 4 THEN IPow(x, e.n)
  ELSE IF IsR(e) /\ e.d = 1 /\ IsR(x) /\ e.n < 0 /\ e.n >= -4 THEN Div(One, IPow(x, -e.n))
  ELSE T2("pow", x, e)

(* order: decided exactly on rationals, otherwise the result is a term *)
Lt(x, y) == x.n * y.d < y.n * x.d
CmpOps == {"lt", "gt", "eq", "neq", "le"}
CmpR(f, x, y) ==
  CASE f = "lt" -> Lt(x, y)
    [] f = "gt" -> Lt(y, x)
    [] f = "le" -> ~Lt(y, x)
    [] f = "eq" -> x = y
    [] f = "neq" -> x # y
Cmp(f, x, y) == IF IsR(x) /\ IsR(y) THEN (IF CmpR(f, x, y) THEN One ELSE Zero)
                ELSE T2(f, x, y)
Max2(x, y) == IF IsR(x) /\ IsR(y) THEN (IF Lt(x, y) THEN y ELSE x) ELSE T2("max", x, y)
Min2(x, y) == IF IsR(x) /\ IsR(y) THEN (IF Lt(y, x) THEN y ELSE x) ELSE T2("min", x, y)
Clip(x, lo, hi) ==
  IF IsR(x) THEN (IF Lt(x, lo) THEN lo ELSE IF Lt(hi, x) THEN hi ELSE x)
  ELSE T2("min", hi, T2("max", lo, x))

Fun1Ops == {"sin", "cos", "tan", "csc", "sec", "cot", "exp", "sqrt", "log", "round"}
Sin(x) == IF IsZero(x) THEN Zero ELSE T1("sin", x)
Cos(x) == IF IsZero(x) THEN One ELSE T1("cos", x)
Exp(x) == IF IsZero(x) THEN One ELSE T1("exp", x)
Fun1(f, x) ==
  CASE f = "sin" -> Sin(x)
    [] f = "cos" -> Cos(x)
    [] f = "tan" -> IF IsZero(x) THEN Zero ELSE T1("tan", x)
    [] f = "csc" -> IF IsZero(x) THEN X ELSE Div(One, Sin(x))
    [] f = "sec" -> Div(One, Cos(x))
    [] f = "cot" -> IF IsZero(x) THEN X ELSE Div(Cos(x), Sin(x))
    [] f = "exp" -> Exp(x)
    [] f = "sqrt" -> IF IsR(x) /\ x.n < 0 THEN X ELSE IF IsZero(x) THEN Zero ELSE T1("sqrt", x)
    [] f = "log" -> IF IsR(x) /\ x.n <= 0 THEN X ELSE IF IsOne(x) THEN Zero ELSE T1("log", x)
    [] f = "round" -> IF IsR(x) /\ x.d = 1 THEN x ELSE T1("round", x)

(* derivative of a primitive at x (the chain rule's outer factor) *)
DFun1(f, x) ==
  CASE f = "sin" -> Cos(x)
    [] f = "cos" -> Neg(Sin(x))
    [] f = "tan" -> Div(One, Pow(Cos(x), I(2)))
    [] f = "csc" -> IF IsZero(x) THEN X ELSE Neg(Div(Cos(x), Pow(Sin(x), I(2))))
    [] f = "sec" -> Div(Sin(x), Pow(Cos(x), I(2)))
    [] f = "cot" -> IF IsZero(x) THEN X ELSE Neg(Div(One, Pow(Sin(x), I(2))))
    [] f = "exp" -> Exp(x)
    [] f = "sqrt" -> IF IsR(x) /\ x.n <= 0 THEN X ELSE Div(One, Mul(I(2), T1("sqrt", x)))
    [] f = "log" -> IF IsR(x) /\ x.n <= 0 THEN X ELSE Div(One, x)
DPow(x, e) == Mul(e, Pow(x, Sub(e, One)))
==============================================================================
