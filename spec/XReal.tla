------------------------------- MODULE XReal -------------------------------
(* Extended real numbers for TLC.  A number is a string: "n/d" (a reduced   *)
(* fraction, d > 0), "inf", "-inf" or "nan".  Every binary floating-point   *)
(* number the implementation handles has an exact image here, so the        *)
(* specification computes without rounding; only XSqrt, XExp, XLn, XAtan    *)
(* and XPi are approximate, to 60 significant digits (XRnd rounds to that). *)
(* Infinities and nan follow IEEE 754 (inf - inf = nan, x/0 = +-inf, ...);  *)
(* there is a single zero.                                                  *)
(*                                                                          *)
(* TLC has 32-bit integers and no reals, so the operators are realised by   *)
(* the module override java/XReal.java; the bodies below only fix arities.  *)
(* MC_XReal.tla checks the override against TLC's own integers and against  *)
(* the algebraic laws on a grid.                                            *)
EXTENDS Integers, Sequences

XI(n)     == CHOOSE s \in STRING : TRUE   \* integer to number
XQ(n, d)  == CHOOSE s \in STRING : TRUE   \* n/d
XAdd(a, b) == CHOOSE s \in STRING : TRUE
XSub(a, b) == CHOOSE s \in STRING : TRUE
XMul(a, b) == CHOOSE s \in STRING : TRUE
XDiv(a, b) == CHOOSE s \in STRING : TRUE
XNeg(a)   == CHOOSE s \in STRING : TRUE
XAbs(a)   == CHOOSE s \in STRING : TRUE
XLe(a, b) == CHOOSE s \in BOOLEAN : TRUE  \* false if either is nan
XLt(a, b) == CHOOSE s \in BOOLEAN : TRUE
XEq(a, b) == CHOOSE s \in BOOLEAN : TRUE
XFin(a)   == CHOOSE s \in BOOLEAN : TRUE
XIsNan(a) == CHOOSE s \in BOOLEAN : TRUE
XMin(a, b) == CHOOSE s \in STRING : TRUE
XMax(a, b) == CHOOSE s \in STRING : TRUE
XSum(s)   == CHOOSE t \in STRING : TRUE   \* sum of a sequence
XDot(s, t) == CHOOSE u \in STRING : TRUE  \* inner product of two sequences
XSort(s)  == CHOOSE t \in Seq(STRING) : TRUE  \* ascending
(* |a - b| <= rel * max(|a|, |b|) + ab; non-finite values must coincide *)
XNear(a, b, rel, ab) == CHOOSE s \in BOOLEAN : TRUE
XNearSeq(s, t, rel, ab) == CHOOSE u \in BOOLEAN : TRUE
XFloor(a) == CHOOSE s \in STRING : TRUE
XCeil(a)  == CHOOSE s \in STRING : TRUE
XHalfUp(a) == CHOOSE s \in STRING : TRUE  \* nearest integer, ties away from 0
XToInt(a) == CHOOSE n \in Int : TRUE      \* integral number to TLC integer
XIsInt(a) == CHOOSE s \in BOOLEAN : TRUE
XPow10(k) == CHOOSE s \in STRING : TRUE   \* 10^k
XAdj(a)   == CHOOSE n \in Int : TRUE      \* floor(log10 |a|), a # 0
XLog2Den(a) == CHOOSE n \in Int : TRUE    \* k if the denominator is 2^k
XStr(a)   == CHOOSE s \in STRING : TRUE   \* digits of an integral number
XParse(s) == CHOOSE t \in STRING : TRUE   \* plain decimal numeral to number
XRnd(a)   == CHOOSE s \in STRING : TRUE
XSqrt(a)  == CHOOSE s \in STRING : TRUE
XExp(a)   == CHOOSE s \in STRING : TRUE
XLn(a)    == CHOOSE s \in STRING : TRUE
XAtan(a)  == CHOOSE s \in STRING : TRUE
XPi       == CHOOSE s \in STRING : TRUE

X0 == XI(0)
X1 == XI(1)
X2 == XI(2)
XGe(a, b) == XLe(b, a)
XGt(a, b) == XLt(b, a)
XSq(a) == XMul(a, a)
(* Equality of two recorded values: same number, or both nan. *)
XSame(a, b) == (XIsNan(a) /\ XIsNan(b)) \/ XEq(a, b)
XMean(s) == XDiv(XSum(s), XI(Len(s)))
(* Default tolerance: float computations that are mathematically the same  *)
(* may differ in the order of operations.                                  *)
TolRel == "1/1000000000"
TolAbs == "1/1000000000000"
XClose(a, b) == XNear(a, b, TolRel, TolAbs)
XCloseSeq(a, b) == XNearSeq(a, b, TolRel, TolAbs)
=============================================================================
