------------------------------ MODULE MC_XReal ------------------------------
(* Self-check of the XReal override: agreement with TLC's integers on all  *)
(* fractions with numerator in -K..K, denominator in 1..K, field and order *)
(* laws, IEEE rules for the non-finite values, and identities of the       *)
(* approximate functions.                                                  *)
EXTENDS XReal, TLC
CONSTANT K
Nums == (-K)..K
Dens == 1..K
VARIABLES a, b, c
vars == <<a, b, c>>
Init == a \in Nums \X Dens /\ b = <<>> /\ c = <<>>
Next == b = <<>> /\ b' \in Nums \X Dens /\ c' \in {<<-1, 3>>, <<0, 1>>, <<5, 2>>} /\ UNCHANGED a
V(x) == XQ(x[1], x[2])
SpecOk == b # <<>> =>
  /\ XLe(V(a), V(b)) <=> a[1] * b[2] <= b[1] * a[2]
  /\ XLt(V(a), V(b)) <=> a[1] * b[2] < b[1] * a[2]
  /\ XEq(V(a), V(b)) <=> a[1] * b[2] = b[1] * a[2]
  /\ (V(a) = V(b)) <=> a[1] * b[2] = b[1] * a[2]
  /\ XAdd(V(a), V(b)) = XQ(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
  /\ XSub(V(a), V(b)) = XQ(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
  /\ XMul(V(a), V(b)) = XQ(a[1] * b[1], a[2] * b[2])
  /\ (b[1] # 0) => XMul(XDiv(V(a), V(b)), V(b)) = V(a)
  /\ XMul(V(c), XAdd(V(a), V(b))) = XAdd(XMul(V(c), V(a)), XMul(V(c), V(b)))
  /\ XSum(<<V(a), V(b), V(c)>>) = XAdd(V(a), XAdd(V(b), V(c)))
  /\ XDot(<<V(a), V(b)>>, <<V(c), V(a)>>) = XAdd(XMul(V(a), V(c)), XMul(V(b), V(a)))
  /\ XToInt(XFloor(V(a))) = a[1] \div a[2]
  /\ XToInt(XCeil(V(a))) = -((-a[1]) \div a[2])
  /\ XToInt(XHalfUp(V(a))) = (IF a[1] >= 0 THEN (2 * a[1] + a[2]) \div (2 * a[2]) ELSE -((-2 * a[1] + a[2]) \div (2 * a[2])))
  /\ XSort(<<V(a), V(b)>>) = (IF XLe(V(a), V(b)) THEN <<V(a), V(b)>> ELSE <<V(b), V(a)>>)
  /\ (a[1] # 0) => /\ XLe(XPow10(XAdj(V(a))), XAbs(V(a)))
                   /\ XLt(XAbs(V(a)), XPow10(XAdj(V(a)) + 1))
  /\ XSqrt(XSq(V(a))) = XAbs(V(a))
  /\ (a[1] > 0) => XNear(XSq(XSqrt(V(a))), V(a), XPow10(-55), X0)
  /\ (a[1] > 0) => XNear(XExp(XLn(V(a))), V(a), XPow10(-55), X0)
  /\ XNear(XMul(XExp(V(a)), XExp(V(b))), XExp(XAdd(V(a), V(b))), XPow10(-55), X0)
  /\ XNear(XAdd(XAtan(V(a)), XAtan(XNeg(V(a)))), X0, X0, XPow10(-55))
  /\ (a[1] > 0) => XNear(XAdd(XAtan(V(a)), XAtan(XDiv(X1, V(a)))), XDiv(XPi, X2), XPow10(-55), X0)
  /\ XAdd(V(a), "inf") = "inf" /\ XSub(V(a), "inf") = "-inf" /\ XAdd("inf", "-inf") = "nan"
  /\ XMul("inf", V(a)) = (IF a[1] > 0 THEN "inf" ELSE IF a[1] < 0 THEN "-inf" ELSE "nan")
  /\ XDiv(V(a), X0) = XMul("inf", V(a))
  /\ ~XLe("nan", V(a)) /\ ~XEq("nan", "nan") /\ XLe("-inf", V(a)) /\ XLt(V(a), "inf")
  /\ XNear("nan", "nan", X0, X0) /\ ~XNear("nan", V(a), "inf", X0) /\ ~XNear("inf", V(a), TolRel, TolAbs)
  /\ XClose(V(a), V(b)) <=> XEq(V(a), V(b))
ASSUME /\ XNear(XPi, XParse("3.14159265358979323846264338327950288419716939937510"), XPow10(-50), X0)
       /\ XNear(XExp(X1), XParse("2.71828182845904523536028747135266249775724709369995"), XPow10(-49), X0)
       /\ XParse("1,234.50") = XQ(2469, 2) /\ XParse("-0.25") = XQ(-1, 4) /\ XIsNan(XParse("1e5"))
       /\ XStr(XI(-120)) = "-120" /\ XLog2Den(XQ(3, 8)) = 3 /\ XLog2Den(XQ(1, 3)) = -1
       /\ XPow10(-2) = XQ(1, 100) /\ XPow10(3) = XI(1000) /\ XExp("-inf") = X0 /\ XLn(X0) = "-inf"
=============================================================================
