------------------------------- MODULE Losses -------------------------------
(* Losses of categorical and Gaussian predictions, decisions under a loss   *)
(* matrix, normalization and coding helpers.  Labels and actions count from *)
(* 0 as in the implementation; rows are sequences.                          *)
EXTENDS XReal, FiniteSets, TLC
Exps(lp) == TLCEval([k \in 1..Len(lp) |-> IF lp[k] = "-inf" THEN X0 ELSE XExp(lp[k])])
LogSumExp(lp) == XLn(XSum(Exps(lp)))
Normalized(lp) == LET z == LogSumExp(lp) IN TLCEval([k \in 1..Len(lp) |-> XSub(lp[k], z)])

(*--------------- losses of a distribution p for label y -------------------*)
LogLoss(lp, y) == XNeg(lp[y + 1])
OneHot(y, n) == [k \in 1..n |-> IF k = y + 1 THEN X1 ELSE X0]
Brier(p, y) == XSum([k \in 1..Len(p) |-> XSq(XSub(p[k], OneHot(y, Len(p))[k]))])
Sphere(p, y) == XNeg(XDiv(p[y + 1], XSqrt(XDot(p, p))))
Uniform(n) == [k \in 1..n |-> XQ(1, n)]
(* the linear map taking the loss of a perfect prediction to 0 and that of  *)
(* a uniform one to 1; with one label every prediction is perfect           *)
Rescale(L(_, _), p, y) ==
  LET n == Len(p) perfect == L(OneHot(y, n), y) IN
  IF n = 1 THEN X0 ELSE XDiv(XSub(L(p, y), perfect), XSub(L(Uniform(n), y), perfect))
BrierLoss(p, y, rescale) == IF rescale THEN Rescale(Brier, p, y) ELSE Brier(p, y)
SphereLoss(p, y, rescale) == IF rescale THEN Rescale(Sphere, p, y) ELSE Sphere(p, y)

(*------------------------------- decisions --------------------------------*)
(* mat[y + 1][a + 1]: loss of action a when the label is y *)
Expected(p, mat, a) == XDot(p, [k \in 1..Len(p) |-> mat[k][a + 1]])
ActionsOf(mat) == 0..(Len(mat[1]) - 1)
ZeroOne(n) == [k \in 1..n |-> [a \in 1..n |-> IF a = k THEN X0 ELSE X1]]
Optimal(p, mat, slack) ==
  LET E == TLCEval([a \in ActionsOf(mat) |-> Expected(p, mat, a)]) IN {a \in ActionsOf(mat) : \A b \in ActionsOf(mat) : XLe(E[a], XAdd(E[b], slack))}

(*------------------------------ regression --------------------------------*)
SqLoss(y, mu) == XSq(XSub(y, mu))
AbsLoss(y, mu) == XAbs(XSub(y, mu))
HalfLn2Pi == XDiv(XLn(XMul(X2, XPi)), X2)
GaussNll(y, mu, sd) == XAdd(XAdd(XDiv(XSq(XDiv(XSub(y, mu), sd)), X2), XLn(sd)), HalfLn2Pi)

(*--------------------------- tie-breaking noise ---------------------------*)
MinGap(x) ==
  LET s == XSort(x)
      gaps == {XSub(s[k + 1], s[k]) : k \in {j \in 1..(Len(s) - 1) : XLt(s[j], s[j + 1])}}
  IN IF gaps = {} THEN "none" ELSE CHOOSE g \in gaps : \A h \in gaps : XLe(g, h)
NoiseScale(x, dflt, mx) == LET g == MinGap(x) IN XMin(mx, IF g = "none" THEN dflt ELSE g)
=============================================================================
