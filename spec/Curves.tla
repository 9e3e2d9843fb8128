------------------------------- MODULE Curves -------------------------------
(* Performance curves of weighted, labelled scores; step and piecewise      *)
(* linear functions through points; areas.                                  *)
EXTENDS XReal, Functions, FiniteSets, TLC

(*------------------------------- threshold counts -------------------------*)
(* y: labels 0/1, s: scores, w: weights > 0, all of the same length         *)
Thresholds(s) ==
  LET a == XSort(s)
      n == Len(a)
      d == SelectSeq([i \in 1..n |-> n + 1 - i], LAMBDA i : i = n \/ ~XEq(a[i], a[i + 1]))
  IN TLCEval(<<"inf">> \o [k \in 1..Len(d) |-> a[d[k]]])
Weight(y, s, w, label, t) == XSum([i \in 1..Len(y) |-> IF y[i] = label /\ XGe(s[i], t) THEN w[i] ELSE X0])
Ones(n) == [i \in 1..n |-> X1]
OneClass(y) == \A i, j \in 1..Len(y) : y[i] = y[j]
TP(y, s, w) == LET th == Thresholds(s) IN TLCEval([k \in 1..Len(th) |-> Weight(y, s, w, 1, th[k])])
FP(y, s, w) == LET th == Thresholds(s) IN TLCEval([k \in 1..Len(th) |-> Weight(y, s, w, 0, th[k])])
LastOf(q) == q[Len(q)]

(*------------------------------- the curves -------------------------------*)
Back(q) == [k \in 1..Len(q) |-> IF k = 1 THEN q[2] ELSE q[k]]
Roc(y, s, w) ==
  LET tp == TP(y, s, w) fp == FP(y, s, w) IN
  [kind |-> "linear", x |-> [k \in 1..Len(fp) |-> XDiv(fp[k], LastOf(fp))], y |-> [k \in 1..Len(tp) |-> XDiv(tp[k], LastOf(tp))]]
Pr(y, s, w) ==
  LET tp == TP(y, s, w) fp == FP(y, s, w) IN
  [kind |-> "previous", x |-> [k \in 1..Len(tp) |-> XDiv(tp[k], LastOf(tp))],
   y |-> Back([k \in 1..Len(tp) |-> XDiv(tp[k], XAdd(tp[k], fp[k]))])]
(* gain of a precision or recall v at base rate b: (v - b) / ((1 - b) v) *)
Gain(v, b) == XDiv(XSub(v, b), XMul(XSub(X1, b), v))
Prg(y, s, w) ==
  LET tp == TP(y, s, w) fp == FP(y, s, w)
      b == XDiv(LastOf(tp), XAdd(LastOf(tp), LastOf(fp)))
  IN [kind |-> "previous",
      x |-> [k \in 1..Len(tp) |-> IF XEq(tp[k], X0) THEN X0 ELSE XMax(X0, Gain(XDiv(tp[k], LastOf(tp)), b))],
      y |-> Back([k \in 1..Len(tp) |-> IF XEq(tp[k], X0) THEN "-inf" ELSE Gain(XDiv(tp[k], XAdd(tp[k], fp[k])), b)])]
(* two curves of the kind a user may pass in: decreasing, one linear, one   *)
(* a step function with negative values                                     *)
Flip(y, s, w) == LET c == Roc(y, s, w) IN [c EXCEPT !.y = [k \in 1..Len(c.y) |-> XSub(X1, c.y[k])]]
Drop(y, s, w) == LET c == Roc(y, s, w) IN [kind |-> "previous", x |-> c.x, y |-> [k \in 1..Len(c.y) |-> XSub(XQ(1, 2), XMul(X2, c.y[k]))]]
CurveOf(name, y, s, w) == TLCEval(CASE name = "roc" -> Roc(y, s, w) [] name = "pr" -> Pr(y, s, w) [] name = "flip" -> Flip(y, s, w)
                                    [] name = "drop" -> Drop(y, s, w) [] OTHER -> Prg(y, s, w))

(* one class: the limits of the curves as the other class's share vanishes  *)
Rate(y, s, w) == LET tp == TP(y, s, w) fp == FP(y, s, w) c == TLCEval([k \in 1..Len(tp) |-> XAdd(tp[k], fp[k])]) IN [k \in 1..Len(c) |-> XDiv(c[k], LastOf(c))]
OneClassCurve(name, y, s, w) ==
  LET r == Rate(y, s, w) n == Len(r) base == IF y[1] = 1 THEN X1 ELSE X0 IN
  CASE name = "roc" -> [kind |-> "linear", x |-> r, y |-> r]
    [] name = "pr" -> [kind |-> "previous", x |-> r, y |-> [k \in 1..n |-> base]]
    [] OTHER -> [kind |-> "previous", x |-> r, y |-> [k \in 1..n |-> X0]]   \* x only at the ends
OneClassArea(name, y) == CASE name = "roc" -> XQ(1, 2) [] name = "pr" -> (IF y[1] = 1 THEN X1 ELSE X0) [] OTHER -> X0

(*------------------------------- areas ------------------------------------*)
StepArea(x, y) == XSum([k \in 1..(Len(x) - 1) |-> IF XEq(x[k], x[k + 1]) THEN X0 ELSE XMul(y[k], XSub(x[k + 1], x[k]))])
TrapArea(x, y) == XSum([k \in 1..(Len(x) - 1) |-> XMul(XSub(x[k + 1], x[k]), XDiv(XAdd(y[k], y[k + 1]), X2))])
Area(c) == IF c.kind = "previous" THEN StepArea(c.x, c.y) ELSE TrapArea(c.x, c.y)

(*------------------------- functions through points -----------------------*)
(* last point at or before g, 0 if none *)
LastAt(x, g) == LET S == {k \in 1..Len(x) : XLe(x[k], g)} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
StepAt(x, y, g) == y[LastAt(x, g)]
LinAt(x, y, g) ==
  LET k == LastAt(x, g) IN
  IF k = Len(x) \/ XEq(x[k], g) THEN y[k]
  ELSE XAdd(y[k], XDiv(XMul(XSub(y[k + 1], y[k]), XSub(g, x[k])), XSub(x[k + 1], x[k])))
At(c, g) == IF c.kind = "previous" THEN StepAt(c.x, c.y, g) ELSE LinAt(c.x, c.y, g)
(* an initial value before the first step; x need not be sorted *)
LatestAt(x, g) == LET S == {k \in 1..Len(x) : XLe(x[k], g)} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : XLe(x[j], x[k])
StepFrom(x, y, ival, g) == LET k == LatestAt(x, g) IN IF k = 0 THEN ival ELSE y[k]

(* the last of each run of equal points *)
Lasts(x) == SelectSeq([k \in 1..Len(x) |-> k], LAMBDA k : k = Len(x) \/ ~XEq(x[k], x[k + 1]))
Sorted(x) == \A k \in 1..(Len(x) - 1) : XLe(x[k], x[k + 1])
Strict(x) == \A k \in 1..(Len(x) - 1) : XLt(x[k], x[k + 1])
(* z raises x minimally (up to float resolution) to a strictly increasing array *)
Ulp(v) == XAdd(XMul(XAbs(v), XQ(1, 1073741824)), XPow10(-300))
Minimal(x, z) == \A k \in 1..Len(x) :
  IF k = 1 \/ XGt(x[k], z[k - 1]) THEN XEq(z[k], x[k])
  ELSE XGt(z[k], z[k - 1]) /\ XLe(XSub(z[k], z[k - 1]), XMul(XPow10(-6), Ulp(z[k])))
=============================================================================
