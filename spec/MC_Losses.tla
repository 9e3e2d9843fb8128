------------------------------ MODULE MC_Losses ------------------------------
(* All pairs of distributions on a simplex grid: every loss is proper, the  *)
(* rescaled ones hit 0 and 1 where they should, decisions are Bayes optimal.*)
EXTENDS Losses, Json, IOUtils, SequencesExt
CONSTANTS MaxLabels, Steps
RECURSIVE SumN(_, _)
SumN(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumN(f, n - 1)
Simplex(n) == {f \in [1..n -> 0..Steps] : SumN(f, n) = Steps}
Dist(f) == TLCEval([k \in 1..Len(f) |-> XQ(f[k], Steps)])
Mats(n) == [1..n -> [1..2 -> {X0, X1, XI(3)}]]
VARIABLE t
Init == t \in UNION {[st : {0}, q : Simplex(n), p : {<<>>}] : n \in 1..MaxLabels}
Next == t.st = 0 /\ t' \in [st : {1}, q : {t.q}, p : Simplex(Len(t.q))]
On == t.st = 1
q == Dist(t.q)
p == Dist(t.p)
n_ == Len(t.q)
Ex(L(_, _), pred) == XDot(q, [k \in 1..n_ |-> IF XEq(q[k], X0) THEN X0 ELSE L(pred, k - 1)])
Eps == XPow10(-40)
LL(d, y) == IF XEq(d[y + 1], X0) THEN "inf" ELSE XNeg(XLn(d[y + 1]))
Proper == On => /\ XGe(Ex(Brier, p), Ex(Brier, q))
                /\ XGe(XAdd(Ex(Sphere, p), Eps), Ex(Sphere, q))
                /\ XGe(XAdd(Ex(LL, p), Eps), Ex(LL, q))
                /\ (t.p # t.q) => XGt(Ex(Brier, p), Ex(Brier, q))
Scaled == On => \A y \in 0..(n_ - 1) :
   /\ n_ = 1 => \A r \in {BrierLoss(p, y, TRUE), SphereLoss(p, y, TRUE)} : XEq(r, X0)
   /\ n_ > 1 => /\ XEq(BrierLoss(Uniform(n_), y, TRUE), X1) /\ XNear(SphereLoss(Uniform(n_), y, TRUE), X1, Eps, Eps)
                /\ XEq(BrierLoss(OneHot(y, n_), y, TRUE), X0) /\ XNear(SphereLoss(OneHot(y, n_), y, TRUE), X0, Eps, Eps)
                /\ XNear(BrierLoss(p, y, TRUE), XMul(XQ(n_, n_ - 1), Brier(p, y)), Eps, Eps)
   /\ XGe(BrierLoss(p, y, TRUE), X0) /\ XGe(XAdd(SphereLoss(p, y, TRUE), Eps), X0)
(* the zero-one decision is a most probable label and its expected loss is 1 - max p *)
Bayes == On => \A a \in Optimal(p, ZeroOne(n_), X0) : /\ \A k \in 1..n_ : XLe(p[k], p[a + 1])
                                                      /\ XEq(Expected(p, ZeroOne(n_), a), XSub(X1, p[a + 1]))
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(UNION {{[p |-> [k \in 1..n |-> XQ(f[k], Steps)], y |-> y] : f \in Simplex(n), y \in 0..(n - 1)} : n \in 1..MaxLabels}))
=============================================================================
