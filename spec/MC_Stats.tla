------------------------------ MODULE MC_Stats ------------------------------
(* Exhaustive small-scope check of the statistics: every sample over a      *)
(* value grid up to MaxLen points, all confidences and limits.              *)
EXTENDS Stats, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, Deep
Vals == {XI(-1), X0, XQ(1, 2), XI(2)} \cup (IF Deep THEN {XQ(-7, 4), XI(3)} ELSE {})
Confs == {XQ(1, 2), XQ(15, 16)} \cup (IF Deep THEN {XQ(255, 256)} ELSE {})
Samples == UNION {[1..n -> Vals] : n \in 1..MaxLen} \cup {<<"inf", X1>>, <<X0, "-inf", X1>>, <<"inf">>}
VARIABLE c
Init == c \in [st : {0}, x : Samples]
Next == c.st = 0 /\ c' \in [st : {1}, x : {c.x}, conf : Confs]
On == c.st = 1
x == c.x
Neg(s) == [i \in 1..Len(s) |-> XNeg(s[i])]
d == XSub(X1, c.conf)
TSane == On /\ ~Degenerate(x) =>
  /\ XGe(TPval(x), X0) /\ XLe(TPval(x), X1) /\ TPval(x) = TPval(Neg(x))
  /\ XNear(TPval([i \in 1..Len(x) |-> XMul(XI(4), x[i])]), TPval(x), XPow10(-50), XPow10(-55))
  /\ \A k \in 1..3 : XLt(TCover(XI(k), Len(x)), TCover(XI(k + 1), Len(x)))
  /\ (Len(x) = 2 /\ ~XEq(VarN(x, 1), X0)) =>   \* Cauchy: p = 1 - 2/pi atan t
       XNear(TPval(x), XSub(X1, XMul(XDiv(X2, XPi), XAtan(XDiv(XAbs(XMean(x)), Sem(x))))), XPow10(-50), XPow10(-50))
(* smallest delta whose error bar reaches zero; the bar shrinks with delta *)
BernsteinDual == On /\ ~Degenerate(x) =>
  LET p == BernPval(x, XI(-2), XI(3)) m == XAbs(XMean(x)) IN
  /\ XGe(p, X0) /\ XLe(p, X1)
  /\ XLt(p, X1) => XNear(BernEB(x, XI(-2), XI(3), XSub(X1, p)), m, XPow10(-40), X0)
  /\ (XLt(p, d) => XGt(m, BernEB(x, XI(-2), XI(3), c.conf))) /\ (XGt(p, d) => XLt(m, BernEB(x, XI(-2), XI(3), c.conf)))
ClipSane == On /\ AllFin(x) =>
  LET mu == XMean(x) IN
  \A eb \in {X0, XQ(1, 4), XI(9), "inf", "nan"}, mn \in {X0, XQ(1, 2)}, lh \in {<<XI(-2), XI(3)>>, <<"-inf", XI(3)>>, <<"-inf", "inf">>} :
    LET v == ClipEB(mu, eb, lh[1], lh[2], mn) IN
    IF eb = "nan" THEN v = "nan"
    ELSE /\ XLe(v, TrivialEB(mu, lh[1], lh[2])) /\ XGe(v, mn)
         /\ (XGe(eb, mn) /\ XLe(eb, TrivialEB(mu, lh[1], lh[2]))) => v = eb
         /\ ClipEB(mu, v, lh[1], lh[2], mn) = v
BootSane == On /\ ~Degenerate(x) =>
  LET D == BootDist(x)
      P(e) == XSub(e.le, e.lt)
      tot(f(_)) == FoldSet(LAMBDA e, a : XAdd(f(e), a), X0, D)
  IN /\ XEq(tot(P), X1)
     /\ XEq(tot(LAMBDA e : XMul(e.v, P(e))), XMean(x))                        \* unbiased
     /\ XEq(tot(LAMBDA e : XMul(XSq(XSub(e.v, XMean(x))), P(e))), XDiv(VarN(x, 0), N_(x)))  \* variance of the resampled mean
(* replicates: here the sample itself stands for them *)
OrderSane == On /\ AllFin(x) =>
  \A lb \in PercLB(x, c.conf), ub \in PercUB(x, c.conf) :
    LET n == Len(x) p == BootPval(x, [i \in 1..n |-> X0]) IN
    /\ XLe(lb, ub)
    (* outward rounding: at most the tail fraction strictly outside *)
    /\ XLe(Frac(x, LAMBDA i : XLt(x[i], lb)), XDiv(d, X2)) /\ XLe(Frac(x, LAMBDA i : XGt(x[i], ub)), XDiv(d, X2))
    (* an interval that excludes 0 comes with a p-value of at most 1 - conf + 2/n *)
    /\ (XGt(lb, X0) \/ XLt(ub, X0)) => XLe(p, XAdd(d, XQ(2, n)))
    /\ \A est \in {X0, XI(1)} : \A eb \in BootEBs(x, est, c.conf) : XGe(eb, X0) \/ XLt(est, lb) \/ XGt(est, ub)
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({[x |-> s] : s \in Samples}))
=============================================================================
