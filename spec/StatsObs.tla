------------------------------ MODULE StatsObs ------------------------------
(* When is an observed float an acceptable image of a quantity of Stats?    *)
(* Records e carry: x, conf, lo, hi, mn (minimum error bar), method, nb     *)
(* (replicates), w (observed draws, <<>> if none), and the results eb, p.   *)
EXTENDS Stats, TLC
PTol == "1/1000000"
MaxAbs(x) == IF Len(x) = 0 THEN X0 ELSE LET s == XSort([i \in 1..Len(x) |-> XAbs(x[i])]) IN s[Len(s)]
Near0(v, x) == XNear(v, X0, X0, XMul(TolRel, MaxAbs(x)))

(*-- Student t *)
ZeroVar(x) == XEq(VarN(x, 1), X0)
(* is eb the t error bar, or (when clipped) consistent with it?             *)
(* how: "eq" exactly, "ge" at least that, "le" at most that                 *)
TEBOk(x, conf, eb, how) ==
  IF Degenerate(x) THEN (IF how = "ge" THEN FALSE ELSE IF how = "le" THEN TRUE ELSE eb = "inf")
  ELSE IF ZeroVar(x) THEN (IF how = "le" THEN Near0(eb, x) ELSE IF how = "ge" THEN TRUE ELSE Near0(eb, x))
  ELSE LET tail == TTail(XDiv(eb, Sem(x)), Len(x) - 1)
           want == XSub(X1, conf)
           near == XNear(tail, want, PTol, X0)
       IN near \/ (how = "ge" /\ XLe(tail, want)) \/ (how = "le" /\ XGe(tail, want))
TPOk(x, p) ==
  IF Degenerate(x) THEN XEq(p, X1)
  ELSE IF ZeroVar(x) THEN (IF XEq(XMean(x), X0) THEN XEq(p, X1) ELSE XNear(p, X0, X0, PTol))
  ELSE XNear(p, TPval(x), PTol, XPow10(-40))
(* p < 1 - confidence exactly when zero lies outside the interval *)
Coherent(x, conf, eb, p) ==
  LET d == XSub(X1, conf) m == XAbs(XMean(x)) IN
  \/ ~XFin(eb)
  \/ XNear(p, d, PTol, X0) \/ XNear(m, eb, PTol, X0)
  \/ (XLt(p, d) <=> XGt(m, eb))

(*-- bootstrap replicates of the mean, when the draws were observed *)
Witness(e) == Len(e.w) = e.nb /\ e.nb > 0 /\ \A r \in 1..Len(e.w) : Len(e.w[r]) = Len(e.x) /\ SumTo(e.w[r], Len(e.x)) = Len(e.x)
Reps(e) == [r \in 1..Len(e.w) |-> WMean(e.w[r], e.x)]
SomeClose(v, S) == \E u \in S : XClose(v, u)
(* Means of multiples of 2^-20 up to 2^20 are computed without rounding;    *)
(* otherwise a mean within rounding of 0 may fall on either side of it.     *)
OnGrid(x) == \A i \in 1..Len(x) : XIsInt(XMul(x[i], XI(1048576))) /\ XLe(XAbs(x[i]), XI(1048576))
MeanEps(x) == IF OnGrid(x) THEN X0 ELSE XMul(XPow10(-12), MaxAbs(x))
PFromReps(b, p, eps) ==
  LET lo(i) == XLe(b[i], XNeg(eps)) hi(i) == XLe(b[i], eps) n == Len(b)
      m(S, T) == XMin(X1, XMul(X2, XMin(XQ(Cardinality(S), n), XQ(Cardinality(T), n))))
  IN /\ XGe(p, XSub(m({i \in 1..n : lo(i)}, {i \in 1..n : XGe(b[i], eps)}), TolRel))
     /\ XLe(p, XAdd(m({i \in 1..n : hi(i)}, {i \in 1..n : XGe(b[i], XNeg(eps))}), TolRel))
Zeros(n) == [i \in 1..n |-> X0]
(* Longer samples without observed draws: the resampled mean is nearly      *)
(* normal with the exact standard deviation std/sqrt(N), if the sample is   *)
(* neither skewed nor heavy-tailed.                                         *)
MinRough == 60
Tame(x) ==
  LET m == XRnd(XMean(x))
      z == TLCEval([i \in 1..Len(x) |-> XRnd(XSub(x[i], m))])
      q == TLCEval([i \in 1..Len(x) |-> XRnd(XSq(z[i]))])
      v == XDiv(XSum(q), XI(Len(x)))
  IN /\ XLe(XSq(XDiv(XDot(q, z), XI(Len(x)))), XMul(v, XSq(v)))              \* |skewness| <= 1
     /\ XLe(XDiv(XDot(q, q), XI(Len(x))), XMul(XI(4), XSq(v)))            \* kurtosis <= 4
RoughTail(x, d) == XDiv(TTail(XDiv(d, XSqrt(XDiv(VarN(x, 0), N_(x)))), 401), X2)
IsRough(x, nb) == Len(x) >= MinRough /\ nb >= 900 /\ AllFin(x) /\ ~XEq(VarN(x, 0), X0) /\ Tame(x)
RoughEBOk(x, conf, nb, eb) ==
  LET a == XDiv(XSub(X1, conf), X2) q == RoughTail(x, eb) IN
  /\ XLe(q, XAdd(a, XAdd(Band(a, nb), XQ(1, 50))))
  /\ XGe(XMul(a, XI(nb)), XI(20)) => XGe(q, XDiv(a, XI(5)))
RoughPOk(x, nb, p) ==
  LET f == RoughTail(x, XAbs(XMean(x))) IN XLe(XAbs(XSub(XDiv(p, X2), f)), XAdd(Band(f, nb), XQ(1, 50)))
BootEBOk(e, eb) ==
  IF Degenerate(e.x) THEN eb = "inf"
  ELSE /\ Witness(e) => SomeClose(eb, BootEBs(Reps(e), XMean(e.x), e.conf))
       /\ e.nb >= 200 /\ Len(e.x) <= MaxN => BootEBPlausible(BootDist(e.x), XMean(e.x), e.conf, e.nb, eb)
       /\ IsRough(e.x, e.nb) => RoughEBOk(e.x, e.conf, e.nb, eb)
BootPOk(e, p) ==
  IF Degenerate(e.x) THEN XEq(p, X1)
  ELSE /\ Witness(e) => PFromReps(Reps(e), p, MeanEps(e.x))
       /\ PGrain(p, e.nb)
       /\ e.nb >= 200 /\ Len(e.x) <= MaxN => BootPPlausible(BootDist(e.x), e.nb, p, MeanEps(e.x))
       /\ IsRough(e.x, e.nb) => RoughPOk(e.x, e.nb, p)

(*-- get_mean_and_EB, get_mean_EB_test, get_test: the chosen method, clipped *)
EBWith(e) ==
  LET mu == XMean(e.x)
      tr == TrivialEB(mu, e.lo, e.hi)
      eb == e.eb
  IN IF Degenerate(e.x) THEN XClose(eb, ClipEB(mu, IF e.method = "bernstein" THEN Span(e.lo, e.hi) ELSE "inf", e.lo, e.hi, e.mn))
     ELSE IF e.method = "t" THEN
          \/ TEBOk(e.x, e.conf, eb, "eq") /\ XLe(eb, XAdd(tr, XMul(TolRel, XAdd(X1, XAbs(mu))))) /\ XGe(eb, e.mn)
          \/ XFin(tr) /\ XClose(eb, tr) /\ TEBOk(e.x, e.conf, eb, "le")
          \/ XClose(eb, e.mn) /\ TEBOk(e.x, e.conf, eb, "ge")
     ELSE IF e.method = "bernstein" THEN XClose(eb, ClipEB(mu, BernEB(e.x, e.lo, e.hi, e.conf), e.lo, e.hi, e.mn))
     ELSE /\ Witness(e) => \E v \in BootEBs(Reps(e), mu, e.conf) : XClose(eb, ClipEB(mu, v, e.lo, e.hi, e.mn))
          /\ XLe(eb, XAdd(tr, XMul(TolRel, XAdd(X1, XAbs(mu))))) /\ XGe(eb, e.mn)
          /\ (Len(e.x) <= MaxN /\ ~XClose(eb, tr) /\ ~XClose(eb, e.mn)) => BootEBPlausible(BootDist(e.x), mu, e.conf, e.nb, eb)
          /\ (IsRough(e.x, e.nb) /\ ~XClose(eb, tr) /\ ~XClose(eb, e.mn)) => RoughEBOk(e.x, e.conf, e.nb, eb)
PWith(e) ==
  CASE e.method = "t" -> TPOk(e.x, e.p)
    [] e.method = "bernstein" -> XNear(e.p, BernPval(e.x, e.lo, e.hi), PTol, XPow10(-250))
    [] OTHER -> BootPOk(e, e.p)
(* the same replicates serve both: an interval excluding 0 implies a small p *)
SameReps(e) == ~XFin(e.eb) \/ XGt(e.mn, X0) \/ XLe(XAbs(XMean(e.x)), XMul(e.eb, XAdd(X1, TolRel)))
               \/ XLe(e.p, XAdd(XSub(X1, e.conf), XQ(4, e.nb)))
=============================================================================
