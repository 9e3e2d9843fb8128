------------------------------- MODULE T_Stats -------------------------------
(* Recorded calls of mlpaper.mlpaper and mlpaper.boot_util against Stats    *)
(* (C08 - C12).                                                             *)
EXTENDS StatsObs, TraceBase
All(S) == UNION S
(*-- single functions *)
R1(e, v, raised) == IF e.status # "ok" THEN {raised} ELSE v
TEBV(e) == R1(e, Clause(TEBOk(e.x, e.conf, e.out, "eq"), "t-error-bar"), "t-raised")
TPV(e) == R1(e, Clause(TPOk(e.x, e.out), "t-p-value"), "t-raised")
TBothV(e) == R1(e, Clause(TEBOk(e.x, e.conf, e.eb, "eq"), "t-error-bar") \cup Clause(TPOk(e.x, e.p), "t-p-value")
                   \cup Clause(Degenerate(e.x) \/ ZeroVar(e.x) \/ Coherent(e.x, e.conf, e.eb, e.p), "t-coherence"), "t-raised")
BEBV(e) == R1(e, Clause(XClose(e.out, BernEB(e.x, e.lo, e.hi, e.conf)), "bernstein-error-bar"), "bernstein-raised")
BPV(e) == R1(e, Clause(XNear(e.out, BernPval(e.x, e.lo, e.hi), PTol, XPow10(-250)), "bernstein-p-value"), "bernstein-raised")
BootEBV(e) == R1(e, Clause(BootEBOk(e, e.out), "bootstrap-error-bar"), "bootstrap-raised")
BootPV(e) == R1(e, Clause(BootPOk(e, e.out), "bootstrap-p-value"), "bootstrap-raised")
ClipV(e) ==
  IF ClipRejects(e.mu, e.lo, e.hi, e.mn) THEN Clause(e.status = "exc" /\ e.exc = "ValueError", "bad-clip-accepted")
  ELSE R1(e, Clause(XSame(e.out, ClipEB(e.mu, e.eb, e.lo, e.hi, e.mn))
                    \/ XNear(e.out, ClipEB(e.mu, e.eb, e.lo, e.hi, e.mn), "1/1000000000000000", X0), "clipped-error-bar"), "clip-raised")

(*-- get_mean_and_EB, get_mean_EB_test, get_test *)
MeanV(e) ==
  IF e.status # "ok" THEN {"summary-raised"}
  ELSE (IF e.want_mu THEN Clause(XClose(e.mu, XMean(e.x)), "mean") ELSE {})
       \cup (IF e.want_eb THEN Clause(EBWith(e), "error-bar-" \o e.method) ELSE {})
       \cup (IF e.want_p THEN Clause(PWith(e), "p-value-" \o e.method) ELSE {})
       \cup (IF e.want_p /\ e.want_eb /\ e.method = "boot" THEN Clause(SameReps(e), "p-and-error-bar-from-different-replicates") ELSE {})

(*-- bootstrap weights *)
RowsOk(e) ==
  /\ Len(e.rows) = e.nb
  /\ \A r \in 1..e.nb : /\ Len(e.rows[r]) = e.n
                        /\ \A i \in 1..e.n : LET v == e.rows[r][i] IN
                             XEq(v, e.eps) \/ (XIsInt(v) /\ XGe(v, e.eps) /\ XGe(v, X0))
                        /\ XLt(e.eps, X1) =>
                             XEq(XSum([i \in 1..e.n |-> IF XEq(e.rows[r][i], e.eps) THEN X0 ELSE e.rows[r][i]]), XI(e.n))
(* frequencies of all weightings, small n *)
FreqOk(e) ==
  \A w \in Weightings[e.n] :
    LET q == WProb(w, e.n)
        k == Cardinality({r \in 1..e.nb : \A i \in 1..e.n : XEq(e.rows[r][i], XI(w[i]))})
    IN XLe(XAbs(XSub(XQ(k, e.nb), q)), Band(q, e.nb))
(* moments, any n: each point's mean weight 1, mean square 2 - 1/n, rows uncorrelated *)
MomentsOk(e) ==
  LET n == e.n
      col(i) == [r \in 1..e.nb |-> e.rows[r][i]]
      six(v) == XMul(XI(6), XSqrt(v))
  IN /\ \A i \in 1..n : XLe(XAbs(XSub(XMean(col(i)), X1)), six(XQ(1, e.nb)))
     /\ LET m2 == XDiv(XSum([r \in 1..e.nb |-> XDot(e.rows[r], e.rows[r])]), XI(e.nb * n)) IN
        XLe(XAbs(XSub(m2, XSub(X2, XQ(1, n)))), six(XQ(16, e.nb * n)))
     /\ LET lag == XDiv(XSum([r \in 1..(e.nb - 1) |-> XSub(XDot(e.rows[r], e.rows[r + 1]), XI(n))]), XI((e.nb - 1) * n)) IN
        XLe(XAbs(lag), six(XQ(2, e.nb * n)))
WeightsV(e) ==
  IF e.status # "ok" THEN {"weights-raised"}
  ELSE IF ~RowsOk(e) THEN {"weights-not-a-resample"}
  ELSE Clause(~e.freq \/ FreqOk(e), "weights-not-uniform") \cup Clause(~e.moments \/ MomentsOk(e), "weights-moments")
(* a large matrix by its digest: whole weights, row sums n, moments.  Rows  *)
(* repeat with probability below nb^2 / P for P equally likely samples.     *)
DigestV(e) ==
  LET n == e.n nb == e.nb
      six(v) == XMul(XI(6), XSqrt(v))
      per(v, rows) == XDiv(v, XMul(XI(rows), XI(n)))
  IN IF e.status # "ok" THEN {"weights-raised"}
     ELSE IF ~(e.shape /\ e.whole /\ Len(e.sums) = 1 /\ XEq(e.sums[1], XI(n))) THEN {"weights-not-a-resample"}
     ELSE Clause(n < 50 \/ e.distinct = nb, "weights-repeat")
          \cup Clause(/\ XLe(XAbs(XSub(per(e.sq, nb), XSub(X2, XQ(1, n)))), six(XDiv(XI(16), XMul(XI(nb), XI(n)))))
                      /\ XLe(XAbs(XSub(per(e.lag, nb - 1), X1)), six(XDiv(XI(2), XMul(XI(nb), XI(n)))))
                      /\ XLe(XAbs(XSub(per(e.far, nb \div 2), X1)), six(XDiv(XI(4), XMul(XI(nb), XI(n)))))
                      /\ XLe(XAbs(XSub(XDiv(e.cmin, XI(nb)), X1)), six(XQ(2, nb)))
                      /\ XLe(XAbs(XSub(XDiv(e.cmax, XI(nb)), X1)), six(XQ(2, nb))), "weights-moments")
(* same random state with another minimum *)
FloorV(e) == IF e.status # "ok" THEN {"weights-raised"}
             ELSE Clause(/\ Len(e.rows) = Len(e.base)
                         /\ \A r \in 1..Len(e.base) : /\ Len(e.rows[r]) = Len(e.base[r])
                                                     /\ \A i \in 1..Len(e.base[r]) : XEq(e.rows[r][i], XMax(e.eps, e.base[r][i])), "weights-minimum")

(*-- percentile, basic, error_bar, significance *)
NanB(e) == \E j \in 1..Len(e.cols) : SomeNan(e.cols[j].b)
PercV(e) ==
  IF NanB(e) THEN Clause(e.status = "exc", "nan-replicates-accepted")
  ELSE IF e.status # "ok" THEN {"interval-raised"}
  ELSE All({ LET c == e.cols[j] L == PercLB(c.b, e.conf) U == PercUB(c.b, e.conf) IN
             Clause(\E v \in L : XEq(c.lb, v), "percentile-lower")
             \cup Clause(\E v \in U : XEq(c.ub, v), "percentile-upper")
             \cup Clause(\E v \in U : XClose(c.blb, XSub(XMul(X2, c.est), v)), "basic-lower")
             \cup Clause(\E v \in L : XClose(c.bub, XSub(XMul(X2, c.est), v)), "basic-upper")
             \cup Clause(SomeClose(c.eb, BootEBs(c.b, c.est, e.conf)), "error-bar")
           : j \in 1..Len(e.cols)})
SigV(e) ==
  IF SomeNan(e.b) \/ SomeNan(e.ref) THEN Clause(e.status = "exc", "nan-replicates-accepted")
  ELSE R1(e, Clause(XClose(e.out, BootPval(e.b, e.ref)), "significance"), "significance-raised")

Verdict(e) ==
  CASE e.op = "tEB" -> TEBV(e) [] e.op = "tP" -> TPV(e) [] e.op = "tBoth" -> TBothV(e)
    [] e.op = "bEB" -> BEBV(e) [] e.op = "bP" -> BPV(e)
    [] e.op = "bootEB" -> BootEBV(e) [] e.op = "bootP" -> BootPV(e)
    [] e.op = "clip" -> ClipV(e) [] e.op = "mean" -> MeanV(e)
    [] e.op = "weights" -> WeightsV(e) [] e.op = "floor" -> FloorV(e) [] e.op = "digest" -> DigestV(e)
    [] e.op = "perc" -> PercV(e) [] e.op = "sig" -> SigV(e)
    [] OTHER -> {"unknown-event"}
Check == Report(l, Verdict(Trace[l]))
=============================================================================
