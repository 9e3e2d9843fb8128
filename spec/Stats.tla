-------------------------------- MODULE Stats --------------------------------
(* Error bars, tests and bootstrap intervals on samples of losses.          *)
EXTENDS XReal, FiniteSets, FiniteSetsExt

N_(x) == XI(Len(x))
AllFin(x) == \A i \in 1..Len(x) : XFin(x[i])
SomeNan(x) == \E i \in 1..Len(x) : XIsNan(x[i])
(* nothing can be said about the scale of x *)
Degenerate(x) == Len(x) <= 1 \/ ~AllFin(x)
SumSq(x) == LET m == XMean(x) IN XSum([i \in 1..Len(x) |-> XSq(XSub(x[i], m))])
VarN(x, ddof) == XDiv(SumSq(x), XI(Len(x) - ddof))
Sem(x) == XSqrt(XDiv(VarN(x, 1), N_(x)))
StdMle(x) == XSqrt(VarN(x, 0))

(*------------------------------ Student's t -------------------------------*)
(* P(|T| <= t) for integer df, t >= 0 (finite closed form)                  *)
RECURSIVE TTerms(_, _, _, _, _)
(* sum of c_k * cos^(2k) with c_(k+1)/c_k = a/(a+1) *)
TTerms(k, last, a, c2, term) ==
  IF k > last THEN X0
  ELSE XAdd(term, TTerms(k + 1, last, a + 2, c2, XRnd(XMul(XMul(term, c2), XQ(a, a + 1)))))
TCover(t, df) ==
  IF ~XFin(t) THEN X1
  ELSE IF XEq(t, X0) THEN X0
  ELSE
  LET r == XRnd(XDiv(t, XSqrt(XI(df))))          \* tan theta
      c2 == XRnd(XDiv(X1, XAdd(X1, XSq(r))))     \* cos^2 theta
      sc == XRnd(XMul(r, c2))                    \* sin theta cos theta
      sn == XRnd(XMul(r, XSqrt(c2)))             \* sin theta
      th == XAtan(r)
  IN IF df % 2 = 1
     THEN XRnd(XMul(XDiv(X2, XPi),
               IF df = 1 THEN th ELSE XAdd(th, XMul(sc, TTerms(0, (df - 3) \div 2, 2, c2, X1)))))
     ELSE XRnd(XMul(sn, TTerms(0, (df - 2) \div 2, 1, c2, X1)))
TTail(t, df) == XSub(X1, TCover(t, df))
(* two-sided p-value of the hypothesis of mean zero *)
TPval(x) ==
  IF Degenerate(x) THEN X1
  ELSE IF XEq(VarN(x, 1), X0) THEN (IF XEq(XMean(x), X0) THEN X1 ELSE X0)
  ELSE TTail(XDiv(XAbs(XMean(x)), Sem(x)), Len(x) - 1)

(*------------------------------- Bernstein --------------------------------*)
Span(lo, hi) == XSub(hi, lo)
BernEB(x, lo, hi, conf) ==
  LET R == Span(lo, hi) A == XLn(XDiv(XI(3), XSub(X1, conf))) IN
  IF Degenerate(x) THEN R
  ELSE XAdd(XMul(StdMle(x), XSqrt(XDiv(XMul(X2, A), N_(x)))), XDiv(XMul(XMul(XI(3), A), R), N_(x)))
(* smallest delta, capped at 1, whose error bar reaches from the mean to 0 *)
BernPval(x, lo, hi) ==
  LET R == Span(lo, hi) IN
  IF Degenerate(x) \/ XEq(R, X0) \/ ~XFin(R) THEN X1
  ELSE LET a == XDiv(XMul(XI(3), R), N_(x))
           b == XMul(StdMle(x), XSqrt(XDiv(X2, N_(x))))
           c == XAbs(XMean(x))
           s == XDiv(XSub(XSqrt(XAdd(XSq(b), XMul(XI(4), XMul(a, c)))), b), XMul(X2, a))  \* sqrt(ln(3/delta))
       IN XMin(X1, XMul(XI(3), XExp(XNeg(XSq(s)))))

(*------------------------------- clipping ---------------------------------*)
(* no finite limit, or an unknown estimate: no upper clipping *)
TrivialEB(mu, lo, hi) ==
  LET u == XSub(hi, mu) v == XSub(mu, lo) IN
  IF XIsNan(u) /\ XIsNan(v) THEN "inf" ELSE IF XIsNan(u) THEN v ELSE IF XIsNan(v) THEN u ELSE XMax(u, v)
ClipEB(mu, eb, lo, hi, mn) ==
  IF XIsNan(eb) THEN "nan" ELSE XMin(XMax(eb, mn), TrivialEB(mu, lo, hi))
ClipRejects(mu, lo, hi, mn) == XGt(lo, mu) \/ XGt(mu, hi) \/ XGt(XMul(X2, mn), XSub(hi, lo))

(*----------------------- bootstrap order statistics -----------------------*)
Fuzz == "1/1000000000"
ClampInt(v, n) == LET i == XToInt(v) IN IF i < 0 THEN 0 ELSE IF i > n THEN n ELSE i
(* 0-based positions of the percentile limits, rounded outward; both        *)
(* neighbours are allowed when the position is an integer up to rounding    *)
LoPos(n, conf) == LET a == XMul(XDiv(XSub(X1, conf), X2), XI(n - 1)) IN
                  {ClampInt(XFloor(XSub(a, Fuzz)), n - 1), ClampInt(XFloor(XAdd(a, Fuzz)), n - 1)}
HiPos(n, conf) == LET a == XMul(XSub(X1, XDiv(XSub(X1, conf), X2)), XI(n - 1)) IN
                  {ClampInt(XCeil(XSub(a, Fuzz)), n - 1), ClampInt(XCeil(XAdd(a, Fuzz)), n - 1)}
PercLB(b, conf) == LET s == XSort(b) IN {s[i + 1] : i \in LoPos(Len(b), conf)}
PercUB(b, conf) == LET s == XSort(b) IN {s[i + 1] : i \in HiPos(Len(b), conf)}
(* larger of the two distances; an undefined distance (inf - inf) is ignored *)
FMax(u, v) == IF XIsNan(u) THEN v ELSE IF XIsNan(v) THEN u ELSE XMax(u, v)
BootEBs(b, est, conf) == {FMax(XSub(u, est), XSub(est, v)) : u \in PercUB(b, conf), v \in PercLB(b, conf)}
Frac(b, P(_)) == XQ(Cardinality({i \in 1..Len(b) : P(i)}), Len(b))
(* ref: a sequence as long as b *)
BootPval(b, ref) == XMin(X1, XMul(X2, XMin(Frac(b, LAMBDA i : XLe(b[i], ref[i])), Frac(b, LAMBDA i : XLe(ref[i], b[i])))))

(*------------- exact distribution of the resampled mean, small N ----------*)
RECURSIVE SumTo(_, _)
SumTo(w, n) == IF n = 0 THEN 0 ELSE w[n] + SumTo(w, n - 1)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE ProdFact(_, _)
ProdFact(w, n) == IF n = 0 THEN 1 ELSE Fact(w[n]) * ProdFact(w, n - 1)
MaxN == 5
(* all weightings of n points by n draws *)
Weightings == [n \in 1..MaxN |-> {w \in [1..n -> 0..n] : SumTo(w, n) = n}]
WProb(w, n) == XQ(Fact(n) \div ProdFact(w, n), Pow(n, n))
WMean(w, x) == XDiv(XDot([i \in 1..Len(x) |-> XI(w[i])], x), N_(x))
XSumSet(S, f) == FoldSet(LAMBDA w, acc : XAdd(f[w], acc), X0, S)
(* the distribution as a set of value, P(<=), P(<) *)
BootDist(x) ==
  LET n == Len(x)
      W == Weightings[n]
      m == [w \in W |-> WMean(w, x)]
      pr == [w \in W |-> WProb(w, n)]
      vals == {m[w] : w \in W}
  IN {[v |-> v, le |-> XSumSet({w \in W : XLe(m[w], v)}, pr), lt |-> XSumSet({w \in W : XLt(m[w], v)}, pr)] : v \in vals}
(* sampling error allowed on a fraction q estimated from n replicates *)
Band(q, n) == XAdd(XMul(XI(6), XSqrt(XDiv(XMul(q, XSub(X1, q)), XI(n)))), XQ(3, n))
BandOk(d, q, n) == /\ XGe(d.le, XSub(q, Band(q, n))) /\ XLe(d.lt, XAdd(q, Band(q, n)))
(* eb is a plausible bootstrap error bar from n replicates.  D: BootDist(x). *)
BootEBPlausible(D, mu, conf, n, eb) ==
  LET a == XDiv(XSub(X1, conf), X2) IN
  \E u \in D, v \in D : /\ BandOk(v, a, n) /\ BandOk(u, XSub(X1, a), n)
                        /\ XClose(eb, FMax(XSub(u.v, mu), XSub(mu, v.v)))
(* A replicate mean within eps of 0 may be taken to lie on either side.     *)
BootPPlausible(D, n, p, eps) ==
  LET top(S) == CHOOSE d \in S : \A e \in S : XLe(e.v, d.v)
      upto(S) == IF S = {} THEN X0 ELSE top(S).le
      at == upto({d \in D : XLe(d.v, eps)})                        \* P(mean <= 0), or a little more
      bel == upto({d \in D : XLt(d.v, XNeg(eps))})                 \* P(mean < 0), or a little less
      exact == XEq(eps, X0)
      Fhi == at
      Flo == IF exact THEN at ELSE bel
      Ghi == XSub(X1, bel)
      Glo == IF exact THEN Ghi ELSE XSub(X1, at)
      b(q) == IF XEq(q, X0) \/ XEq(q, X1) THEN X0 ELSE Band(q, n)
      lo == XMin(XSub(Flo, b(Flo)), XSub(Glo, b(Glo)))
      hi == XMin(XAdd(Fhi, b(Fhi)), XAdd(Ghi, b(Ghi)))
  IN /\ XGe(p, X0) /\ XLe(p, X1)
     /\ XGe(p, XSub(XMin(X1, XMul(X2, lo)), TolRel)) /\ XLe(p, XAdd(XMin(X1, XMul(X2, hi)), TolRel))
(* p comes from n replicates: a multiple of 2/n, or 1 *)
PGrain(p, n) == XEq(p, X1) \/ LET k == XMul(p, XQ(n, 2)) IN XNear(k, XHalfUp(k), X0, "1/1000000")
=============================================================================
