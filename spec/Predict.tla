------------------------------- MODULE Predict -------------------------------
(* Prediction tables: what a method's raw output becomes in the table, and  *)
(* what the noise baselines predict.                                        *)
EXTENDS Losses
FloorNorm(lp, mn) == Normalized([k \in 1..Len(lp) |-> XMax(mn, lp[k])])
(* raw output of a classifier: log probabilities, or plain probabilities *)
RawLog(raw, kind) == IF kind = "log" THEN raw ELSE TLCEval([k \in 1..Len(raw) |-> IF XEq(raw[k], X0) THEN "-inf" ELSE XLn(raw[k])])
ClassRow(raw, kind, mn) == FloorNorm(RawLog(raw, kind), mn)
GaussRow(mu, sd, hasstd, mn) == <<mu, XMax(mn, IF hasstd THEN sd ELSE X1)>>
(* training label frequencies with pseudo-counts *)
Count(y, k) == Cardinality({i \in 1..Len(y) : y[i] = k})
NoiseProb(y, n, pc) == [k \in 1..n |-> XDiv(XAdd(XI(Count(y, k - 1)), pc), XAdd(XI(Len(y)), XMul(XI(n), pc)))]
NoiseMean(y) == XMean(y)
NoiseStd(y) == LET m == XMean(y) IN XSqrt(XDiv(XSum([i \in 1..Len(y) |-> XSq(XSub(y[i], m))]), XI(Len(y))))
=============================================================================
