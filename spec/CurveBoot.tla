------------------------------ MODULE CurveBoot ------------------------------
(* Bootstrap summaries and envelopes of performance curves.  One run draws  *)
(* a sequence of weightings of the data; every curve and area of the run,   *)
(* the method's and the reference's alike, comes from those weightings.     *)
EXTENDS Curves, Stats
MinWeight == XPow10(-10)
Floored(w) == TLCEval([i \in 1..Len(w) |-> IF w[i] = 0 THEN MinWeight ELSE XI(w[i])])
(* equal areas differ by 0 even when both are -inf *)
Delta(a, b) == IF XEq(a, b) THEN X0 ELSE XSub(a, b)
(* boots, refs: areas on the same weightings *)
RunEBs(area, boots, ref, refs, paired, conf) ==
  IF paired THEN BootEBs(TLCEval([r \in 1..Len(boots) |-> Delta(boots[r], refs[r])]), Delta(area, ref), conf)
  ELSE BootEBs(boots, area, conf)
RunPval(boots, refs) == BootPval(boots, refs)
EnvLo(curves, g, conf) == PercLB(TLCEval([r \in 1..Len(curves) |-> At(curves[r], g)]), conf)
EnvHi(curves, g, conf) == PercUB(TLCEval([r \in 1..Len(curves) |-> At(curves[r], g)]), conf)
=============================================================================
