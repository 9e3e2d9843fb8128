------------------------------- MODULE Summary -------------------------------
(* The loss summary table: which sample each cell is computed from.         *)
EXTENDS Stats
(* differences to the reference; an undefined difference (inf - inf) counts *)
(* as infinite: nothing can be said                                         *)
Deltas(loss, ref) == [i \in 1..Len(loss) |-> LET d == XSub(loss[i], ref[i]) IN IF XIsNan(d) THEN "inf" ELSE d]
DeltaLo(lo, hi) == XNeg(Span(lo, hi))
DeltaHi(lo, hi) == Span(lo, hi)
(* what the error bar of a cell is computed from *)
EBSource(loss, ref, pairwise) == IF pairwise THEN Deltas(loss, ref) ELSE loss
EBLo(lo, hi, pairwise) == IF pairwise THEN DeltaLo(lo, hi) ELSE lo
EBHi(lo, hi, pairwise) == IF pairwise THEN DeltaHi(lo, hi) ELSE hi
PIsNan(method, ref) == method = ref
EBIsNan(method, ref, pairwise) == pairwise /\ method = ref
=============================================================================
