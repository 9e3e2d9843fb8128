----------------------------- MODULE SummaryObs -----------------------------
(* Is an observed summary cell what Summary asks for?  e: ref, pairwise,    *)
(* conf, how; m: lo, hi, cells; c: method, loss, mean, error, p.            *)
EXTENDS Summary, StatsObs, TraceBase
CellV(e, m, c) ==
  LET ref == m.cells[CHOOSE k \in 1..Len(m.cells) : m.cells[k].method = e.ref].loss
      base == [conf |-> e.conf, mn |-> X0, method |-> e.how, nb |-> 1000, w |-> <<>>, eb |-> c.error, p |-> c.p]
      src == [x |-> EBSource(c.loss, ref, e.pairwise), lo |-> EBLo(m.lo, m.hi, e.pairwise), hi |-> EBHi(m.lo, m.hi, e.pairwise)] @@ base
      tst == [x |-> Deltas(c.loss, ref), lo |-> DeltaLo(m.lo, m.hi), hi |-> DeltaHi(m.lo, m.hi)] @@ base
  IN Clause(XClose(c.mean, XMean(c.loss)) /\ XGe(c.mean, m.lo) /\ XLe(c.mean, m.hi), "mean")
     \cup (IF EBIsNan(c.method, e.ref, e.pairwise) THEN Clause(XIsNan(c.error), "reference-error-bar-not-nan")
           ELSE Clause(~XIsNan(c.error) /\ EBWith(src), "error-bar-" \o e.how))
     \cup (IF PIsNan(c.method, e.ref) THEN Clause(XIsNan(c.p), "reference-p-value-not-nan")
           ELSE Clause(~XIsNan(c.p) /\ PWith(tst), "p-value-" \o e.how))
     \cup (IF e.how = "boot" /\ e.pairwise /\ c.method # e.ref THEN Clause(SameReps(src), "p-and-error-bar-from-different-replicates") ELSE {})
MetricV(e, m) == UNION {CellV(e, m, m.cells[k]) : k \in 1..Len(m.cells)}
=============================================================================
