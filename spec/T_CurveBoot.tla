----------------------------- MODULE T_CurveBoot -----------------------------
(* Recorded runs of classification.curve_boot, curve_summary_table and      *)
(* summary_table against CurveBoot and Summary (C16, C17).  The curve       *)
(* functions passed in record the weights they were given and the curves    *)
(* they returned, so a run carries its own resamples as witnesses:          *)
(* reps[r] = [w, c (method's curve), rc (reference's curve at w)].          *)
EXTENDS CurveBoot, SummaryObs
All(S) == UNION S
Loose == "1/1000000"
Close(a, b) == XNear(a, b, TolRel, "1/10000000000")
ResampleOk(w) == \A i \in 1..Len(w) : XGt(w[i], X0) /\ (XLe(w[i], Loose) \/ XIsInt(w[i]))
DrawsOk(w) == XEq(XSum([i \in 1..Len(w) |-> IF XLe(w[i], Loose) THEN X0 ELSE w[i]]), XI(Len(w)))
(* Areas of the same curve tie; areas that agree only up to rounding may    *)
(* fall on either side of each other.                                       *)
PvalOk(c, b, q) ==
  LET n == Len(b)
      tie(r) == IF c.scalar THEN FALSE ELSE c.reps[r].c = c.reps[r].rc
      near(r) == ~tie(r) /\ Close(b[r], q[r])
      le == Cardinality({r \in 1..n : tie(r) \/ (~near(r) /\ XLe(b[r], q[r]))})
      ge == Cardinality({r \in 1..n : tie(r) \/ (~near(r) /\ XLe(q[r], b[r]))})
      nn == Cardinality({r \in 1..n : near(r)})
      pv(i, j) == XMin(X1, XMul(X2, XMin(XQ(i, n), XQ(j, n))))
  IN \E i \in le..(le + nn), j \in ge..(ge + nn) : i - le + j - ge >= nn /\ XClose(c.p, pv(i, j))
(* value of the original curve at g, on either side of a step that is at g  *)
(* up to rounding                                                           *)
OwnAt(own, g) == LET f == "1/1000000000" lo == own.x[1] hi == own.x[Len(own.x)] IN
  {At(own, XMin(hi, XMax(lo, h))) : h \in {g, XSub(g, f), XAdd(g, f)}}
(* a cell: curve name, y, s (scores), sr (reference scores), scalar, ref,   *)
(* mu, eb, p, grid, rows (x, y, lo, hi), reps                               *)
RunV(e, c) ==
  LET w == Ones(Len(e.y))
      own == CurveOf(c.curve, e.y, c.s, w)
      a == Area(own)
      ra == IF c.scalar THEN c.ref ELSE Area(CurveOf(c.curve, e.y, c.sr, w))
      boots == TLCEval([r \in 1..Len(c.reps) |-> Area(c.reps[r].c)])
      refs == TLCEval([r \in 1..Len(c.reps) |-> IF c.scalar THEN c.ref ELSE Area(c.reps[r].rc)])
      cs == TLCEval([r \in 1..Len(c.reps) |-> c.reps[r].c])
      ebs == RunEBs(a, boots, ra, refs, e.pairwise, e.conf)
  IN Clause(c.labels, "label-1-is-positive")
     \cup Clause(c.witness, "method-and-reference-not-on-the-same-resamples")
     \cup Clause(Close(c.mu, a), "area")
     \cup (IF ~c.witness THEN {} ELSE
       Clause(Len(c.reps) = e.nb, "number-of-resamples")
       \cup Clause(\A r \in 1..Len(c.reps) : ResampleOk(c.reps[r].w) /\ DrawsOk(c.reps[r].w), "weights")
       \cup (IF c.nanEB THEN Clause(XIsNan(c.eb), "reference-error-bar-not-nan")
             ELSE Clause(\E v \in ebs : Close(c.eb, v), "error-bar"))
       \cup (IF c.nanP THEN Clause(XIsNan(c.p), "reference-p-value-not-nan")
             ELSE Clause(PvalOk(c, boots, refs), "p-value"))
       \cup Clause(Len(c.rows) = Len(e.grid) /\ \A k \in 1..Len(e.grid) : XClose(c.rows[k].x, e.grid[k]), "grid")
       \cup (IF Len(c.rows) # Len(e.grid) THEN {} ELSE
          Clause(\A k \in 1..Len(e.grid) : \E v \in OwnAt(own, e.grid[k]) : XNear(c.rows[k].y, v, TolRel, "1/10000000"), "curve-on-grid")
          \cup Clause(\A k \in 1..Len(e.grid) : \E v \in EnvLo(cs, e.grid[k], e.conf) : Close(c.rows[k].lo, v), "envelope-lower")
          \cup Clause(\A k \in 1..Len(e.grid) : \E v \in EnvHi(cs, e.grid[k], e.conf) : Close(c.rows[k].hi, v), "envelope-upper")))
BootV(e) == IF e.status # "ok" THEN {"curve-boot-raised"} ELSE RunV(e, e.cell)
TableV(e) ==
  IF e.status # "ok" THEN {"curve-table-raised"}
  ELSE IF ~e.labels THEN {"table-labels"}
  ELSE All({RunV(e, e.cells[k]) : k \in 1..Len(e.cells)})
       \cup All({MetricV(e, e.metrics[j]) : j \in 1..Len(e.metrics)})
(* methods with the very predictions of the reference: no difference at all.  (An *)
(* infinite PR-gain area has no error bar of its own.)                      *)
DupCellV(e, c) ==
  Clause(Close(c.mu, Area(CurveOf(c.curve, e.y, c.s, Ones(Len(e.y))))), "area")
  \cup (IF c.ref THEN Clause(XIsNan(c.p), "reference-p-value-not-nan") \cup Clause(IF e.pairwise THEN XIsNan(c.eb) ELSE XFin(c.mu) => ~XIsNan(c.eb), "reference-error-bar-nan-iff-paired")
        ELSE Clause(~XIsNan(c.p) /\ (XFin(c.mu) /\ XFin(c.refmu) => ~XIsNan(c.eb)), "nan-cell")
             \cup (IF c.same THEN Clause(XEq(c.p, X1), "p-value-of-equal-predictions") \cup Clause(~e.pairwise \/ XEq(c.eb, X0), "error-bar-of-equal-predictions") ELSE {}))
DupV(e) ==
  IF e.status # "ok" THEN {"curve-table-raised"} ELSE IF ~e.labels THEN {"table-labels"} ELSE All({DupCellV(e, e.cells[k]) : k \in 1..Len(e.cells)})
(* every replicate of a run is a uniform resample, whatever its position *)
ResamplesV(e) ==
  IF e.status # "ok" THEN {"curve-boot-raised"}
  ELSE IF \E k \in 1..e.nb : Len(e.rows[k]) # e.runs THEN {"number-of-resamples"}
  ELSE Clause(\A k \in 1..e.nb : \A w \in Weightings[e.n] :
         LET q == WProb(w, e.n)
             m == Cardinality({r \in 1..e.runs : \A i \in 1..e.n : XEq(e.rows[k][r][i], XI(w[i]))})
         IN XLe(XAbs(XSub(XQ(m, e.runs), q)), Band(q, e.runs)), "resamples-not-uniform")
Verdict(e) == CASE e.op = "boot" -> BootV(e) [] e.op = "table" -> TableV(e) [] e.op = "dup" -> DupV(e) [] e.op = "resamples" -> ResamplesV(e) [] OTHER -> {"unknown-event"}
Check == Report(l, Verdict(Trace[l]))
=============================================================================
