------------------------------ MODULE T_Predict ------------------------------
(* Recorded prediction tables, checkpoint histories and one-call benchmarks *)
(* against Predict, Checkpoint, Losses, Summary and CurveBoot (C22 - C24).  *)
(* The estimators passed in log every call, with digests of the arrays they *)
(* were given.                                                              *)
EXTENDS Predict, CurveBoot, SummaryObs, Checkpoint
All(S) == UNION S
RawNan(r) == \E k \in 1..Len(r) : XIsNan(r[k])
(* a prediction that is not a number may be refused, never turned into one *)
AnyNan(e) == \E k \in 1..Len(e.methods) : \E i \in 1..Len(e.methods[k].raw) : RawNan(e.methods[k].raw[i])
SameOrNan(a, b) == XEq(a, b) \/ (XIsNan(a) /\ XIsNan(b))
NearRow(a, b) == Len(a) = Len(b) /\ XNearSeq(a, b, TolRel, "1/10000000000")

(*-- how each method was used: log entries [m, what, x, y] *)
Calls(e, m) == SelectSeq(e.log, LAMBDA r : r.m = m)
IsPred(r) == r.what # "fit"
UsedV(e, m) ==
  LET c == Calls(e, m) IN
  Clause(\E i \in 1..Len(c) : c[i].what = "fit", "method-not-trained")
  \cup Clause(\A i \in 1..Len(c) : c[i].what = "fit" => (c[i].x = e.xtrain /\ c[i].y = e.ytrain), "trained-on-other-data")
  \cup Clause(\A i \in 1..Len(c) : IsPred(c[i]) => c[i].x = e.xtest, "predicted-other-points")
  \cup Clause(\A i \in 1..Len(c) : IsPred(c[i]) => \E j \in 1..(i - 1) : c[j].what = "fit", "predicted-before-training")

(*-- tables *)
ClassTabV(e) ==
  IF e.status # "ok" THEN Clause(AnyNan(e), "prediction-table-raised")
  ELSE IF ~e.labels THEN {"prediction-table-labels"}
  ELSE All({ LET m == e.methods[k] IN
             (IF e.logged THEN UsedV(e, m.name) ELSE {})
             \cup Clause(Len(m.rows) = Len(m.raw) /\ \A i \in 1..Len(m.raw) : IF RawNan(m.raw[i]) THEN RawNan(m.rows[i]) ELSE NearRow(m.rows[i], ClassRow(m.raw[i], m.kind, e.floor)), "prediction-row")
             : k \in 1..Len(e.methods)})
GaussTabV(e) ==
  IF e.status # "ok" THEN Clause(AnyNan(e), "prediction-table-raised")
  ELSE IF ~e.labels THEN {"prediction-table-labels"}
  ELSE All({ LET m == e.methods[k] IN
             (IF e.logged THEN UsedV(e, m.name) ELSE {})
             \cup Clause(Len(m.rows) = Len(m.raw) /\ \A i \in 1..Len(m.raw) :
                         LET g == GaussRow(m.raw[i][1], m.raw[i][2], m.kind = "std", e.floor) IN SameOrNan(m.rows[i][1], g[1]) /\ SameOrNan(m.rows[i][2], g[2]), "prediction-row")
             : k \in 1..Len(e.methods)})
NoiseCV(e) ==
  IF e.status # "ok" THEN {"noise-raised"}
  ELSE LET p == NoiseProb(e.y, e.n, e.pc) IN
       Clause(Len(e.rows) = e.npts /\ \A i \in 1..Len(e.rows) : Len(e.rows[i]) = e.n /\ \A k \in 1..e.n :
              IF XEq(p[k], X0) THEN e.rows[i][k] = "-inf" ELSE XClose(e.rows[i][k], XLn(p[k])), "noise-prediction")
NoiseRV(e) ==
  IF e.status # "ok" THEN {"noise-raised"}
  ELSE LET m == NoiseMean(e.y) s == NoiseStd(e.y) big == XAdd(XAbs(m), s) IN
       Clause(Len(e.mu) = e.npts /\ \A i \in 1..Len(e.mu) : XNear(e.mu[i], m, TolRel, XMul(TolRel, big)), "noise-mean")
       \cup Clause(Len(e.sd) = e.npts /\ \A i \in 1..Len(e.sd) : XNear(e.sd[i], s, TolRel, XMul(TolRel, big)), "noise-deviation")

(*-- histories.  run: ms (name, cfg, kind, raw, rows), data, ckpt, crash    *)
(* (the configuration that crashes, "" for none), floor, status, fits (the  *)
(* configurations trained, in order), done (those whose prediction          *)
(* completed).  The store is what completed under the checkpoint directory. *)
Keys(r, q) == {Key(q[i], r.data) : i \in 1..Len(q)}
RECURSIVE StoreAt(_, _)
StoreAt(e, i) == IF i = 1 THEN {} ELSE StoreAt(e, i - 1) \cup (IF e.runs[i - 1].ckpt THEN Keys(e.runs[i - 1], e.runs[i - 1].done) ELSE {})
HistRunV(e, i) ==
  LET r == e.runs[i]
      s == IF r.ckpt THEN StoreAt(e, i) ELSE {}
      want == {Key(r.ms[k].cfg, r.data) : k \in 1..Len(r.ms)}
      model == Run(s, [k \in 1..Len(r.ms) |-> r.ms[k].cfg], r.data, r.ckpt, r.crash)
  IN Clause(r.status = (IF model.crashed THEN "exc" ELSE "ok"), IF model.crashed THEN "crash-swallowed" ELSE "run-raised")
     \cup Clause(Keys(r, r.fits) \cap s = {}, "completed-method-trained-again")
     \cup (IF model.crashed THEN Clause(\E k \in 1..Len(r.fits) : r.fits[k] = r.crash, "missing-method-not-trained")
           ELSE Clause(want \subseteq s \cup Keys(r, r.fits), "missing-method-not-trained"))
     \cup (IF r.status # "ok" \/ model.crashed THEN {} ELSE
           Clause(\A k \in 1..Len(r.ms) : LET m == r.ms[k] IN
                  /\ Len(m.rows) = Len(m.raw)
                  /\ \A j \in 1..Len(m.raw) :
                       IF e.task = "class" THEN NearRow(m.rows[j], ClassRow(m.raw[j], "log", r.floor))
                       ELSE LET g == GaussRow(m.raw[j][1], m.raw[j][2], TRUE, r.floor) IN XEq(m.rows[j][1], g[1]) /\ XEq(m.rows[j][2], g[2]),
                  "checkpointed-predictions-differ"))
HistV(e) == All({HistRunV(e, i) : i \in 1..Len(e.runs)})

(*-- one-call benchmarks: loss cells judged on the losses of the parts;     *)
(* curve cells on the recorded resamples.  pred rows are the table's.       *)
CurveCellV(e, c) ==
  LET w == Ones(Len(e.y))
      a == Area(CurveOf(c.curve, e.y, c.s, w))
      ra == Area(CurveOf(c.curve, e.y, c.sr, w))
      boots == TLCEval([r \in 1..Len(c.reps) |-> Area(c.reps[r].c)])
      refs == TLCEval([r \in 1..Len(c.reps) |-> Area(c.reps[r].rc)])
      Close(u, v) == XNear(u, v, TolRel, "1/10000000000")
  IN Clause(Close(c.mu, a), "curve-area")
     \cup (IF c.isref THEN Clause(XIsNan(c.p) /\ (IF e.pairwise THEN XIsNan(c.eb) ELSE XFin(a) => ~XIsNan(c.eb)), "reference-cell")
           ELSE IF ~c.full THEN Clause(c.witness /\ ~XIsNan(c.p), "curve-cell")
           ELSE Clause(c.witness /\ \E v \in RunEBs(a, boots, ra, refs, e.pairwise, e.conf) : Close(c.eb, v), "curve-error-bar")
                \cup Clause(XGe(c.p, X0) /\ XLe(c.p, X1), "curve-p-value"))
BenchV(e) ==
  IF e.status # "ok" THEN {"benchmark-raised"}
  ELSE IF ~e.labels THEN {"benchmark-labels"}
  ELSE All({UsedV(e, e.names[k]) : k \in 1..Len(e.names)})
       \cup All({MetricV(e, e.metrics[j]) : j \in 1..Len(e.metrics)})
       \cup All({CurveCellV(e, e.cells[k]) : k \in 1..Len(e.cells)})

Verdict(e) ==
  CASE e.op = "ctab" -> ClassTabV(e) [] e.op = "gtab" -> GaussTabV(e) [] e.op = "noisec" -> NoiseCV(e)
    [] e.op = "noiser" -> NoiseRV(e) [] e.op = "history" -> HistV(e) [] e.op = "bench" -> BenchV(e)
    [] OTHER -> {"unknown-event"}
Check == Report(l, Verdict(Trace[l]))
=============================================================================
