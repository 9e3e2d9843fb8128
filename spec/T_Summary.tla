------------------------------ MODULE T_Summary ------------------------------
(* Recorded calls of mlpaper.loss_summary_table against Summary (C07).      *)
EXTENDS SummaryObs
All(S) == UNION S
NanLoss(e) == \E j \in 1..Len(e.metrics) : \E k \in 1..Len(e.metrics[j].cells) : SomeNan(e.metrics[j].cells[k].loss)
SummaryV(e) ==
  IF NanLoss(e) THEN Clause(e.status = "exc", "nan-losses-accepted")
  ELSE IF e.status # "ok" THEN {"summary-raised"}
  ELSE Clause(e.labels, "labels")
       \cup (IF ~e.labels THEN {} ELSE All({MetricV(e, e.metrics[j]) : j \in 1..Len(e.metrics)}))
Verdict(e) == IF e.op = "summary" THEN SummaryV(e) ELSE {"unknown-event"}
Check == Report(l, Verdict(Trace[l]))
=============================================================================
