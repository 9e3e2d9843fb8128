------------------------------ MODULE T_Domain ------------------------------
(* Recorded calls: malformed ones are refused, well-formed ones answered.   *)
EXTENDS Domain, TraceBase
Verdict(e) ==
  LET c == [op |-> e.op, a |-> e.a] IN
  IF e.op \notin Ops THEN {"unknown-event"}
  ELSE IF Free(c) THEN {}
  ELSE IF Adm(c) THEN Clause(e.status = "ok", "well-formed-call-refused")
  ELSE Clause(e.status = "exc", "malformed-call-answered")
Check == Report(l, Verdict(Trace[l]))
=============================================================================
