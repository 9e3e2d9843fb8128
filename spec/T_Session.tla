------------------------------ MODULE T_Session ------------------------------
(* Recorded sessions against Session (C28).                                 *)
EXTENDS Session, TraceBase
Verdict(e) == IF e.op = "session" THEN SessionV(e.calls) ELSE {"unknown-event"}
Check == Report(l, Verdict(Trace[l]))
=============================================================================
