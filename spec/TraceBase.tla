------------------------------ MODULE TraceBase ------------------------------
(* Common part of the trace specifications.  The trace is a sequence of     *)
(* recorded calls of the implementation; the events are dealt round-robin   *)
(* to independent chains so that TLC's workers share them.  A trace module  *)
(* defines Verdict(e), the set of names of specification clauses that event *)
(* e breaks; it is total, and an empty set means the call is allowed.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Shards == atoi(IOEnv.SHARDS)
Prop == IOEnv.PROP
VARIABLE l
TraceInit == l \in 1..Shards
TraceNext == l + Shards <= Len(Trace) /\ l' = l + Shards
Report(i, v) == v = {} \/ PrintT("@BAD " \o ToString(Trace[i].id) \o " " \o ToString(v))
(* {name} if the clause is broken *)
Clause(ok, name) == IF ok THEN {} ELSE {name}
=============================================================================
