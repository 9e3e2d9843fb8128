------------------------------ MODULE MC_Domain ------------------------------
(* The abstract calls of every function, and what can be said about the      *)
(* division into well-formed and malformed ones.                             *)
EXTENDS Domain, TLC, Json, IOUtils, SequencesExt
CONSTANT MaxFaults
VARIABLE c
Init == c \in {[op |-> o, a |-> [none |-> 0], st |-> 0] : o \in Ops}
Next == c.st = 0 /\ \E a \in Spaces[c.op] : Faults(c.op, a) <= MaxFaults /\ c' = [op |-> c.op, a |-> a, st |-> 1]
Decided(op, a) == ~Free([op |-> op, a |-> a])
(* every function has calls of both sorts *)
BothSorts == c.st = 0 => \A good \in BOOLEAN : \E a \in Spaces[c.op] : AdmIn(c.op, a) = good /\ Decided(c.op, a)
(* every condition is independent: some malformed call breaks that one only *)
EachCondition == c.st = 0 =>
  LET ones == {a \in Spaces[c.op] : Faults(c.op, a) = 1 /\ Decided(c.op, a)}
      which(k) == CHOOSE i \in 1..Len(k) : ~k[i]
  IN {which(Conds(c.op, a)) : a \in ones} = 1..Len(Conds(c.op, CHOOSE a \in Spaces[c.op] : TRUE))
(* every argument matters: changing it alone can turn a well-formed call into *)
(* a malformed one (arguments that only vary the context are exempt)          *)
Context == {"f", "assume", "tex", "others", "who", "unique", "sorted", "skip"}
ContextIn(op) == IF op \in {"t_EB", "t_test", "bernstein_EB", "bernstein_test", "rand_subset", "normalize"} THEN {"n"} ELSE IF op = "split_series" THEN {"kind", "values"} ELSE {}
Matters == c.st = 0 =>
  \A f \in DOMAIN (CHOOSE a \in Spaces[c.op] : TRUE) \ (Context \cup ContextIn(c.op)) :
    LET values == TLCEval({b[f] : b \in Spaces[c.op]}) IN
    \/ \E a \in Spaces[c.op] : AdmIn(c.op, a) /\ \E v \in values : ~AdmIn(c.op, [a EXCEPT ![f] = v])
    \/ PrintT(<<"argument never decides", c.op, f>>) /\ FALSE
CasesOf(o) == SetToSeq({[op |-> o, a |-> a, faults |-> Faults(o, a)] : a \in {b \in Spaces[o] : Faults(o, b) <= MaxFaults}})
ASSUME ndJsonSerialize(IOEnv.CASES, FlattenSeq(SetToSeq({CasesOf(o) : o \in Ops})))
=============================================================================
