----------------------------- MODULE MC_Summary -----------------------------
(* All loss tables of two methods over a value grid: the p-value is a       *)
(* property of the unordered pair, shifting both methods changes neither it *)
(* nor the paired error bar, and identical methods are never significant.   *)
EXTENDS Summary, TLC, Json, IOUtils, SequencesExt
CONSTANT Deep
Vals == {X0, XQ(1, 2), X1, "inf"} \cup (IF Deep THEN {XQ(1, 4)} ELSE {})
Pts == IF Deep THEN {1, 2, 3} ELSE {2, 3}
Tables == UNION {[a : [1..n -> Vals], b : [1..n -> Vals]] : n \in Pts}
VARIABLE t
Init == t \in {[st |-> 0, a |-> x, b |-> <<>>] : x \in UNION {[1..n -> Vals] : n \in Pts}}
Next == t.st = 0 /\ t' \in [st : {1}, a : {t.a}, b : [1..Len(t.a) -> Vals]]
On == t.st = 1
Dab == Deltas(t.a, t.b)
Dba == Deltas(t.b, t.a)
LimAll == {<<X0, X1>>, <<X0, "inf">>, <<"-inf", "inf">>}
Lims == {l \in LimAll : \A i \in 1..Len(t.a) : XLe(t.a[i], l[2]) /\ XLe(t.b[i], l[2])}
Within == On => \A lh \in Lims : \A i \in 1..Len(t.a) : XGe(Dab[i], DeltaLo(lh[1], lh[2])) /\ XLe(Dab[i], DeltaHi(lh[1], lh[2]))
Symmetric == On => /\ XNear(TPval(Dab), TPval(Dba), XPow10(-50), X0)
                   /\ \A lh \in Lims : XNear(BernPval(Dab, DeltaLo(lh[1], lh[2]), DeltaHi(lh[1], lh[2])), BernPval(Dba, DeltaLo(lh[1], lh[2]), DeltaHi(lh[1], lh[2])), XPow10(-50), X0)
SelfNotSignificant == On /\ t.a = t.b => /\ XEq(TPval(Dab), X1)
                                         /\ \A lh \in Lims : XEq(BernPval(Dab, DeltaLo(lh[1], lh[2]), DeltaHi(lh[1], lh[2])), X1)
ShiftInvariant == On => LET s(x) == [i \in 1..Len(x) |-> XAdd(x[i], XI(3))] IN Deltas(s(t.a), s(t.b)) = Dab
InfiniteSaysNothing == On /\ ~AllFin(Dab) => XEq(TPval(Dab), X1)
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({q \in Tables : Len(q.a) = Len(q.b)}))
=============================================================================
