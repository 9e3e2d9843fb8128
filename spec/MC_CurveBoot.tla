---------------------------- MODULE MC_CurveBoot ----------------------------
(* A bootstrap run as a state machine: choose data and two score vectors,   *)
(* then draw replicates one by one.                                         *)
EXTENDS CurveBoot, TLC, Json, IOUtils, SequencesExt
CONSTANTS NPts, Draws, Deep
Vals == IF Deep THEN {X0, X1, X2} ELSE {X0, X1}
VARIABLES d, ws
WSeq == SetToSeq(Weightings[NPts])
Seen(w) == CHOOSE k \in 1..Len(WSeq) : WSeq[k] = w
Init == /\ d \in [y : [1..NPts -> {0, 1}], m : [1..NPts -> Vals], r : [1..NPts -> Vals]]
        /\ ~OneClass(d.y) /\ ws = <<>>
(* the order of the draws does not matter: nothing below depends on it *)
Next == Len(ws) < Draws /\ \E k \in 1..Len(WSeq) : (IF ws = <<>> THEN TRUE ELSE k >= Seen(ws[Len(ws)])) /\ ws' = Append(ws, WSeq[k]) /\ UNCHANGED d
Names == {"roc", "pr", "prg"}
A(c, s, w) == Area(CurveOf(c, d.y, s, w))
Boots(c, s) == TLCEval([k \in 1..Len(ws) |-> A(c, s, Floored(ws[k]))])
Whole(c, s) == A(c, s, Ones(NPts))
Done == Len(ws) = Draws
Confs == {XQ(1, 2), XQ(19, 20)}
NoNan(S) == \A v \in S : ~XIsNan(v)
(* a method compared with itself never differs *)
SelfZero == Done => \A c \in Names : LET m == Whole(c, d.m) b == Boots(c, d.m) IN
   /\ RunEBs(m, b, m, b, TRUE, XQ(1, 2)) = {X0}
   /\ XEq(RunPval(b, b), X1)
(* method and reference are interchangeable in the p-value and paired bar *)
PairSymmetric == Done => \A c \in Names :
   LET bm == Boots(c, d.m) br == Boots(c, d.r) m == Whole(c, d.m) r == Whole(c, d.r) IN
   /\ RunPval(bm, br) = RunPval(br, bm)
   /\ RunEBs(m, bm, r, br, TRUE, XQ(1, 2)) = RunEBs(r, br, m, bm, TRUE, XQ(1, 2))
(* error bars are defined unless the estimate itself is infinite, never negative at high confidence when the estimate is inside *)
Defined == Done => \A c \in Names : LET m == Whole(c, d.m) bm == Boots(c, d.m) IN
   /\ \A k \in 1..Len(bm) : ~XIsNan(bm[k])
   /\ XFin(m) => NoNan(RunEBs(m, bm, X0, [k \in 1..Len(bm) |-> X0], FALSE, XQ(1, 2)))
(* the envelope encloses itself at every grid point and grows with confidence *)
EnvelopeOk == Done => \A c \in {"roc", "pr"} :
   LET cs == TLCEval([k \in 1..Len(ws) |-> CurveOf(c, d.y, d.m, Floored(ws[k]))]) IN
   \A g \in {X0, XQ(1, 2), X1} :
      /\ \A lo \in EnvLo(cs, g, XQ(1, 2)), hi \in EnvHi(cs, g, XQ(1, 2)) : XLe(lo, hi)
      /\ \A lo \in EnvLo(cs, g, XQ(1, 2)), l2 \in EnvLo(cs, g, XQ(19, 20)) : XLe(l2, lo)
      /\ \A hi \in EnvHi(cs, g, XQ(1, 2)), h2 \in EnvHi(cs, g, XQ(19, 20)) : XGe(h2, hi)
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({q \in [y : [1..NPts -> {0, 1}], m : [1..NPts -> Vals], r : [1..NPts -> Vals]] : ~OneClass(q.y)}))
=============================================================================
