------------------------------ MODULE MC_Curves ------------------------------
(* All small labelled, weighted score vectors: the curves' areas against    *)
(* independent definitions, and the structure users of the curves rely on.  *)
EXTENDS Curves, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, Deep
Scores == {XI(0), XI(1), XI(2)}
Wts == IF Deep THEN {1, 2, 3} ELSE {1, 2}
VARIABLE t
Init == t \in UNION {[st : {0}, y : [1..n -> {0, 1}], s : {<<>>}, w : {<<>>}] : n \in 1..MaxLen}
Next == t.st = 0 /\ t' \in [st : {1}, y : {t.y}, s : [1..Len(t.y) -> Scores], w : [1..Len(t.y) -> Wts]]
On == t.st = 1
W == [i \in 1..Len(t.w) |-> XI(t.w[i])]
n_ == Len(t.y)
Pos == {i \in 1..n_ : t.y[i] = 1}
Neg == {i \in 1..n_ : t.y[i] = 0}
Two == On /\ Pos # {} /\ Neg # {}
C(name) == CurveOf(name, t.y, t.s, W)
(* AUC is the weighted probability that a positive outranks a negative *)
SumOver(S, f(_)) == XSum([k \in 1..Cardinality(S) |-> f(SetToSeq(S)[k])])
Win(p, q) == IF XGt(t.s[p], t.s[q]) THEN X1 ELSE IF XEq(t.s[p], t.s[q]) THEN XQ(1, 2) ELSE X0
MannWhitney == XDiv(SumOver(Pos, LAMBDA p : SumOver(Neg, LAMBDA q : XMul(XMul(W[p], W[q]), Win(p, q)))),
                    XMul(SumOver(Pos, LAMBDA p : W[p]), SumOver(Neg, LAMBDA q : W[q])))
AucIsMannWhitney == Two => XEq(Area(C("roc")), MannWhitney)
(* flipping labels and scores leaves the AUC unchanged *)
AucFlip == Two => XEq(Area(C("roc")), Area(Roc([i \in 1..n_ |-> 1 - t.y[i]], [i \in 1..n_ |-> XNeg(t.s[i])], W)))
(* integer weights are repetitions *)
RECURSIVE Rep(_, _, _)
Rep(q, w, i) == IF i > Len(q) THEN <<>> ELSE [j \in 1..w[i] |-> q[i]] \o Rep(q, w, i + 1)
WeightsRepeat == Two => LET y2 == Rep(t.y, t.w, 1) s2 == Rep(t.s, t.w, 1) IN
                        \A c \in {"roc", "pr", "prg"} : C(c) = CurveOf(c, y2, s2, Ones(Len(y2)))
(* only ranks and relative weights matter *)
Invariance == Two => \A c \in {"roc", "pr", "prg"} :
                 C(c) = CurveOf(c, t.y, [i \in 1..n_ |-> XMul(XI(3), XAdd(t.s[i], XQ(1, 2)))], [i \in 1..n_ |-> XMul(XI(5), W[i])])
Shape == Two => \A c \in {"roc", "pr", "prg"} : LET q == C(c) IN
            /\ Sorted(q.x) /\ XEq(q.x[1], X0) /\ XEq(LastOf(q.x), X1) /\ Len(q.x) = 1 + Cardinality({t.s[i] : i \in 1..n_})
            /\ \A k \in 1..Len(q.y) : XLe(q.y[k], X1) /\ (c # "prg" => XGe(q.y[k], X0))
            /\ ~XIsNan(Area(q)) /\ XLe(Area(q), X1)
            /\ c = "prg" => XEq(LastOf(q.y), X0)
            /\ c = "pr" => XEq(LastOf(q.y), XDiv(SumOver(Pos, LAMBDA p : W[p]), XSum(W)))
(* the one-class curves are limits of two-class curves, areas included *)
OneClassLimit == On /\ OneClass(t.y) =>
   /\ \A c \in {"roc", "pr"} : XEq(Area(OneClassCurve(c, t.y, t.s, W)), OneClassArea(c, t.y))
   /\ LET tiny == XPow10(-12)   \* every point doubled by one of the other class with a tiny weight
          y2 == [i \in 1..(2 * n_) |-> IF i <= n_ THEN t.y[i] ELSE 1 - t.y[1]]
          s2 == [i \in 1..(2 * n_) |-> t.s[IF i <= n_ THEN i ELSE i - n_]]
          w2 == [i \in 1..(2 * n_) |-> IF i <= n_ THEN W[i] ELSE XMul(tiny, W[i - n_])]
      IN \A c \in {"roc", "pr", "prg"} : XNear(Area(CurveOf(c, y2, s2, w2)), OneClassArea(c, t.y), X0, XPow10(-10))
(* steps and lines agree at the points, and the area of the step function   *)
(* through a finer grid is unchanged                                        *)
AtPoints == Two => \A c \in {"roc", "pr"} : LET q == C(c) IN
   \A k \in Range(Lasts(q.x)) : XEq(At(q, q.x[k]), q.y[k])
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(UNION {[y : [1..n -> {0, 1}], s : [1..n -> Scores]] : n \in 1..MaxLen}))
=============================================================================
