------------------------------- MODULE MC_Split -------------------------------
(* All small columns and pairs of columns, every kind of split.             *)
EXTENDS Split, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, Deep
Vals == {X0, X1, X2}
Fracs == {X0, XQ(1, 4), XQ(1, 2), XQ(3, 4), X1} \cup (IF Deep THEN {XQ(1, 3), XQ(2, 3), XQ(4, 5)} ELSE {XQ(1, 3)})
Kinds == {"random", "ordered", "linear"}
Cols == UNION {[1..n -> Vals] : n \in 1..MaxLen}
VARIABLE t
Init == t \in {[st |-> 0, a |-> [v |-> v, kind |-> k, frac |-> f], b |-> [v |-> v, kind |-> k, frac |-> f]] : v \in Cols, k \in Kinds, f \in Fracs}
(* the second column: any values of the same length *)
Next == t.st = 0 /\ \E v \in [1..Len(t.a.v) -> Vals], k \in Kinds, f \in {XQ(1, 2), X1} :
          t' = [st |-> 1, a |-> t.a, b |-> [v |-> v, kind |-> k, frac |-> f]]
n_ == Len(t.a.v)
(* single columns *)
EqualTogether == t.st = 0 => \A T \in Trains(t.a) : \A i, j \in 1..n_ : t.a.v[i] = t.a.v[j] => (i \in T <=> j \in T)
EnoughTrained == t.st = 0 /\ t.a.kind # "linear" => \A T \in Trains(t.a) :
    /\ XGe(XQ(Cardinality({t.a.v[i] : i \in T}), NVals(t.a.v)), XSub(t.a.frac, Met))
    /\ (t.a.kind = "random" /\ Dyadic(t.a.frac)) \/ (t.a.kind = "ordered" /\ Cardinality({t.a.v[i] : i \in T}) > 1) => XLt(XQ(Cardinality({t.a.v[i] : i \in T}) - 1, NVals(t.a.v)), t.a.frac)
PastBeforeFuture == t.st = 0 /\ t.a.kind # "random" => \A T \in Trains(t.a) :
    \A i, j \in 1..n_ : (i \in T /\ XLe(t.a.v[j], t.a.v[i])) => j \in T
Ends == t.st = 0 => \A T \in Trains(t.a) : /\ XEq(t.a.frac, X1) => T = 1..n_
                                           /\ (XEq(t.a.frac, X0) /\ t.a.kind = "random") => T = {}
                                           /\ t.a.kind # "random" => \A i \in 1..n_ : XEq(t.a.v[i], Lowest(t.a.v)) => i \in T
RandomAgrees == t.st = 0 /\ t.a.kind = "random" => \A T \in SUBSET (1..n_) : (T \in Trains(t.a)) <=> RandomOk(t.a.v, t.a.frac, T)
(* two columns *)
Partition == \A S \in Trains(t.a), T \in Trains(t.b) : LET m == <<S, T>> IN
    /\ TrainOf(m, n_) \cap TestOf(m, n_) = {} /\ TrainOf(m, n_) \cap UnusedOf(m, n_) = {} /\ TestOf(m, n_) \cap UnusedOf(m, n_) = {}
    /\ TrainOf(m, n_) = S \cap T
    /\ (t.st = 0 /\ S = T) => UnusedOf(m, n_) = {}
(* lags compose, lag 0 changes nothing *)
Shifted(v, p) == [i \in 1..Len(v) |-> Lagged(v, p, i)]
Lags == t.st = 0 => /\ Shifted(t.a.v, 0) = t.a.v
                    /\ \A p, q \in 0..n_ : Shifted(Shifted(t.a.v, p), q) = Shifted(t.a.v, p + q)
                    /\ \A p \in 0..n_ : Cardinality({i \in 1..n_ : Lagged(t.a.v, p, i) = "nan"}) = p
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({[v |-> v, kind |-> k, frac |-> f] : v \in Cols, k \in Kinds, f \in Fracs}))
=============================================================================
