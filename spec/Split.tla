-------------------------------- MODULE Split --------------------------------
(* Splitting the rows of a table by the values of its columns, and lagged   *)
(* copies of columns.  A column is a sequence of numbers (other orderable   *)
(* values are represented by their rank).                                   *)
EXTENDS XReal, FiniteSets, FiniteSetsExt, TLC
Distinct(v) == {v[i] : i \in 1..Len(v)}
NVals(v) == Cardinality(Distinct(v))
Upto(v, x) == {i \in 1..Len(v) : XLe(v[i], x)}
Met == "1/1000000000000"
(* a share k/m meets the fraction, float images of the same share included *)
Meets(k, m, frac) == XGe(XAdd(XQ(k, m), Met), frac)

(*-- ordered: the smallest non-empty leading set of distinct values that    *)
(* holds at least the fraction of them                                      *)
LeadCount(m, frac) == CHOOSE k \in 1..m : Meets(k, m, frac) /\ \A j \in 1..(k - 1) : ~Meets(j, m, frac)
Leading(v, k) == {i \in 1..Len(v) : Cardinality({x \in Distinct(v) : XLt(x, v[i])}) < k}
OrderedTrain(v, frac) == Leading(v, LeadCount(NVals(v), frac))
(* a fraction that is next to a share without being its float image may be  *)
(* taken for it or not                                                      *)
StrictCount(m, frac) == CHOOSE k \in 1..m : XGe(XQ(k, m), frac) /\ \A j \in 1..(k - 1) : ~XGe(XQ(j, m), frac)
OrderedNear(v, frac) == {OrderedTrain(v, frac), Leading(v, StrictCount(NVals(v), frac))}

(*-- linear: values up to the point at that fraction of the way *)
Lowest(v) == XSort(v)[1]
Highest(v) == XSort(v)[Len(v)]
Pivot(v, frac) == XAdd(Lowest(v), XMul(frac, XSub(Highest(v), Lowest(v))))
LinearTrain(v, frac) == Upto(v, Pivot(v, frac))

(*-- random: whole groups of equal values, and as few as hold the fraction  *)
(* a count within rounding of an integer may be rounded either way          *)
RandCounts(m, frac) == LET a == XMul(frac, XI(m)) f == "1/1000000000" IN
   {XToInt(XCeil(XSub(a, f))), XToInt(XCeil(XAdd(a, f)))} \cap (0..m)
Dyadic(frac) == XIsInt(XMul(frac, XI(1048576)))
RandSizes(m, frac) == IF Dyadic(frac) THEN {XToInt(XCeil(XMul(frac, XI(m))))} ELSE RandCounts(m, frac)
RandomOk(v, frac, T) == /\ \A i, j \in 1..Len(v) : v[i] = v[j] => (i \in T <=> j \in T)
                        /\ Cardinality({v[i] : i \in T}) \in RandSizes(NVals(v), frac)
RandomTrains(v, frac) ==
  LET G == UNION {kSubset(k, Distinct(v)) : k \in RandSizes(NVals(v), frac)} IN {{i \in 1..Len(v) : v[i] \in g} : g \in G}

(* the training sets one column may ask for *)
Trains(c) == CASE c.kind = "random" -> RandomTrains(c.v, c.frac)
               [] c.kind = "ordered" -> {OrderedTrain(c.v, c.frac)}
               [] OTHER -> {LinearTrain(c.v, c.frac)}
(* combining columns: masks is a sequence of training sets over rows 1..n *)
TrainOf(masks, n) == {i \in 1..n : \A k \in 1..Len(masks) : i \in masks[k]}
TestOf(masks, n) == {i \in 1..n : \A k \in 1..Len(masks) : i \notin masks[k]}
UnusedOf(masks, n) == (1..n) \ (TrainOf(masks, n) \cup TestOf(masks, n))

(*-- lags *)
Lagged(v, back, i) == IF i - back >= 1 /\ i - back <= Len(v) THEN v[i - back] ELSE "nan"
=============================================================================
