------------------------------- MODULE T_Split -------------------------------
(* Recorded splits and lag frames against Split (C25 - C27).                *)
EXTENDS Split, TraceBase
Picked(m) == {i \in 1..Len(m) : m[i]}
ToSet(s) == {s[i] : i \in 1..Len(s)}
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

(* a training set T of one column.  The pivot of a linear split is a float; *)
(* unless the arithmetic is exact, values next to it may go either way.     *)
LinearOk(c, T) ==
  IF c.exact THEN T = LinearTrain(c.v, c.frac)
  ELSE LET p == Pivot(c.v, c.frac)
           slack == XMul("1/1000000000", XAdd(XAbs(Lowest(c.v)), XAbs(Highest(c.v))))
       IN /\ \A i \in 1..Len(c.v) : XLe(c.v[i], XSub(p, slack)) => i \in T
          /\ \A i \in 1..Len(c.v) : i \in T => XLe(c.v[i], XAdd(p, slack))
          /\ \A i, j \in 1..Len(c.v) : (i \in T /\ XLe(c.v[j], c.v[i])) => j \in T
          /\ \A i \in 1..Len(c.v) : XEq(c.v[i], Lowest(c.v)) => i \in T
          /\ XEq(c.frac, X1) => T = 1..Len(c.v)
ColumnV(c, T) ==
  CASE c.kind = "random" -> Clause(\A i, j \in 1..Len(c.v) : c.v[i] = c.v[j] => (i \in T <=> j \in T), "equal-values-separated")
                            \cup Clause(RandomOk(c.v, c.frac, T), "random-count")
    [] c.kind = "ordered" -> Clause(IF c.exact THEN T = OrderedTrain(c.v, c.frac) ELSE T \in OrderedNear(c.v, c.frac), "ordered-training-set")
    [] OTHER -> Clause(LinearOk(c, T), "linear-training-set")

(*-- one series *)
MaskV(e) ==
  IF e.status # "ok" THEN {"split-raised"}
  ELSE IF Len(e.mask) # Len(e.c.v) \/ ~e.aligned THEN {"mask-not-aligned"}
  ELSE ColumnV(e.c, Picked(e.mask)) \cup Clause(e.hinted = e.mask, "hint-changes-split")

(*-- random subsets of the distinct values: every one equally likely *)
FreqV(e) ==
  LET m == NVals(e.c.v)
      sizes == RandSizes(m, e.c.frac)
      k == CHOOSE x \in sizes : TRUE
      G == kSubset(k, Distinct(e.c.v))
      n == Len(e.sets)
      hits == [g \in G |-> Cardinality({i \in 1..n : ToSet(e.sets[i]) = g})]
      p == XQ(1, Cardinality(G))
      sd == XSqrt(XMul(XI(n), XMul(p, XSub(X1, p))))
  IN Clause(Cardinality(sizes) = 1, "bad-frequency-event")
     \cup Clause(\A i \in 1..n : ToSet(e.sets[i]) \in G, "random-count")
     \cup Clause(\A g \in G : XLe(XAbs(XSub(XI(hits[g]), XMul(p, XI(n)))), XAdd(XMul(XI(6), sd), X1)), "subsets-not-equally-likely")

(*-- frames.  rows, train, test, unused: sequences of [label, cells], cells  *)
(* with a row number; cols: the split columns; sel* are the row numbers     *)
RECURSIVE Picks(_, _)
(* all ways to pick one training set per column *)
Picks(cols, k) == IF k = 0 THEN {<<>>} ELSE {Append(m, T) : m \in Picks(cols, k - 1), T \in Trains(cols[k])}
Single(e) == Len(e.cols) = 1
SplitV(e) ==
  IF e.status # "ok" THEN {"split-raised"}
  ELSE LET n == Len(e.rows)
           tr == ToSet(e.seltrain)
           te == ToSet(e.seltest)
           un == ToSet(e.selunused)
           All == e.seltrain \o e.seltest \o e.selunused
       IN IF ~(Len(All) = n /\ ToSet(All) = 1..n) THEN {"not-a-partition"}
          ELSE Clause(Ascending(e.seltrain) /\ Ascending(e.seltest) /\ Ascending(e.selunused), "rows-reordered")
               \cup Clause(/\ e.shape
                           /\ \A i \in 1..Len(e.train) : e.train[i] = e.rows[e.seltrain[i]]
                           /\ \A i \in 1..Len(e.test) : e.test[i] = e.rows[e.seltest[i]]
                           /\ \A i \in 1..Len(e.unused) : e.unused[i] = e.rows[e.selunused[i]], "rows-modified")
               \cup (IF Single(e) THEN Clause(un = {}, "unused-with-one-column") \cup (IF Prop = "C25" THEN {} ELSE ColumnV(e.cols[1], tr))
                                      \cup Clause(ColumnV(e.cols[1], tr) = {}, "sets-not-as-columns-demand")
                     ELSE Clause(\E m \in Picks(e.cols, Len(e.cols)) : TrainOf(m, n) = tr /\ TestOf(m, n) = te, "sets-not-as-columns-demand"))

(*-- lag frames.  cols, lags: sequences of [f, v]; out: sequence of [f, lag, v] *)
Hits(e, f, k) == {j \in 1..Len(e.out) : e.out[j].f = f /\ e.out[j].lag = "L" \o ToString(k)}
Wanted(e, k) == IF k = 0 \/ e.all THEN {e.cols[i].f : i \in 1..Len(e.cols)} ELSE ToSet(e.features)
LagV(e) ==
  IF e.status # "ok" THEN {"lag-frame-raised"}
  ELSE Clause(e.lastlevel, "lag-not-last-level") \cup Clause(e.sameindex, "rows-changed")
       \cup Clause(Len(e.out) = Len(e.cols) + (e.nlags - 1) * (IF e.all THEN Len(e.cols) ELSE Len(e.features)), "column-count")
       \cup Clause(\A k \in 0..(e.nlags - 1) : \A f \in Wanted(e, k) : Cardinality(Hits(e, f, k)) = 1, "column-missing")
       \cup Clause(\A k \in 0..(e.nlags - 1) : \A c \in ToSet(e.cols) : \A j \in Hits(e, c.f, k) :
                     /\ Len(e.out[j].v) = Len(c.v)
                     /\ \A i \in 1..Len(c.v) : e.out[j].v[i] = Lagged(c.v, k * e.stride, i), "lagged-value")

Verdict(e) ==
  CASE e.op = "mask" -> MaskV(e) [] e.op = "freq" -> FreqV(e) [] e.op = "split" -> SplitV(e) [] e.op = "lag" -> LagV(e)
    [] OTHER -> {"unknown-event"}
Check == Report(l, Verdict(Trace[l]))
=============================================================================
