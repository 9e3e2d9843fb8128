------------------------------- MODULE T_Losses ------------------------------
(* Recorded calls of the loss functions, loss tables and prediction helpers *)
(* against Losses (C18 - C21, C29).                                         *)
EXTENDS Losses, TraceBase
All(S) == UNION S
TieTol == "1/1000000000000"   \* expected losses this close may be rounded to a tie
Rel(a, b) == XNear(a, b, TolRel, XPow10(-300))
MaxAbsOf(x) == LET s == XSort([k \in 1..Len(x) |-> IF XFin(x[k]) THEN XAbs(x[k]) ELSE X0]) IN s[Len(s)]

(*-- one classification metric on one row (lp normalized by the caller) *)
LossOk(name, lp, y, v, rescale) ==
  CASE name = "log" -> XClose(v, LogLoss(lp, y))
    [] name = "brier" -> XClose(v, BrierLoss(Exps(lp), y, rescale))
    [] name = "sphere" -> XClose(v, SphereLoss(Exps(lp), y, rescale))
    [] name = "first" -> XClose(v, lp[1])                       \* harness metrics that expose
    [] name = "label" -> XEq(v, XI(y))                          \* what the table passed them
    [] name = "hard" -> \E a \in Optimal(Exps(lp), ZeroOne(Len(lp)), XMul(XI(10), TieTol)) : XEq(v, ZeroOne(Len(lp))[y + 1][a + 1])
    [] OTHER -> FALSE
ClassV(e) ==
  IF e.status # "ok" THEN {"loss-raised"}
  ELSE IF Len(e.out) # Len(e.y) THEN {"loss-shape"}
  ELSE Clause(\A i \in 1..Len(e.y) : LossOk(e.metric, e.lp[i], e.y[i], e.out[i], e.rescale), e.metric \o "-loss")

(*-- decisions *)
MatScale(m) == MaxAbsOf([k \in 1..Len(m) |-> MaxAbsOf(m[k])])
HardV(e) ==
  IF e.status # "ok" THEN {"hard-loss-raised"}
  ELSE LET n == Len(e.lp[1])
           mat == TLCEval(IF e.hasmat THEN e.mat ELSE ZeroOne(n))
           slack == XMul(XI(Len(mat)), XMul(TieTol, MatScale(mat)))
           opt(i) == Optimal(Exps(e.lp[i]), mat, slack)
       IN Clause(~e.decided \/ (Len(e.action) = Len(e.y) /\ \A i \in 1..Len(e.y) : e.action[i] \in opt(i)), "decision-not-optimal")
          \cup Clause(Len(e.out) = Len(e.y) /\ \A i \in 1..Len(e.y) : \E a \in opt(i) : XClose(e.out[i], mat[e.y[i] + 1][a + 1]), "decision-loss")

(*-- regression *)
BadRegr(e) == \/ Len(e.y) = 0 \/ Len(e.mu) # Len(e.y) \/ Len(e.sd) # Len(e.y)
              \/ \E i \in 1..Len(e.y) : ~XFin(e.y[i])
              \/ \E i \in 1..Len(e.mu) : ~XFin(e.mu[i])
              \/ \E i \in 1..Len(e.sd) : ~XFin(e.sd[i]) \/ XLe(e.sd[i], X0)
RegrOk(name, y, mu, sd, v) ==
  CASE name = "square" -> Rel(v, SqLoss(y, mu))
    [] name = "abs" -> Rel(v, AbsLoss(y, mu))
    [] name = "log" -> XNear(v, GaussNll(y, mu, sd), TolRel, XMul(TolRel, XAdd(X1, XAbs(XLn(sd)))))
    [] name = "mu" -> XEq(v, mu) [] name = "sd" -> XEq(v, sd) [] name = "y" -> XEq(v, y)
    [] OTHER -> FALSE
RegrV(e) ==
  IF BadRegr(e) THEN Clause(e.status = "exc", "invalid-prediction-accepted")
  ELSE IF e.status # "ok" THEN {"loss-raised"}
  ELSE Clause(Len(e.out) = Len(e.y) /\ \A i \in 1..Len(e.y) : RegrOk(e.metric, e.y[i], e.mu[i], e.sd[i], e.out[i]), e.metric \o "-loss")

(*-- loss tables: cells = [metric, method, out]; pred = [method, rows] *)
RowsOf(e, m) == e.pred[CHOOSE k \in 1..Len(e.pred) : e.pred[k].method = m].rows
HasNan(e) == \E k \in 1..Len(e.pred) : \E i \in 1..Len(e.pred[k].rows) : \E j \in 1..Len(e.pred[k].rows[i]) : XIsNan(e.pred[k].rows[i][j])
CTableV(e) ==
  IF HasNan(e) THEN Clause(e.status = "exc", "nan-prediction-accepted")
  ELSE IF e.status # "ok" THEN Clause(e.may_raise, "loss-table-raised")
  ELSE IF ~e.labels THEN {"loss-table-labels"}
  ELSE All({ LET c == e.cells[k]
                 rows == RowsOf(e, c.method)
                 used == TLCEval([i \in 1..Len(rows) |-> IF e.normalized THEN rows[i] ELSE Normalized(rows[i])])
             IN Clause(\A i \in 1..Len(rows) : LossOk(c.metric, used[i], e.y[i], c.out[i], TRUE), "table-" \o c.metric)
             : k \in 1..Len(e.cells)})
RTableV(e) ==
  IF HasNan(e) THEN Clause(e.status = "exc", "nan-prediction-accepted")
  ELSE IF e.status # "ok" THEN {"loss-table-raised"}
  ELSE IF ~e.labels THEN {"loss-table-labels"}
  ELSE All({ LET c == e.cells[k] rows == RowsOf(e, c.method) IN
             Clause(\A i \in 1..Len(rows) : RegrOk(c.metric, e.y[i], rows[i][1], rows[i][2], c.out[i]), "table-" \o c.metric)
             : k \in 1..Len(e.cells)})
(* the same table with a constant added to each row of log probabilities *)
ShiftV(e) == IF e.status # "ok" THEN {"loss-table-raised"}
             ELSE Clause(Len(e.a) = Len(e.b) /\ XNearSeq(e.a, e.b, "1/100000000", "1/10000000000"), "losses-depend-on-normalization")

(*-- helpers *)
NormTol(row) == XAdd(TolRel, XMul(XPow10(-14), MaxAbsOf(row)))
NormV(e) ==
  IF e.status # "ok" THEN {"normalize-raised"}
  ELSE IF Len(e.out) # Len(e.rows) THEN {"normalize-shape"}
  ELSE All({ LET a == e.rows[i] b == e.out[i] t == NormTol(a) IN
             IF Len(a) # Len(b) THEN {"normalize-shape"} ELSE
             Clause(XNear(XSum(Exps(b)), X1, X0, XMul(XI(4), t)), "not-normalized")
             \cup Clause(\A j, k \in 1..Len(a) : (XFin(a[j]) /\ XFin(a[k])) => XNear(XSub(b[j], b[k]), XSub(a[j], a[k]), X0, t), "differences-changed")
             \cup Clause(\A k \in 1..Len(a) : XFin(a[k]) <=> XFin(b[k]), "support-changed")
             : i \in 1..Len(e.rows)})
OneHotV(e) ==
  IF e.status # "ok" THEN {"one-hot-raised"}
  ELSE Clause(Len(e.out) = Len(e.y) /\ \A i \in 1..Len(e.y) : Len(e.out[i]) = e.n /\ \A k \in 1..e.n : e.out[i][k] = (k = e.y[i] + 1), "one-hot")
NoiseV(e) ==
  IF e.status # "ok" THEN {"noise-raised"}
  ELSE IF Len(e.out) # Len(e.x) THEN {"noise-shape"}
  ELSE LET d == NoiseScale(e.x, e.dflt, e.mx)
           half == XAdd(XDiv(d, X2), XMul(XPow10(-15), MaxAbsOf(e.x)))
           n == Len(e.x)
       IN Clause(\A i \in 1..n : XLe(XAbs(XSub(e.out[i], e.x[i])), half), "noise-too-large")
          \cup Clause(\A i, j \in 1..n : XLt(e.x[i], e.x[j]) => XLe(e.out[i], e.out[j]), "noise-reorders")
          \cup Clause(XLt(d, XMul(XQ(1, 10000), MaxAbsOf(e.x))) \/ \A i, j \in 1..n : i # j => ~XEq(e.out[i], e.out[j]), "ties-left")

Verdict(e) ==
  CASE e.op = "class" -> ClassV(e) [] e.op = "hard" -> HardV(e) [] e.op = "regr" -> RegrV(e)
    [] e.op = "ctable" -> CTableV(e) [] e.op = "rtable" -> RTableV(e) [] e.op = "shift" -> ShiftV(e)
    [] e.op = "norm" -> NormV(e) [] e.op = "onehot" -> OneHotV(e) [] e.op = "noise" -> NoiseV(e)
    [] OTHER -> {"unknown-event"}
Check == Report(l, Verdict(Trace[l]))
=============================================================================
