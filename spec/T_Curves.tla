------------------------------- MODULE T_Curves ------------------------------
(* Recorded calls of mlpaper.perf_curves and the curve helpers of           *)
(* mlpaper.util against Curves (C13 - C15).                                 *)
EXTENDS Curves, TraceBase
All(S) == UNION S
Lim == "1/1000000"
(* weights of 1e-10 next to integers: what is left of them after the       *)
(* subtraction of counts carries a few digits only                          *)
LooseTol == "1/1000"
NearAll(a, b) == Len(a) = Len(b) /\ XNearSeq(a, b, Lim, Lim)
(* a value is a float evaluation of v whose terms have size up to big *)
Scaled(a, v, big) == XNear(a, v, TolRel, XMul(TolRel, big)) \/ XClose(a, v)

(*-- curves *)
RowV(e, r) ==
  LET x == e.xs[r] y == e.ys[r] w == IF e.weighted THEN e.w[r] ELSE Ones(Len(e.y)) IN
  IF Len(x) # Len(e.th) \/ Len(y) # Len(e.th) THEN {"points-per-threshold"}
  ELSE IF OneClass(e.y) THEN
    LET c == OneClassCurve(e.curve, e.y, e.s, w) IN
    Clause(Sorted(x) /\ XNear(x[1], X0, X0, Lim) /\ XNear(LastOf(x), X1, X0, Lim) /\ \A k \in 1..Len(x) : XFin(x[k]) /\ XGe(x[k], X0) /\ XLe(x[k], XAdd(X1, Lim)), "one-class-x")
    \cup Clause(\A k \in 1..Len(y) : XFin(y[k]), "one-class-y-not-finite")
    \cup Clause(e.curve = "prg" \/ NearAll(x, c.x), "one-class-points-x")
    \cup Clause(NearAll(y, c.y), "one-class-points-y")
    \cup Clause(XNear(e.areas[r], OneClassArea(e.curve, e.y), X0, Lim), "one-class-area")
  ELSE LET c == CurveOf(e.curve, e.y, e.s, w)
           same(a, b) == IF e.loose THEN Len(a) = Len(b) /\ XNearSeq(a, b, LooseTol, LooseTol) ELSE XCloseSeq(a, b) IN
    Clause(same(x, c.x), "x-coordinates") \cup Clause(same(y, c.y), "y-coordinates")
    \cup Clause(Sorted(x), "x-unsorted")
    \cup Clause(XClose(e.areas[r], Area([kind |-> c.kind, x |-> x, y |-> y])), "area")
CurveV(e) ==
  IF e.status # "ok" THEN {"curve-raised"}
  ELSE LET rows == IF e.weighted THEN Len(e.w) ELSE 1 IN
    Clause(e.kind = (IF e.curve = "roc" THEN "linear" ELSE "previous"), "curve-kind")
    \cup Clause(LET t == Thresholds(e.s) IN Len(t) = Len(e.th) /\ \A k \in 1..Len(t) : XEq(t[k], e.th[k]), "thresholds")
    \cup (IF Len(e.xs) # rows \/ Len(e.ys) # rows \/ Len(e.areas) # rows THEN {"one-curve-per-weight-row"}
          ELSE All({RowV(e, r) : r \in 1..rows}))
(* bootstrap of a one-class curve: estimate at the limit, no nan *)
BootOneV(e) ==
  IF e.status # "ok" THEN {"one-class-bootstrap-raised"}
  ELSE Clause(XNear(e.mu, OneClassArea(e.curve, e.y), X0, Lim), "one-class-area")
       \cup Clause(XGe(e.eb, X0) /\ XLe(e.eb, Lim), "one-class-error-bar")
       \cup Clause(XGe(e.p, X0) /\ XLe(e.p, X1), "one-class-p")
       \cup Clause(\A k \in 1..Len(e.band) : XFin(e.band[k]), "one-class-envelope")

(*-- areas *)
Big(x) == LET a == XSort([k \in 1..Len(x) |-> IF XFin(x[k]) THEN XAbs(x[k]) ELSE X0]) IN LastOf(a)
AreaV(e) ==
  IF e.status # "ok" THEN {"area-raised"}
  ELSE Clause(Len(e.out) = Len(e.xs), "area-per-row")
       \cup (IF Len(e.out) # Len(e.xs) THEN {} ELSE
             Clause(\A r \in 1..Len(e.xs) : LET c == [kind |-> e.kind, x |-> e.xs[r], y |-> e.ys[r]] IN
                    Scaled(e.out[r], Area(c), XMul(Big(c.y), XSub(LastOf(c.x), c.x[1]))), "area-" \o e.kind))

(*-- interpolation; every row of xs, ys on the same grid *)
InterpV(e) ==
  IF e.status # "ok" THEN {"interpolation-raised"}
  ELSE IF Len(e.out) # Len(e.xs) THEN {"interpolation-rows"}
  ELSE All({ IF Len(e.out[r]) # Len(e.grid) THEN {"interpolation-length"}
             ELSE LET c == [kind |-> e.kind, x |-> e.xs[r], y |-> e.ys[r]] IN
               Clause(\A k \in 1..Len(e.grid) : Scaled(e.out[r][k], At(c, e.grid[k]), IF e.kind = "linear" THEN Big(c.y) ELSE X0), "interpolation-" \o e.kind)
             : r \in 1..Len(e.xs)})

Dups(x) == \E i, j \in 1..Len(x) : i # j /\ XEq(x[i], x[j])
StepV(e) ==
  IF (Dups(e.x) /\ ~e.skip) \/ (~e.hasival /\ \E k \in 1..Len(e.grid) : LatestAt(e.x, e.grid[k]) = 0)
  THEN Clause(e.status = "exc", "ill-defined-step-function-accepted")
  ELSE IF e.status # "ok" THEN {"step-raised"}
  ELSE Clause(Len(e.out) = Len(e.grid) /\ \A k \in 1..Len(e.grid) : XEq(e.out[k], StepFrom(e.x, e.y, e.ival, e.grid[k])), "step-value")

UniqV(e) ==
  IF ~Sorted(e.x) THEN Clause(e.status = "exc", "unsorted-accepted")
  ELSE IF e.status # "ok" THEN {"unique-raised"}
  ELSE LET L == Lasts(e.x) IN
       Clause(Len(e.ox) = Len(L) /\ \A k \in 1..Len(L) : XEq(e.ox[k], e.x[L[k]]), "unique-x")
       \cup Clause(~e.hasy \/ (Len(e.oy) = Len(L) /\ \A k \in 1..Len(L) : XEq(e.oy[k], e.y[L[k]])), "unique-y")
CummaxV(e) ==
  IF e.status # "ok" THEN {"cummax-raised"}
  ELSE Clause(Len(e.out) = Len(e.x), "cummax-length")
       \cup (IF Len(e.out) # Len(e.x) THEN {} ELSE
             Clause(Strict(e.out), "cummax-not-strict")
             \cup Clause(\A k \in 1..Len(e.x) : XGe(e.out[k], e.x[k]), "cummax-lowered")
             \cup Clause(Minimal(e.x, e.out), "cummax-not-minimal"))

Verdict(e) ==
  CASE e.op = "curve" -> CurveV(e) [] e.op = "bootone" -> BootOneV(e) [] e.op = "area" -> AreaV(e)
    [] e.op = "interp" -> InterpV(e) [] e.op = "step" -> StepV(e) [] e.op = "uniq" -> UniqV(e)
    [] e.op = "cummax" -> CummaxV(e) [] OTHER -> {"unknown-event"}
Check == Report(l, Verdict(Trace[l]))
=============================================================================
