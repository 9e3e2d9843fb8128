----------------------------- MODULE T_Sciprint -----------------------------
(* Recorded calls of mlpaper.sciprint against Sciprint.tla (C01 - C06).     *)
EXTENDS Sciprint, TraceBase
P(ids) == Prop \in ids
All(S) == UNION S

(*-- decimalize *)
DecimalizeV(e) ==
  IF e.status # "ok" THEN {"rounding-raised"}
  ELSE Clause(e.labels, "cells-or-labels-lost") \cup
    All({ LET col == e.cols[j]
              opt == [err_digits |-> e.err_digits, pval_digits |-> e.pval_digits,
                      default_digits |-> e.default_digits, limit |-> col.limit]
          IN All({ LET x == RoundCell(col.rows[i].in, opt) y == col.rows[i].out IN
                   Clause(DSame(x.error, y.error), "error-bar-rounding")
                   \cup Clause(DSame(x.mean, y.mean), "estimate-rounding")
                   \cup Clause(DSame(x.p, y.p), "p-value-rounding")
                 : i \in 1..Len(col.rows)})
        : j \in 1..Len(e.cols)})

(*-- print_estimate, print_pval, find_shift, pad_num_str called directly *)
EstimateV(e) ==
  LET x == Estimate(e.mu, e.eb, e.shift, e.lo, e.hi, e.subst) IN
  IF x = TooFar THEN Clause(e.status = "exc", "imprecise-estimate-displayed")
  ELSE IF e.status # "ok" THEN {"estimate-raised"} ELSE Clause(e.out = x, "estimate-text")
PvalV(e) ==
  IF e.status # "ok" THEN {"p-text-raised"} ELSE Clause(e.out = PText(e.p, e.subst), "p-text")
ShiftV(e) ==
  IF e.status # "ok" THEN {"shift-raised"} ELSE Clause(e.out \in BestShifts(e.cells, e.m), "shift-not-optimal")
PadV(e) ==
  IF e.status # "ok" THEN {"pad-raised"} ELSE Clause(e.out = Padded(e.ss, e.pad), "padding")

(*-- format_table *)
ColV(e, c) ==
  LET n == Len(c.cells)
      raw == [i \in 1..n |-> Estimate(c.cells[i].mean, c.cells[i].error, c.shift, c.lo, c.hi, e.subst)]
  IN (IF P({"C02"}) THEN Clause(\A i \in 1..n : RStrip(c.est[i], " ") = raw[i], "estimate-text") ELSE {})
     \cup (IF P({"C03"}) THEN Clause(\A i \in 1..n : c.ptxt[i] = PText(c.cells[i].p, e.subst), "p-text") ELSE {})
     \cup (IF P({"C04"}) THEN Clause(c.shift \in ColumnShifts(c.cells, e.m, c.lo, c.hi), "shift-not-optimal") ELSE {})
     \cup (IF P({"C06"}) THEN Clause(c.est = (IF e.pad THEN Padded([i \in 1..n |-> RStrip(c.est[i], " ")], " ")
                                              ELSE [i \in 1..n |-> RStrip(c.est[i], " ")]), "padding") ELSE {})
Impossible(e) == e.m = 0 /\ \E j \in 1..Len(e.cols) : LET c == e.cols[j] IN
                   \E i \in 1..Len(c.cells) : /\ Clipped(c.cells[i].mean, c.lo, c.hi) = "no"
                                              /\ c.cells[i].mean.e > 0
FormatV(e) ==
  IF Impossible(e) THEN Clause(e.status = "exc", "imprecise-estimate-displayed")
  ELSE IF e.status # "ok" THEN {"format-raised"}
  ELSE Clause(e.labels, "cells-or-labels-lost") \cup All({ColV(e, e.cols[j]) : j \in 1..Len(e.cols)})

(*-- adjust_headers *)
HeadersV(e) ==
  IF e.status # "ok" THEN {"headers-raised"}
  ELSE Clause(e.out = [i \in 1..Len(e.hs) |->
                 Header(e.hs[i].metric, e.hs[i].stat, e.hs[i].shift, e.hs[i].unit, e.use_prefix, e.tex)], "header")

(*-- exported text.  e.cols: one record per metric in display order, with   *)
(*-- the cell strings and the shift; e.header, e.body: observed lines.      *)
HdrCells(e, sh) == [k \in 1..(2 * Len(e.cols)) |->
    LET j == (k + 1) \div 2 c == e.cols[j] IN
    Header(c.name, IF k % 2 = 1 THEN "estimate" ELSE "p", sh[j], c.unit, e.use_prefix, e.tex)]
Line(e, cells) == IF e.tex THEN TexLine(cells) ELSE TextLine(cells)
ExportOk(e, sh, est, ptx) ==
  /\ e.header = (IF e.tex THEN "& " ELSE "") \o Line(e, HdrCells(e, sh))
  /\ Len(e.body) = Len(e.methods)
  /\ \A i \in 1..Len(e.methods) :
       e.body[i] = Line(e, <<e.methods[i]>> \o [k \in 1..(2 * Len(e.cols)) |->
                      LET j == (k + 1) \div 2 IN IF k % 2 = 1 THEN est[j][i] ELSE ptx[j][i]])
ExportV(e) ==
  IF e.status # "ok" THEN {"export-raised"}
  ELSE Clause(ExportOk(e, [j \in 1..Len(e.cols) |-> e.cols[j].shift],
                       [j \in 1..Len(e.cols) |-> [i \in 1..Len(e.methods) |-> RStrip(e.cols[j].est[i], " ")]],
                       [j \in 1..Len(e.cols) |-> e.cols[j].ptxt]), "exported-text")
       \cup Clause(~e.tex \/ e.align = "|l" \o Rep("|Sr", Len(e.cols)) \o "|", "latex-column-format")

(*-- just_format_it: floats to text in one call.  Columns as displayed.     *)
(*-- e.cols[j].shift is a witness for the shift the text was made with.     *)
JustV(e) ==
  LET n == Len(e.cols)
      k == Len(e.methods)
      cells == [j \in 1..n |-> [i \in 1..k |->
                  RoundCell(e.cols[j].rows[i], [err_digits |-> 2, pval_digits |-> 4, default_digits |-> 5, limit |-> e.cols[j].limit])]]
      sh == [j \in 1..n |-> e.cols[j].shift]
      est == [j \in 1..n |-> [i \in 1..k |->
                  Estimate(cells[j][i].mean, cells[j][i].error, sh[j], e.cols[j].lo, e.cols[j].hi, e.subst)]]
      ptx == [j \in 1..n |-> [i \in 1..k |-> PText(cells[j][i].p, e.subst)]]
      far == e.m = 0 /\ \E j \in 1..n, i \in 1..k : est[j][i] = TooFar
  IN IF far THEN Clause(e.status = "exc", "imprecise-estimate-displayed")
     ELSE IF e.status # "ok" THEN {"export-raised"}
     ELSE Clause(\A j \in 1..n : sh[j] \in ColumnShifts(cells[j], e.m, e.cols[j].lo, e.cols[j].hi), "shift-not-optimal")
          \cup Clause(\A j \in 1..n, i \in 1..k : est[j][i] # TooFar, "imprecise-estimate-displayed")
          \cup Clause(ExportOk(e, sh, est, ptx), "exported-text")

Verdict(e) ==
  CASE e.op = "decimalize" -> DecimalizeV(e)
    [] e.op = "estimate" -> EstimateV(e)
    [] e.op = "pval" -> PvalV(e)
    [] e.op = "shift" -> ShiftV(e)
    [] e.op = "pad" -> PadV(e)
    [] e.op = "format" -> FormatV(e)
    [] e.op = "headers" -> HeadersV(e)
    [] e.op = "export" -> ExportV(e)
    [] e.op = "just" -> JustV(e)
    [] OTHER -> {"unknown-event"}
Check == Report(l, Verdict(Trace[l]))
=============================================================================
