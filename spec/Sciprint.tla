------------------------------ MODULE Sciprint ------------------------------
(* Publication rounding and display of result tables.                       *)
(*                                                                          *)
(* A decimal is a record [k, v, e, neg]: kind "fin", "inf" or "nan", exact  *)
(* value, exponent of the last digit, and sign (also of zero).              *)
EXTENDS XReal, Text, FiniteSets

DFin(v, e, neg) == [k |-> "fin", v |-> v, e |-> e, neg |-> neg]
DInf(neg) == [k |-> "inf", v |-> IF neg THEN "-inf" ELSE "inf", e |-> 0, neg |-> neg]
DNan == [k |-> "nan", v |-> "nan", e |-> 0, neg |-> FALSE]
DSame(a, b) == /\ a.k = b.k
               /\ a.k = "fin" => XEq(a.v, b.v) /\ a.e = b.e /\ a.neg = b.neg
               /\ a.k = "inf" => a.neg = b.neg
IsNeg(x) == XLt(x, X0)
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
AbsInt(n) == IF n < 0 THEN -n ELSE n

(*--------------------------------- rounding -------------------------------*)
RoundTo(x, e, mode) ==
  LET y == XDiv(x, XPow10(e)) IN
  XMul(IF mode = "up" THEN XCeil(y) ELSE XHalfUp(y), XPow10(e))
(* The exact decimal expansion of a binary float n/2^k has exponent -k. *)
Exact(x) == DFin(x, -XLog2Den(x), IsNeg(x))
NumDigits(v, e) == IF XEq(v, X0) THEN 1 ELSE XAdj(v) - e + 1
(* x to at most p significant digits *)
RoundSig(x, p, mode) ==
  IF XIsNan(x) THEN DNan
  ELSE IF ~XFin(x) THEN DInf(IsNeg(x))
  ELSE LET d == Exact(x) IN
       IF NumDigits(x, d.e) <= p THEN d
       ELSE LET q == XAdj(x) - p + 1
                y == RoundTo(x, q, mode)
            IN DFin(y, IF XAdj(y) > XAdj(x) THEN q + 1 ELSE q, IsNeg(x))
Quantize(x, e, mode) ==
  IF XIsNan(x) THEN DNan ELSE DFin(RoundTo(x, e, mode), e, IsNeg(x))

NoLimit == 1000000
(* lim: log10 of the largest error bar still shown, or NoLimit *)
RoundError(eb, digits, lim) ==
  LET d == RoundSig(eb, digits, "up") IN
  IF d.k = "fin" /\ lim # NoLimit /\ XGt(d.v, XPow10(lim)) THEN DInf(FALSE) ELSE d
RoundMean(mu, ebd, default) ==
  IF ebd.k = "fin" /\ ~XEq(ebd.v, X0) THEN Quantize(mu, ebd.e, "half")
  ELSE RoundSig(mu, default, "half")
RoundP(p, digits) == Quantize(p, -digits, "up")
RoundCell(c, opt) ==
  LET ebd == RoundError(c.error, opt.err_digits, opt.limit) IN
  [mean |-> RoundMean(c.mean, ebd, opt.default_digits), error |-> ebd, p |-> RoundP(c.p, opt.pval_digits)]

(*---------------------------------- display -------------------------------*)
(* digits of |v| in units of 10^e *)
Digits(v, e) == XStr(XMul(XAbs(v), XPow10(-e)))
(* positional notation with thousands separators *)
Plain(v, e, neg) ==
  LET e0 == Min2(e, 0)
      ds == Digits(v, e0)
      pd == Rep("0", -e0 + 1 - Len(ds)) \o ds
      ip == SubSeq(pd, 1, Len(pd) + e0)
      fp == SubSeq(pd, Len(pd) + e0 + 1, Len(pd))
  IN (IF neg THEN "-" ELSE "") \o Commas(ip) \o (IF e0 < 0 THEN "." \o fp ELSE "")
(* subst: sequence of <<key, text>> replacing "nan", "inf", "-inf" *)
Subst(key, subst) ==
  IF \E i \in 1..Len(subst) : subst[i][1] = key
  THEN subst[CHOOSE i \in 1..Len(subst) : subst[i][1] = key][2] ELSE key
Clipped(mu, lo, hi) ==
  IF mu.k = "nan" THEN "no"
  ELSE IF hi # NoLimit /\ XGt(mu.v, XPow10(hi)) THEN "above"
  ELSE IF lo # NoLimit /\ XLt(mu.v, XNeg(XPow10(lo))) THEN "below" ELSE "no"
Scaled(x, shift) == XMul(x, XPow10(shift))
TooFar == "@too-far"   \* the shift would hide significant places
Estimate(mu, eb, shift, lo, hi, subst) ==
  LET c == Clipped(mu, lo, hi) IN
  IF c = "above" THEN ">" \o Plain(XPow10(hi + shift), hi + shift, FALSE)
  ELSE IF c = "below" THEN "<" \o Plain(XPow10(lo + shift), lo + shift, TRUE)
  ELSE IF mu.k # "fin" THEN Subst(mu.v, subst)
  ELSE IF mu.e + shift > 0 THEN TooFar
  ELSE Plain(Scaled(mu.v, shift), mu.e + shift, mu.neg)
       \o (IF eb.k = "fin" THEN "(" \o Digits(eb.v, eb.e) \o ")" ELSE "")
PText(p, subst) ==
  IF p.k = "nan" THEN Subst("nan", subst)
  ELSE IF XLe(p.v, XPow10(p.e)) THEN "<" \o Plain(XPow10(p.e), p.e, FALSE)
  ELSE Plain(p.v, p.e, FALSE)

(*----------------------------------- shift --------------------------------*)
(* width of a displayed cell, separators not counted *)
Width(c, shift) ==
  (IF c.mean.neg THEN 1 ELSE 0)
  + Max2(Len(Digits(c.mean.v, c.mean.e)), -(c.mean.e + shift) + 1)
  + (IF c.error.k = "fin" THEN 2 + Len(Digits(c.error.v, c.error.e)) ELSE 0)
MaxShift(cs) == SetMin({-cs[i].mean.e : i \in 1..Len(cs)})
Lead(c) == IF XEq(c.mean.v, X0) THEN c.mean.e ELSE XAdj(c.mean.v)
FloorMod(n, m) == n - (n % m)
(* The allowed results for a column of unclipped cells cs.  zeros: whether a *)
(* zero estimate counts as one unit in its last place for the ">= 1" rule    *)
(* (the documentation leaves it open).                                       *)
BestShiftsZ(cs, m, zeros) ==
  LET big == {i \in 1..Len(cs) : zeros \/ ~XEq(cs[i].mean.v, X0)}
      hi  == MaxShift(cs)
      lo  == SetMin({-Lead(cs[i]) : i \in big})
      ok  == {s \in lo..hi : s % m = 0}
      w(s) == SetMax({Width(cs[i], s) : i \in 1..Len(cs)})
  IN IF ok = {} THEN {FloorMod(hi, m)}
     ELSE LET wm == [s \in ok |-> w(s)]
              best == {s \in ok : \A t \in ok : wm[s] <= wm[t]}
              mag == SetMin({AbsInt(s) : s \in best})
          IN {s \in best : AbsInt(s) = mag}
BestShifts(cs, m) ==
  IF Len(cs) = 0 THEN {0}
  ELSE BestShiftsZ(cs, m, TRUE)
       \cup (IF \E i \in 1..Len(cs) : XEq(cs[i].mean.v, X0)
             THEN (IF \A i \in 1..Len(cs) : XEq(cs[i].mean.v, X0)
                   THEN {s \in -60..MaxShift(cs) : s % m = 0}
                   ELSE BestShiftsZ(cs, m, FALSE))
             ELSE {})
Unclipped(cs, lo, hi) == SelectSeq(cs, LAMBDA c : Clipped(c.mean, lo, hi) = "no")
(* m = 0: shifting disabled *)
ColumnShifts(cs, m, lo, hi) == IF m = 0 THEN {0} ELSE BestShifts(Unclipped(cs, lo, hi), m)

(*---------------------------------- padding -------------------------------*)
(* index of the last character before the decimal point, parenthesis or end *)
Anchor(s) == LET d == Pos(s, ".") b == Pos(s, "(") IN
             IF d > 0 THEN d - 1 ELSE IF b > 0 THEN b - 1 ELSE Len(s)
Padded(ss, pad) ==
  LET right == [i \in 1..Len(ss) |-> Len(ss[i]) - Anchor(ss[i])]
      m == SetMax({right[i] : i \in 1..Len(ss)})
  IN [i \in 1..Len(ss) |-> ss[i] \o Rep(pad, m - right[i])]

(*------------------------------ headers and text --------------------------*)
(* SI prefix of 10^k, "none" if there is none to use *)
Prefix(k, tex) ==
  CASE k = -24 -> "y" [] k = -21 -> "z" [] k = -18 -> "a" [] k = -15 -> "f" [] k = -12 -> "p"
    [] k = -9 -> "n" [] k = -6 -> (IF tex THEN "$\\mu$" ELSE "u") [] k = -3 -> "m" [] k = -2 -> "c"
    [] k = -1 -> "d" [] k = 0 -> "" [] k = 3 -> "k" [] k = 6 -> "M" [] k = 9 -> "G" [] k = 12 -> "T"
    [] k = 15 -> "P" [] k = 18 -> "E" [] k = 21 -> "Z" [] k = 24 -> "Y" [] OTHER -> "none"
IntStr(n) == XStr(XI(n))
NoUnit == "@none"
Header(metric, stat, shift, unit, use_prefix, tex) ==
  LET m == Replace(metric, "_", " ")
      factor == m \o (IF tex THEN " $\\times 10^{" \o IntStr(shift) \o "}$" ELSE " x 1e" \o IntStr(shift))
      pre == Prefix(-shift, tex)
      h == IF stat = "p" THEN "p"
           ELSE IF unit = NoUnit THEN (IF shift # 0 THEN factor ELSE m)
           ELSE IF use_prefix /\ pre # "none" THEN m \o " (" \o pre \o unit \o ")"
           ELSE IF shift # 0 THEN factor \o " (" \o unit \o ")"
           ELSE m \o " (" \o unit \o ")"
  IN IF tex THEN "{" \o h \o "}" ELSE h
(* One line of exported text, with runs of blanks collapsed *)
TextLine(cells) == Join(cells, " ")
TexLine(cells) == Join(cells, " & ") \o " \\\\"
=============================================================================
