----------------------------- MODULE MC_Sciprint -----------------------------
(* Exhaustive small-scope check of the display rules: every estimate and    *)
(* error bar of a grid of binary floats, all digit settings and limits.     *)
(* Writes the grid as cases for replay into the implementation.             *)
EXTENDS Sciprint, TLC, Json, IOUtils, SequencesExt
CONSTANT Deep           \* BOOLEAN: the larger grid
(* numerators of the grid *)
Mus == IF Deep THEN {-995, -163, -16, -5, -1, 0, 1, 3, 7, 10, 15, 17, 64, 99, 100, 159, 160, 995, 999, 16000}
       ELSE {-163, -5, 0, 7, 99, 995, 16000}
EBs == IF Deep THEN {0, 1, 2, 3, 9, 10, 15, 16, 17, 99, 101, 159, 160, 161, 995, 1600, 10000}
       ELSE {0, 1, 15, 99, 160, 995}
Digs == 1..3
Limits == {NoLimit, -1, 0, 1}
Den == {1, 16, 1024}
MuSet == {XQ(i, d) : i \in Mus, d \in Den} \cup {XQ(i * 1000 - 1, 8) : i \in Mus}
EBSet == {XQ(i, d) : i \in EBs, d \in Den} \cup {"inf", "nan"}
PSet == {XQ(i, 16384) : i \in {0, 1, 2, 3, 819, 8192, 16383, 16384}} \cup {"nan"}
VARIABLE c
Init == c \in [st : {0}, eb : EBSet, ed : Digs]
Next == /\ c.st = 0
        /\ \E mu \in MuSet, lim \in Limits, dd \in Digs :
             c' = [st |-> 1, eb |-> c.eb, ed |-> c.ed, mu |-> mu, lim |-> lim, dd |-> dd]
EBD == RoundError(c.eb, c.ed, c.lim)
MUD == RoundMean(c.mu, EBD, c.dd)
(* never understated, by less than one unit, at most the requested digits *)
HonestError == c.st = 1 /\ XFin(c.eb) =>
  IF EBD.k = "fin"
  THEN /\ XLe(c.eb, EBD.v) /\ (XEq(c.eb, EBD.v) \/ XLt(XSub(EBD.v, c.eb), XPow10(EBD.e)))
       /\ (NumDigits(EBD.v, EBD.e) <= c.ed)
       /\ (c.lim = NoLimit \/ XLe(EBD.v, XPow10(c.lim)))
  ELSE c.lim # NoLimit /\ XGt(RoundSig(c.eb, c.ed, "up").v, XPow10(c.lim))
HonestMean == c.st = 1 =>
  /\ XLe(XMul(X2, XAbs(XSub(MUD.v, c.mu))), XPow10(MUD.e))
  /\ (EBD.k = "fin" /\ ~XEq(EBD.v, X0)) => MUD.e = EBD.e
(* the displayed text decodes to the rounded value, for every legal shift *)
Decode(s) == XParse(IF Pos(s, "(") > 0 THEN SubSeq(s, 1, Pos(s, "(") - 1) ELSE s)
DecodeErr(s) == XParse(SubSeq(s, Pos(s, "(") + 1, Len(s) - 1))
TextDecodes == c.st = 1 =>
  \A sh \in {s \in -4..4 : MUD.e + s <= 0} :
    LET s == Estimate(MUD, EBD, sh, NoLimit, NoLimit, <<>>) IN
    /\ XEq(Decode(s), Scaled(MUD.v, sh))
    /\ (EBD.k = "fin") => XEq(XMul(DecodeErr(s), XPow10(EBD.e)), EBD.v)
    /\ (EBD.k # "fin") => Pos(s, "(") = 0
    /\ Pos(s, "E") = 0
ClipText == c.st = 1 =>
  \A k \in {-1, 0, 1} :
    LET s == Estimate(MUD, EBD, 0, k, k, <<>>) IN
    IF XGt(MUD.v, XPow10(k)) THEN s = ">" \o Plain(XPow10(k), k, FALSE)
    ELSE IF XLt(MUD.v, XNeg(XPow10(k))) THEN s = "<-" \o Plain(XPow10(k), k, FALSE)
    ELSE MUD.e > 0 \/ XEq(Decode(s), MUD.v)
(* shift of a two-row column: constraints of the documentation *)
ShiftOk == c.st = 1 /\ c.ed = 2 /\ c.dd = 2 /\ ~XEq(c.mu, X0) =>
  \A m \in {1, 2, 3} :
    LET cs == <<[mean |-> MUD, error |-> EBD], [mean |-> DFin(XQ(-124937, 1000), -3, TRUE), error |-> DInf(FALSE)]>>
        S == BestShifts(cs, m)
        legal(s) == s % m = 0 /\ \A i \in 1..2 : cs[i].mean.e + s <= 0
        big(s) == \E i \in 1..2 : XGe(XAbs(Scaled(cs[i].mean.v, s)), X1)
    IN /\ S # {} /\ Cardinality(S) <= 2
       /\ \A s \in S : /\ legal(s)
                       /\ (\E t \in -12..12 : legal(t) /\ big(t)) => big(s)
                       /\ (\A t \in -12..12 : legal(t) /\ big(t) /\ big(s) =>
                             LET w(u) == SetMax({Width(cs[i], u) : i \in 1..2}) IN
                             w(s) < w(t) \/ (w(s) = w(t) /\ AbsInt(s) <= AbsInt(t)))
PHonest == \A p \in PSet, d \in 1..5 :
  LET q == RoundP(p, d) s == PText(q, <<>>) IN
  IF p = "nan" THEN s = "nan"
  ELSE /\ XLe(p, q.v) /\ XLt(XSub(q.v, p), XPow10(-d))
       /\ IF Ch(s, 1) = "<" THEN XLe(p, XParse(SubSeq(s, 2, Len(s)))) /\ XEq(XParse(SubSeq(s, 2, Len(s))), XPow10(-d))
          ELSE XEq(XParse(s), q.v)
ASSUME PHonest
Cases == [mu : MuSet, eb : EBSet]
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(Cases))
=============================================================================
