-------------------------------- MODULE Text --------------------------------
(* Strings as TLC sees them: Len, SubSeq and \o work on them.               *)
EXTENDS Integers, Sequences
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n - 1)
RECURSIVE Commas(_)
(* thousands separators *)
Commas(s) == IF Len(s) <= 3 THEN s
             ELSE Commas(SubSeq(s, 1, Len(s) - 3)) \o "," \o SubSeq(s, Len(s) - 2, Len(s))
RECURSIVE Replace(_, _, _)
Replace(s, a, b) == IF Len(s) = 0 THEN ""
                    ELSE (IF Ch(s, 1) = a THEN b ELSE Ch(s, 1)) \o Replace(SubSeq(s, 2, Len(s)), a, b)
RECURSIVE Join(_, _)
Join(ss, sep) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)
(* position of the first occurrence of character c, or 0 *)
Pos(s, c) == IF \E i \in 1..Len(s) : Ch(s, i) = c
             THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = c /\ \A j \in 1..(i - 1) : Ch(s, j) # c
             ELSE 0
(* longest trailing run of character c removed *)
RECURSIVE RStrip(_, _)
RStrip(s, c) == IF Len(s) = 0 \/ Ch(s, Len(s)) # c THEN s ELSE RStrip(SubSeq(s, 1, Len(s) - 1), c)
=============================================================================
