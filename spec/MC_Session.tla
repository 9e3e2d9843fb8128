------------------------------ MODULE MC_Session ------------------------------
(* A small library - a pure function, a sampling one and one that raises -  *)
(* used in every schedule of up to Calls calls, with the user reseeding,    *)
(* editing arguments and earlier results, and changing settings in between. *)
(* (hidden: what the library keeps to itself.)  The correct library         *)
(* is always accepted; each faulty one is rejected as soon as its fault has *)
(* had a chance to show.                                                    *)
EXTENDS Session, Json, IOUtils, SequencesExt, TLC
CONSTANTS Calls
Fns == {"pure", "sample", "raise"}
Seeds == {10, 20}
Faults == {"none", "arg", "default", "const", "dec-on-raise", "err", "pure-draws", "hidden-state", "reseed", "own-entropy", "default-grows", "shared-result"}
VARIABLES w, h, hidden, fault, todo
vars == <<w, h, hidden, fault, todo>>
World == [args : {1, 2}, set : {"d1", "d2"}, rng : Int, dflt : Int]
Init == /\ w = [args |-> 1, set |-> "d1", rng |-> 10, dflt |-> 0, dec |-> 0, stream |-> 10]
        /\ h = <<>> /\ hidden = 0 /\ fault \in Faults /\ todo = <<>>
Obs(x) == [args |-> x.args, defaults |-> x.dflt, consts |-> 0, dec |-> <<x.set, x.dec>>, err |-> 0, rng |-> x.rng, other |-> 0]
Result(f, x, hid) ==
  LET base == IF f = "sample" THEN <<f, x.args, IF fault = "own-entropy" THEN 0 ELSE x.rng>> ELSE <<f, x.args>>
  IN CASE fault = "hidden-state" \/ (fault = "shared-result" /\ f = "pure") -> <<base, hid>>
       [] fault = "own-entropy" /\ f = "sample" -> <<base, hid>>
       [] fault = "default-grows" /\ f = "pure" -> <<base, x.dflt>>
       [] OTHER -> base
After(f, x) ==
  LET y == IF f = "sample" /\ fault # "own-entropy" THEN [x EXCEPT !.rng = IF fault = "reseed" THEN 1 ELSE @ + 1] ELSE x
  IN CASE fault = "arg" /\ f = "pure" -> [y EXCEPT !.args = 3]
       [] fault \in {"default", "default-grows"} /\ f = "pure" -> [y EXCEPT !.dflt = @ + 1]
       [] fault = "dec-on-raise" /\ f = "raise" -> [y EXCEPT !.dec = 1]
       [] fault = "pure-draws" /\ f = "pure" -> [y EXCEPT !.rng = @ + 1]
       [] OTHER -> y
Call(f) == LET y == After(f, w)
               o == Obs(y)
               post == CASE fault = "const" -> [o EXCEPT !.consts = 1] [] fault = "err" -> [o EXCEPT !.err = 1] [] OTHER -> o
           IN /\ h' = Append(h, [fn |-> f, samples |-> f = "sample", stream |-> w.stream, pre |-> Obs(w), post |-> post, res |-> Result(f, w, hidden)])
              /\ w' = y /\ hidden' = (IF fault = "shared-result" THEN hidden ELSE hidden + 1) /\ todo' = Append(todo, f) /\ UNCHANGED fault
User == \/ \E s \in Seeds : w.rng # s /\ w' = [w EXCEPT !.rng = s, !.stream = s] /\ todo' = Append(todo, "seed" \o ToString(s))
        \/ \E a \in {1, 2} : w.args # a /\ w' = [w EXCEPT !.args = a] /\ todo' = Append(todo, "edit")
        \/ \E d \in {"d1", "d2"} : w.set # d /\ w' = [w EXCEPT !.set = d] /\ todo' = Append(todo, "settings")
Did(f) == \E i \in 1..Len(h) : h[i].fn = f
Next == /\ Len(h) < Calls
        /\ \/ \E f \in Fns : Call(f)
           \/ (IF todo = <<>> THEN TRUE ELSE todo[Len(todo)] \in Fns) /\ User /\ UNCHANGED <<h, hidden, fault>>
           \/ fault = "shared-result" /\ Did("pure") /\ hidden = 0 /\ hidden' = 1 /\ UNCHANGED <<w, h, fault, todo>>
Accepts == fault = "none" => SessionV(h) = {}
Twice(f, same) == \E i, j \in 1..Len(h) : i < j /\ h[i].fn = f /\ SameCall(h[i], h[j]) /\ (IF same THEN h[i].pre.rng = h[j].pre.rng ELSE h[i].stream # h[j].stream /\ h[i].pre.rng # h[j].pre.rng)
Rejects ==
  /\ fault \in {"arg", "default", "pure-draws", "default-grows"} /\ Did("pure") => SessionV(h) # {}
  /\ fault = "dec-on-raise" /\ Did("raise") => SessionV(h) # {}
  /\ fault \in {"const", "err"} /\ h # <<>> => SessionV(h) # {}
  /\ fault = "hidden-state" /\ (\E f \in Fns : Twice(f, TRUE)) => SessionV(h) # {}
  /\ fault = "shared-result" /\ (\E i, j \in 1..Len(h) : h[i].fn = "pure" /\ SameCall(h[i], h[j]) /\ h[i].res # h[j].res) => SessionV(h) # {}
  /\ fault = "own-entropy" /\ Twice("sample", TRUE) => SessionV(h) # {}
  /\ fault = "reseed" /\ Twice("sample", FALSE) => SessionV(h) # {}
(* schedules for replay: every ordering of roles, user steps in between *)
Steps == {"pure", "sample", "raise", "seed", "edit", "settings"}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq([1..4 -> Steps]))
=============================================================================
