------------------------------- MODULE Session -------------------------------
(* A session: a sequence of library calls in one process.  The library is   *)
(* a set of functions; the world a call may read is its arguments, the      *)
(* settings the user chose (decimal context, numpy error handling) and the  *)
(* random stream; the only thing it may change is the random stream, and    *)
(* that only by drawing from it.                                            *)
(*                                                                          *)
(* A call is a record: fn, samples (whether it is a function that samples), *)
(* pre and post (digests of the world before and after: args, defaults,     *)
(* consts, dec, err, rng, other), res (its result; equal results are equal  *)
(* strings; an exception is a result too), stream (the seed the user gave   *)
(* last: drawing from different streams never leads to the same state,      *)
(* while two places of one stream may).  Between calls the user may edit    *)
(* anything of theirs: settings, seed, arguments and earlier results.       *)
EXTENDS Integers, Sequences
Fault(ok, name) == IF ok THEN {} ELSE {name}
FrameV(c) ==
  Fault(c.post.args = c.pre.args, "argument-modified")
  \cup Fault(c.post.defaults = c.pre.defaults, "default-modified")
  \cup Fault(c.post.consts = c.pre.consts, "constant-modified")
  \cup Fault(c.post.dec = c.pre.dec, "decimal-context-changed")
  \cup Fault(c.post.err = c.pre.err, "error-handling-changed")
  \cup Fault(c.samples \/ c.post.rng = c.pre.rng, "random-state-changed")
  \cup Fault(c.post.other = c.pre.other, "sampled-elsewhere")
(* the same call in the same settings *)
SameCall(c, d) == c.fn = d.fn /\ c.pre.args = d.pre.args /\ c.pre.dec = d.pre.dec /\ c.pre.err = d.pre.err
RepeatV(c, d) ==
  IF ~SameCall(c, d) THEN {}
  ELSE IF c.pre.rng = d.pre.rng THEN Fault(c.res = d.res, "not-repeatable") \cup Fault(c.post.rng = d.post.rng, "random-stream-not-repeatable")
  ELSE IF ~c.samples THEN Fault(c.res = d.res, "not-repeatable")   \* whatever the random state
  ELSE Fault(c.stream = d.stream \/ c.post.rng # d.post.rng, "random-stream-reset")
SessionV(h) ==
  UNION {FrameV(h[i]) : i \in 1..Len(h)} \cup UNION {RepeatV(h[i], h[j]) : i, j \in 1..Len(h)}
=============================================================================
