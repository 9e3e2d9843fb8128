----------------------------- MODULE Checkpoint -----------------------------
(* Checkpointed prediction runs.  A run asks for a sequence of methods on   *)
(* one version of the data; with a checkpoint directory, methods whose fit  *)
(* and prediction completed before on the same data are loaded, the others  *)
(* are trained one by one and stored as they complete.  A run may crash     *)
(* while training or predicting a method; what completed stays stored.      *)
EXTENDS Integers, Sequences, FiniteSets
(* a key is what determines a prediction: method configuration and data *)
Key(cfg, data) == <<cfg, data>>
(* One method of a run.  s: store, fitted: keys trained by this run.        *)
StepMethod(s, fitted, cfg, data, ckpt, crashes) ==
  LET k == Key(cfg, data) IN
  IF ckpt /\ k \in s THEN [store |-> s, fitted |-> fitted, crashed |-> FALSE]
  ELSE [store |-> IF ckpt /\ ~crashes THEN s \cup {k} ELSE s, fitted |-> Append(fitted, k), crashed |-> crashes]
(* A whole run: ms sequence of configurations, c the configuration whose    *)
(* training crashes ("" for none).                                          *)
RECURSIVE RunFrom(_, _, _, _, _, _, _)
RunFrom(i, s, fitted, ms, data, ckpt, c) ==
  IF i > Len(ms) THEN [store |-> s, fitted |-> fitted, crashed |-> FALSE]
  ELSE LET r == StepMethod(s, fitted, ms[i], data, ckpt, ms[i] = c) IN
       IF r.crashed THEN r ELSE RunFrom(i + 1, r.store, r.fitted, ms, data, ckpt, c)
Run(s, ms, data, ckpt, c) == RunFrom(1, s, <<>>, ms, data, ckpt, c)
=============================================================================
