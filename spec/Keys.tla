--------------------------------- MODULE Keys ---------------------------------
(* Signing and verifying (P17).  A key is [id, priv]; a signature            *)
(* [by, msg, raw]: made by key `by' over message `msg', raw "intact" or      *)
(* damaged.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SignOk(priv) == priv
VerifyOk(k, m, s) == s.by = k /\ s.msg = m /\ s.raw = "intact"
=============================================================================
