-------------------------------- MODULE Store --------------------------------
(* The in-memory token store (P13): a content-addressed set shared by       *)
(* clones.  Operations take effect atomically at some moment between call   *)
(* and return.                                                              *)
(*                                                                          *)
(* Contents are numbered; kind[c] is "text" or "bin" (not UTF-8).  An        *)
(* address is [c, codec, hash]; the address of content c is Addr(c).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads
VARIABLES kind,      \* content -> "text" | "bin"
          mem,       \* contents present
          pend       \* thread -> pending operation or idle
vars == <<kind, mem, pend>>

Addr(c) == [ c |-> c, codec |-> "raw", hash |-> "blake3" ]
IsOwn(a) == a.codec = "raw" /\ a.hash = "blake3"
Idle == [ o |-> "idle" ]

(* operations: "write" / "writetok" c, "badwrite" (a value the raw codec    *)
(* cannot represent), "read" / "readtok" / "require" a                      *)
Effect(op, m) == IF op.o \in {"write", "writetok"} THEN m \cup {op.c} ELSE m

Hit(a, m) == IsOwn(a) /\ a.c \in m
Result(op, m) ==
    CASE op.o \in {"write", "writetok"} -> [ r |-> "cid", c |-> op.c ]
      [] op.o = "badwrite" -> [ r |-> "err", c |-> 0 ]
      [] op.o = "read" -> IF Hit(op.a, m) THEN [ r |-> "bytes", c |-> op.a.c ] ELSE [ r |-> "none", c |-> 0 ]
      [] op.o \in {"readtok", "require"} ->
             IF Hit(op.a, m) /\ kind[op.a.c] = "text" THEN [ r |-> "bytes", c |-> op.a.c ] ELSE [ r |-> "err", c |-> 0 ]

\* an answer that says there is no such token, in either way of saying it
Absent(x) == x.r \in {"none", "err"}
Same(op, x, y) == \/ x = y
                  \/ op.o = "readtok" /\ Absent(x) /\ Absent(y) /\ op.a.codec = "raw"

-----------------------------------------------------------------------------
Call(t, op) == /\ pend[t] = Idle
               /\ pend' = [ pend EXCEPT ![t] = [ o |-> "pending", op |-> op ] ]
               /\ UNCHANGED <<kind, mem>>
Take(t) ==     /\ pend[t].o = "pending"
               /\ mem' = Effect(pend[t].op, mem)
               /\ pend' = [ pend EXCEPT ![t] = [ o |-> "taken", op |-> pend[t].op, res |-> Result(pend[t].op, mem) ] ]
               /\ UNCHANGED kind
Return(t) ==   /\ pend[t].o = "taken"
               /\ pend' = [ pend EXCEPT ![t] = Idle ]
               /\ UNCHANGED <<kind, mem>>
=============================================================================
